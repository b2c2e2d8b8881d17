------------------------------- MODULE FxSeq -------------------------------
(***************************************************************************)
(* Sequential meaning of the generated helper methods, the same for plain,   *)
(* sync and async structs: there is deliberately no mode in this module.     *)
(*                                                                         *)
(* A template (an element of Tpl, read from $TEMPLATES) is a struct:          *)
(*   fields: sequence of                                                     *)
(*     k    "lazy", "opt" (optional) or "cell" (everything else)              *)
(*     fall its lazy builder may return an error                              *)
(*     def  declared default (None if there is none)                         *)
(*     tdef Default::default() of its type (cells only)                       *)
(*     dep  the field its builder reads, 0 for none                           *)
(*   routes: ways of creating the object; a route tells for each field         *)
(*     whether the struct builder was given a value for it (None: not given)   *)
(*   ops: set of operations <<name, field, argument>>                         *)
(* val[f]  the value, None if there is none                                   *)
(* nb[f]   number of builder invocations so far, modulo                       *)
(* plan[f] what the next invocation of the builder of f is going to do         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

None == -1
Tpl == JsonDeserialize(IOEnv.TEMPLATES)

VARIABLES tpl, val, nb, plan
vars == <<tpl, val, nb, plan>>

F(t) == Tpl[t].fields
NBMod(t, f) == IF F(t)[f].dep = 0 THEN 3 ELSE 2

Initial(fd, given) ==
    IF given # None THEN given
    ELSE IF fd.def # None THEN fd.def
    ELSE IF fd.k = "cell" THEN fd.tdef
    ELSE None

Init ==
    \E t \in DOMAIN Tpl : \E r \in DOMAIN Tpl[t].routes :
        /\ tpl = t
        /\ val = [f \in DOMAIN F(t) |-> Initial(F(t)[f], Tpl[t].routes[r][f])]
        /\ nb = [f \in DOMAIN F(t) |-> 0]
        /\ plan = [f \in DOMAIN F(t) |-> "ok"]
        /\ PrintT(ToJson(<<"I", t, r, val>>))

-----------------------------------------------------------------------------
(* S: [val, nb, plan, log]; out: [k, v] with k in v value, n no value, t, f,    *)
(* e error, p panic, u unit.                                                  *)
Out(k, v) == [k |-> k, v |-> v]
OptOut(v) == IF v = None THEN Out("n", 0) ELSE Out("v", v)

RECURSIVE Access(_, _, _)
\* Bring the value of field f about: run its builder if it is lazy and empty.
Access(t, S, f) ==
    LET fd == F(t)[f] IN
    IF fd.k # "lazy" \/ S.val[f] # None THEN [S |-> S, out |-> OptOut(S.val[f])]
    ELSE LET n == S.nb[f]
             S1 == [S EXCEPT !.nb[f] = (n + 1) % NBMod(t, f), !.log = Append(@, f), !.plan[f] = "ok"]
         IN IF S.plan[f] = "err" THEN [S |-> S1, out |-> Out("e", 70 + n)]
            ELSE IF S.plan[f] = "panic" THEN [S |-> S1, out |-> Out("p", 0)]
            ELSE IF fd.dep = 0
                 THEN LET v == 10 * f + n IN [S |-> [S1 EXCEPT !.val[f] = v], out |-> Out("v", v)]
                 ELSE LET A == Access(t, S1, fd.dep)
                          v == 1000 * f + 500 * n + A.out.v
                      IN IF A.out.k = "v" THEN [S |-> [A.S EXCEPT !.val[f] = v], out |-> Out("v", v)]
                         ELSE A

Put(S, f, v) == [S EXCEPT !.val[f] = v]

\* Operation o on field f with argument a
Apply(t, S, o, f, a) ==
    CASE o \in {"get", "rd", "gm"} ->      \* getter, reader, mutable getter (looked at only)
            Access(t, S, f)
      [] o = "gmw" ->                      \* a written through the mutable getter
            LET A == Access(t, S, f) IN
            IF A.out.k = "v" THEN [S |-> Put(A.S, f, a), out |-> A.out] ELSE A
      [] o \in {"set", "wrst"} ->          \* setter; store through the writer's guard
            [S |-> Put(S, f, a), out |-> OptOut(S.val[f])]
      [] o = "setp" ->                     \* setter given what cannot be converted: it panics before anything happens
            [S |-> S, out |-> Out("p", 0)]
      [] o \in {"clr", "wrclr"} ->         \* clearer; clear through the writer's guard
            [S |-> Put(S, f, None), out |-> OptOut(S.val[f])]
      [] o = "gms" ->                      \* optional: Some(a), None through the mutable getter
            [S |-> Put(S, f, a), out |-> OptOut(S.val[f])]
      [] o = "gmn" ->
            [S |-> Put(S, f, None), out |-> OptOut(S.val[f])]
      [] o = "has" -> [S |-> S, out |-> Out(IF S.val[f] = None THEN "f" ELSE "t", 0)]
      [] o = "cln" ->
            \* A clone is made, then the original gets a; we go on with the clone, which isn't affected.
            \* 10: they were equal at first, 1: they are now.
            [S |-> S, out |-> Out("v", IF S.val[f] = a THEN 11 ELSE 10)]
      [] o = "err" -> [S |-> [S EXCEPT !.plan[f] = "err"], out |-> Out("u", 0)]
      [] o = "pan" -> [S |-> [S EXCEPT !.plan[f] = "panic"], out |-> Out("u", 0)]

Next ==
    \E i \in DOMAIN Tpl[tpl].ops :
       LET op == Tpl[tpl].ops[i]
           R == Apply(tpl, [val |-> val, nb |-> nb, plan |-> plan, log |-> <<>>], op.o, op.f, op.a)
       IN /\ val' = R.S.val /\ nb' = R.S.nb /\ plan' = R.S.plan
          /\ UNCHANGED tpl
          /\ PrintT(ToJson(<<"T", tpl, val, nb, plan, i, R.out.k, R.out.v, R.S.log, val', nb', plan'>>))

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* The properties, on the model
TypeOK ==
    \A f \in DOMAIN val : /\ val[f] >= None
                          /\ nb[f] \in 0 .. 2
                          /\ F(tpl)[f].k # "lazy" => plan[f] = "ok" /\ nb[f] = 0
CellsAlwaysHold == \A f \in DOMAIN val : F(tpl)[f].k = "cell" => val[f] # None
\* a builder is invoked only for a field without a value
BuildsOnlyEmpty == [][\A f \in DOMAIN val : nb'[f] # nb[f] => val[f] = None]_vars
\* nothing but an access fills, and at most fields the operation is about change
OnlyAccessBuilds ==
    [][\A f \in DOMAIN val : (val[f] = None /\ val'[f] # None /\ nb'[f] = nb[f]) =>
            \A g \in DOMAIN val \ {f} : val'[g] = val[g]]_vars
=============================================================================
