------------------------------- MODULE FxObj -------------------------------
(***************************************************************************)
(* Abstract state machine of the fields of fieldx sync/async objects as a   *)
(* client sees them through the generated helper methods.                   *)
(*                                                                         *)
(* A cell is one field of one object: cell = object * 3 + field.            *)
(* val[c]   0 no value, > 0 the identity of the value, -1 no such object    *)
(* bld[c]   the thread (task) whose lazy builder is at work, -1 nobody      *)
(* gs       guards alive: <<thread, cell, "r" or "w">>                      *)
(* fr[t]    stack of calls in progress of thread t; more than one when a    *)
(*          builder calls helpers itself. A frame is                        *)
(*          [o: operation, c: cell or object, a: argument, d: other object, *)
(*           s: status, k: kind of result, r: result,                       *)
(*           z: the cell was empty at a moment of the call]                 *)
(*   status p  called, nothing happened yet                                 *)
(*          b  its builder is running                                       *)
(*          d  its builder returned a value, not yet visible                *)
(*          c  the value has been stored                                    *)
(*          l  took effect, result is <<k, r>>                              *)
(*          f  failed, result is <<k, r>>                                   *)
(*          x  cancelled (its future is being dropped)                      *)
(* sn[t]    while t is in a clone or ==: for each field what it (the pair)    *)
(*          could be seen to be so far                                      *)
(* Result kinds: u unit/guard, v value (0: none), b boolean, e error,       *)
(* p panic.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES kind, val, bld, gs, fr, sn
ovars == <<kind, val, bld, gs, fr, sn>>
bvars == <<kind, val, bld, gs, fr>>

NF == 3                                   \* fields per object
CellsOf(i) == {i * NF + f : f \in 0 .. NF - 1}
Lazy == kind \in {"lz", "lf"}

Frame(o, c, a, d) ==
    [o |-> o, c |-> c, a |-> a, d |-> d, s |-> "p", k |-> "", r |-> 0,
     z |-> o \notin {"clone", "eq"} /\ val[c] = 0]

Top(t) == fr[t][Len(fr[t])]
HasTop(t) == fr[t] # <<>>
SetTop(t, f) == [fr EXCEPT ![t] = [@ EXCEPT ![Len(@)] = f]]
Pop(t) == [fr EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]

\* Calls in progress on a cell that is emptied take note of that.
Emptied(F, c) ==
    [t \in DOMAIN F |-> [i \in DOMAIN F[t] |->
        IF F[t][i].c = c /\ F[t][i].o \notin {"clone", "eq"} THEN [F[t][i] EXCEPT !.z = TRUE] ELSE F[t][i]]]
Noted(F, c, v) == IF v = 0 /\ val[c] # 0 THEN Emptied(F, c) ELSE F

\* Cells a frame is concerned with.
Touches(f) ==
    CASE f.o = "clone" -> CellsOf(f.c)
      [] f.o = "eq"    -> CellsOf(f.c) \cup CellsOf(f.d)
      [] OTHER         -> {f.c}

Multi(o) == o \in {"clone", "eq"}
Excl(o) == o \in {"set", "clr", "getm", "wr"}
Getter(o) == o \in {"getc", "rd", "getm"}

FreeX(c) == bld[c] = -1 /\ ~ \E x \in gs : x[2] = c
FreeS(c) == bld[c] = -1 /\ ~ \E x \in gs : x[2] = c /\ x[3] = "w"
MyGuard(t, c, k) == <<t, c, k>> \in gs

-----------------------------------------------------------------------------
(* Effect of the operation o of thread t at its linearization point:         *)
(* Eff(...).ok says whether it can take effect now; v, g, r, k are the new   *)
(* value of the cell, the new guards and the result.                         *)
No == [ok |-> FALSE]
Yes(v, g, k, r) == [ok |-> TRUE, v |-> v, g |-> g, k |-> k, r |-> r]

Eff(t, o, c, a) ==
    CASE o = "getc" ->
            IF FreeS(c) /\ (Lazy => val[c] # 0) THEN Yes(val[c], gs, "v", val[c]) ELSE No
      [] o = "rd" ->
            IF FreeS(c) /\ (Lazy => val[c] # 0)
            THEN Yes(val[c], gs \cup {<<t, c, "r">>}, "u", 0) ELSE No
      [] o = "getm" ->
            IF FreeX(c) /\ (Lazy => val[c] # 0)
            THEN Yes(val[c], gs \cup {<<t, c, "w">>}, "u", 0) ELSE No
      [] o = "wr" ->
            IF FreeX(c) THEN Yes(val[c], gs \cup {<<t, c, "w">>}, "u", 0) ELSE No
      [] o = "set" -> IF FreeX(c) THEN Yes(a, gs, "v", val[c]) ELSE No
      [] o = "clr" -> IF FreeX(c) THEN Yes(0, gs, "v", val[c]) ELSE No
      [] o = "has" ->
            \* the predicate of a lazy field never waits
            IF Lazy \/ FreeS(c)
            THEN Yes(val[c], gs, "b", IF val[c] # 0 THEN 1 ELSE 0) ELSE No
      [] o = "gr" ->
            IF MyGuard(t, c, "r") \/ MyGuard(t, c, "w") THEN Yes(val[c], gs, "v", val[c]) ELSE No
      [] o \in {"gw", "gst"} ->
            IF MyGuard(t, c, "w") THEN Yes(a, gs, "v", val[c]) ELSE No
      [] o = "gcl" -> IF MyGuard(t, c, "w") THEN Yes(0, gs, "v", val[c]) ELSE No
      [] o = "drop" ->
            IF \E k \in {"r", "w"} : MyGuard(t, c, k)
            THEN Yes(val[c], gs \ {<<t, c, "r">>, <<t, c, "w">>}, "u", 0) ELSE No
      [] OTHER -> No

-----------------------------------------------------------------------------
(* Calls *)
Inv(t, o, c, a, d) ==
    /\ fr' = [fr EXCEPT ![t] = Append(@, Frame(o, c, a, d))]
    /\ UNCHANGED <<kind, val, bld, gs>>

(* Linearization of a simple operation *)
LinSimple(t) ==
    /\ HasTop(t)
    /\ LET f == Top(t) IN
       /\ f.s \in {"p", "c"}
       /\ ~Multi(f.o)
       /\ LET e == Eff(t, f.o, f.c, f.a) IN
          /\ e.ok
          /\ val' = [val EXCEPT ![f.c] = e.v]
          /\ gs' = e.g
          /\ fr' = Noted(SetTop(t, [f EXCEPT !.s = "l", !.k = e.k, !.r = e.r]), f.c, e.v)
          /\ UNCHANGED <<kind, bld>>

(* clone and == look at one field (pair of fields) at a time: collect what     *)
(* can be seen. Conjoined to every step.                                      *)
InMulti(F, t) == F[t] # <<>> /\ Multi(F[t][Len(F[t])].o)
SeesNow(f, i) ==   \* in the new state
    LET x == f.c * NF + i
        y == IF f.o = "eq" THEN f.d * NF + i ELSE x
        freeS(c) == bld'[c] = -1 /\ ~ \E g \in gs' : g[2] = c /\ g[3] = "w"
    IN IF ~(freeS(x) /\ freeS(y)) THEN {}
       ELSE IF f.o = "clone" THEN {val'[x]}
       ELSE {IF val'[x] = val'[y] THEN 1 ELSE 0}
Snap ==
    sn' = [t \in DOMAIN fr' |->
              IF ~InMulti(fr', t) THEN <<>>
              ELSE LET f == fr'[t][Len(fr'[t])]
                   IN [i \in 0 .. NF - 1 |->
                         (IF sn[t] = <<>> THEN {} ELSE sn[t][i]) \cup SeesNow(f, i)]]

Lin(t) == LinSimple(t)

-----------------------------------------------------------------------------
(* Lazy builders *)
BuilderBegin(t, c) ==
    /\ HasTop(t) /\ Lazy
    /\ LET f == Top(t) IN
       \* (status c: somebody emptied the field before the call that filled it got to look)
       /\ f.s \in {"p", "c"} /\ Getter(f.o) /\ f.c = c
       /\ val[c] = 0
       /\ FreeX(c)
       /\ bld' = [bld EXCEPT ![c] = t]
       /\ fr' = SetTop(t, [f EXCEPT !.s = "b"])
    /\ UNCHANGED <<kind, val, gs>>

BuilderEnd(t, c, k, r) ==
    /\ HasTop(t)
    /\ LET f == Top(t) IN
       /\ f.s = "b" /\ f.c = c
       /\ bld[c] = t
       /\ \/ /\ k = "v"
             /\ fr' = SetTop(t, [f EXCEPT !.s = "d", !.r = r])
             /\ UNCHANGED bld
          \/ /\ k \in {"e", "p"}
             /\ k = "e" => kind = "lf"
             /\ fr' = SetTop(t, [f EXCEPT !.s = "f", !.k = k, !.r = r])
             /\ bld' = [bld EXCEPT ![c] = -1]
    /\ UNCHANGED <<kind, val, gs>>

(* The value becomes visible *)
Commit(t) ==
    /\ HasTop(t)
    /\ LET f == Top(t) IN
       /\ f.s = "d"
       /\ val' = [val EXCEPT ![f.c] = f.r]
       /\ bld' = [bld EXCEPT ![f.c] = -1]
       /\ fr' = SetTop(t, [f EXCEPT !.s = "c", !.r = 0])
    /\ UNCHANGED <<kind, gs>>

Internal(t) == Lin(t) \/ Commit(t)

-----------------------------------------------------------------------------
(* Return with result <<k, r>> *)
ResSimple(t, k, r) ==
    /\ LET f == Top(t) IN
       /\ f.s \in {"l", "f"}
       /\ f.k = k /\ f.r = r
    /\ fr' = Pop(t)
    /\ UNCHANGED <<kind, val, bld, gs>>

ResClone(t, k, r) ==
    /\ LET f == Top(t) IN
       /\ f.o = "clone" /\ k = "u"
       /\ \E v0 \in sn[t][0], v1 \in sn[t][1], v2 \in sn[t][2] :
             val' = [c \in DOMAIN val |-> IF c \in CellsOf(f.d) THEN <<v0, v1, v2>>[1 + (c % NF)] ELSE val[c]]
    /\ fr' = Pop(t)
    /\ UNCHANGED <<kind, bld, gs>>

ResEq(t, k, r) ==
    /\ LET f == Top(t) IN
       /\ f.o = "eq" /\ k = "b"
       /\ IF r = 1 THEN \A i \in 0 .. NF - 1 : 1 \in sn[t][i]
                   ELSE \E i \in 0 .. NF - 1 : 0 \in sn[t][i]
    /\ fr' = Pop(t)
    /\ UNCHANGED <<kind, val, bld, gs>>

Res(t, k, r) == HasTop(t) /\ (ResSimple(t, k, r) \/ ResClone(t, k, r) \/ ResEq(t, k, r))

(* Call, effect and return without anybody else doing anything in between *)
OpSimple(t, o, c, a, k, r) ==
    /\ o \notin {"clone", "eq"}
    /\ LET e == Eff(t, o, c, a) IN
       /\ e.ok /\ e.k = k /\ e.r = r
       /\ val' = [val EXCEPT ![c] = e.v]
       /\ gs' = e.g
       /\ fr' = Noted(fr, c, e.v)
    /\ UNCHANGED <<kind, bld>>

OpClone(t, o, i, d, k, r) ==
    /\ o = "clone" /\ k = "u"
    /\ \A c \in CellsOf(i) : FreeS(c)
    /\ val' = [c \in DOMAIN val |-> IF c \in CellsOf(d) THEN val[i * NF + (c % NF)] ELSE val[c]]
    /\ UNCHANGED <<kind, bld, gs, fr>>

OpEq(t, o, i, d, k, r) ==
    /\ o = "eq" /\ k = "b"
    /\ LET seen(f) == FreeS(i * NF + f) /\ FreeS(d * NF + f)
           same(f) == val[i * NF + f] = val[d * NF + f]
       IN IF r = 1 THEN \A f \in 0 .. NF - 1 : seen(f) /\ same(f)
                   ELSE \E f \in 0 .. NF - 1 : seen(f) /\ ~same(f)
    /\ UNCHANGED <<kind, val, bld, gs, fr>>

Op(t, o, c, a, d, k, r) ==
    OpSimple(t, o, c, a, k, r) \/ OpClone(t, o, c, d, k, r) \/ OpEq(t, o, c, d, k, r)

-----------------------------------------------------------------------------
(* Cancellation: the future of the outermost call of t is dropped. The call  *)
(* must not have had any effect.                                             *)
CancelBegin(t) ==
    /\ HasTop(t)
    /\ fr[t][1].s \in {"p", "b", "d", "f"}
    /\ bld' = [c \in DOMAIN bld |-> IF bld[c] = t THEN -1 ELSE bld[c]]
    /\ fr' = [fr EXCEPT ![t] = <<[fr[t][1] EXCEPT !.s = "x"]>>]
    /\ UNCHANGED <<kind, val, gs>>

CancelEnd(t) ==
    /\ HasTop(t)
    /\ Top(t).s = "x"
    /\ fr' = Pop(t)
    /\ UNCHANGED <<kind, val, bld, gs>>

-----------------------------------------------------------------------------
(* A call of t may have to wait only for somebody else's call in progress on *)
(* the same field, or for a guard it conflicts with. Read guards never make  *)
(* readers of an initialized field wait; a getter that found a lazy field    *)
(* empty wants to initialize it and may have to.                             *)
MayWait(t) ==
    /\ HasTop(t)
    /\ LET C == Touches(Top(t)) IN
       \/ \E u \in DOMAIN fr \ {t} : \E i \in DOMAIN fr[u] :
             /\ ~ (Lazy /\ fr[u][i].o = "has")
             /\ Touches(fr[u][i]) \cap C # {}
       \/ \E x \in gs : x[1] # t /\ x[2] \in C
             /\ (x[3] = "w" \/ Excl(Top(t).o) \/ (Lazy /\ Getter(Top(t).o) /\ Top(t).z))

Blocks(t) == MayWait(t) /\ UNCHANGED bvars

-----------------------------------------------------------------------------
(* Invariants of the abstract machine *)
TypeOK ==
    /\ kind \in {"lz", "lf", "op", "lk"}
    /\ \A c \in DOMAIN val : val[c] \in Int /\ val[c] >= -1
    /\ \A c \in DOMAIN bld : bld[c] \in DOMAIN fr \cup {-1}
    /\ \A x \in gs : x[1] \in DOMAIN fr /\ x[2] \in DOMAIN val /\ x[3] \in {"r", "w"}

\* C05: an exclusive guard is alone; C01/C02: nobody holds a guard of a cell being built
GuardExclusion ==
    \A x, y \in gs : (x # y /\ x[2] = y[2]) => (x[3] = "r" /\ y[3] = "r")
BuilderAlone ==
    \A c \in DOMAIN bld : bld[c] # -1 => (val[c] = 0 /\ ~ \E x \in gs : x[2] = c)
\* no two builders of one cell: at most one frame in status b/d per cell
OneBuilder ==
    \A c \in DOMAIN bld :
        Cardinality({<<t, i>> \in UNION {{t} \X DOMAIN fr[t] : t \in DOMAIN fr} :
                        fr[t][i].s \in {"b", "d"} /\ fr[t][i].c = c}) <= 1
\* a read guard is over a value (lazy fields)
ReadGuardHasValue ==
    Lazy => \A x \in gs : x[3] = "r" => val[x[2]] # 0
=============================================================================
