-------------------------------- MODULE FxRc --------------------------------
(***************************************************************************)
(* Reference-counted structs: objects, the strong and weak handles to them,   *)
(* and a lazy field whose builder asks for a handle of its own object and      *)
(* keeps a weak one in the value.                                             *)
(*                                                                         *)
(* hs[h]  the object strong handle h is to, 0 if the slot is free             *)
(* ws[w]  the object weak handle w is to, 0 if the slot is free               *)
(* made   objects made so far                                                *)
(* val[o] value of the lazy field of object o, None if there is none           *)
(* nb     builder invocations so far, modulo 3                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS H, W, Objects
None == -1

VARIABLES hs, ws, made, val, nb
vars == <<hs, ws, made, val, nb>>

Strong(o) == Cardinality({h \in 1 .. H : hs[h] = o})
Alive(o) == Strong(o) > 0
StrongP(o) == Cardinality({h \in 1 .. H : hs'[h] = o})
Live == Cardinality({o \in 1 .. Objects : StrongP(o) > 0})
Free(h) == hs[h] = 0

Init ==
    /\ hs = [h \in 1 .. H |-> 0]
    /\ ws = [w \in 1 .. W |-> 0]
    /\ made = 0
    /\ val = [o \in 1 .. Objects |-> None]
    /\ nb = 0

\* result of the operation, its value; the strong counts seen through the handles afterwards, objects alive
Log(o, x, y, k, v) ==
    PrintT(ToJson(<<"T", <<hs, ws, made, val, nb>>, o, x, y, k, v,
                    [h \in 1 .. H |-> IF hs'[h] = 0 THEN 0 ELSE StrongP(hs'[h])], Live,
                    <<hs', ws', made', val', nb'>>>>))

\* new() and build() make an object and hand out the only strong handle
Make(how, h) ==
    /\ Free(h) /\ made < Objects
    /\ hs' = [hs EXCEPT ![h] = made + 1]
    /\ made' = made + 1
    /\ UNCHANGED <<ws, val, nb>>
    /\ Log(how, h, 0, "u", 0)

CloneHandle(h, g) ==
    /\ ~Free(h) /\ Free(g)
    /\ hs' = [hs EXCEPT ![g] = hs[h]]
    /\ UNCHANGED <<ws, made, val, nb>>
    /\ Log("cl", h, g, "u", 0)

DropHandle(h) ==
    /\ ~Free(h)
    /\ hs' = [hs EXCEPT ![h] = 0]
    /\ UNCHANGED <<ws, made, nb>>
    \* with the last handle everything in the object goes
    /\ val' = IF Strong(hs[h]) = 1 THEN [val EXCEPT ![hs[h]] = None] ELSE val
    /\ Log("dr", h, 0, "u", 0)

\* the self-reference methods: a strong one, a weak one
Up(h, g) ==
    /\ ~Free(h) /\ Free(g)
    /\ hs' = [hs EXCEPT ![g] = hs[h]]
    /\ UNCHANGED <<ws, made, val, nb>>
    /\ Log("up", h, g, "same", 0)

Down(h, w) ==
    /\ ~Free(h) /\ ws[w] = 0
    /\ ws' = [ws EXCEPT ![w] = hs[h]]
    /\ UNCHANGED <<hs, made, val, nb>>
    /\ Log("dn", h, w, "u", 0)

UpgradeWeak(w, g) ==
    /\ ws[w] # 0 /\ Free(g)
    /\ IF Alive(ws[w])
       THEN hs' = [hs EXCEPT ![g] = ws[w]]
       ELSE hs' = hs
    /\ UNCHANGED <<ws, made, val, nb>>
    /\ Log("wu", w, g, IF Alive(ws[w]) THEN "some" ELSE "none", ws[w])

DropWeak(w) ==
    /\ ws[w] # 0
    /\ ws' = [ws EXCEPT ![w] = 0]
    /\ UNCHANGED <<hs, made, val, nb>>
    /\ Log("dw", w, 0, "u", 0)

\* The builder of the lazy field is invoked at most here, with a usable self reference
Get(h) ==
    /\ ~Free(h)
    /\ LET o == hs[h] IN
       IF val[o] # None
       THEN /\ UNCHANGED vars
            /\ Log("get", h, 0, "v", val[o])
       ELSE /\ val' = [val EXCEPT ![o] = nb]
            /\ nb' = (nb + 1) % 3
            /\ UNCHANGED <<hs, ws, made>>
            /\ Log("get", h, 0, "b", nb)

\* The builder fails, with an error or a panic: nothing stays of the attempt
GetFails(h, how) ==
    /\ ~Free(h)
    /\ UNCHANGED vars
    /\ LET o == hs[h] IN
       IF val[o] # None
       THEN Log(how, h, 0, "v", val[o])
       ELSE Log(how, h, 0, IF how = "ge" THEN "e" ELSE "p", 0)

Clear(h) ==
    /\ ~Free(h)
    /\ val' = [val EXCEPT ![hs[h]] = None]
    /\ UNCHANGED <<hs, ws, made, nb>>
    /\ Log("clr", h, 0, IF val[hs[h]] = None THEN "n" ELSE "v", val[hs[h]])

Next ==
    \/ \E h \in 1 .. H : \/ Make("new", h) \/ Make("bld", h)
                         \/ DropHandle(h) \/ Get(h) \/ Clear(h)
                         \/ GetFails(h, "ge") \/ GetFails(h, "gp")
                         \/ \E g \in 1 .. H : CloneHandle(h, g) \/ Up(h, g)
                         \/ \E w \in 1 .. W : Down(h, w)
    \/ \E w \in 1 .. W : DropWeak(w) \/ \E g \in 1 .. H : UpgradeWeak(w, g)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == /\ \A h \in 1 .. H : hs[h] \in 0 .. made
          /\ \A w \in 1 .. W : ws[w] \in 0 .. made
\* an object without strong handles holds nothing
DeadIsEmpty == \A o \in 1 .. Objects : ~Alive(o) => val[o] = None
\* the dead stay dead, weak handles or not
NoResurrection == [][\A o \in 1 .. made : ~Alive(o) => StrongP(o) = 0]_vars
\* weak handles neither keep an object alive nor end it
WeakIsWeak == [][ws' # ws => hs' = hs]_vars
=============================================================================
