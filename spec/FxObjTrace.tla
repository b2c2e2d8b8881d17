---------------------------- MODULE FxObjTrace ----------------------------
(* Validates recorded API-level traces of the real code against FxObj.       *)
(* Every line of the file $TRACE is one trace; register i holds how far      *)
(* trace i could be explained.                                              *)
EXTENDS FxObj, TLC, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, l
tvars == <<ovars, tr, l>>

Ev == T[tr].ev

Init ==
    /\ tr \in DOMAIN T
    /\ l = 1
    /\ kind = T[tr].kind
    /\ val = [c \in 0 .. T[tr].ni * NF - 1 |->
                IF c < NF \/ (c < 2 * NF /\ T[tr].two) THEN T[tr].init[c + 1] ELSE -1]
    /\ bld = [c \in 0 .. T[tr].ni * NF - 1 |-> -1]
    /\ gs = {}
    /\ fr = [t \in 0 .. T[tr].n - 1 |-> <<>>]
    /\ sn = [t \in 0 .. T[tr].n - 1 |-> <<>>]
    /\ TLCSet(tr, 1)

Step(e) ==
    CASE e.e = "inv"   -> Inv(e.t, e.o, e.c, e.a, e.d)
      [] e.e = "res"   -> Res(e.t, e.k, e.r)
      [] e.e = "op"    -> Op(e.t, e.o, e.c, e.a, e.d, e.k, e.r)
      [] e.e = "bb"    -> e.c \in DOMAIN val /\ BuilderBegin(e.t, e.c)
      [] e.e = "be"    -> e.c \in DOMAIN val /\ BuilderEnd(e.t, e.c, e.k, e.r)
      [] e.e = "cb"    -> CancelBegin(e.t)
      [] e.e = "ce"    -> CancelEnd(e.t)
      [] e.e = "blk"   -> Blocks(e.t)
      [] OTHER         -> FALSE

\* Internal steps commute with everything but these events.
NeedsLin(e) == e.e \in {"res", "op", "bb", "cb"}

Next ==
    /\ l <= Len(Ev)
    /\ \/ Step(Ev[l]) /\ l' = l + 1 /\ UNCHANGED tr
       \/ /\ NeedsLin(Ev[l])
          /\ \E t \in DOMAIN fr : Internal(t)
          /\ UNCHANGED <<tr, l>>
    /\ Snap

Spec == Init /\ [][Next]_tvars

\* Side effect: remember the furthest position; stop exploring accepted traces.
Note ==
    IF TLCGet(tr) > Len(Ev) THEN FALSE
    ELSE IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE

Inv_ == GuardExclusion /\ BuilderAlone /\ OneBuilder /\ ReadGuardHasValue

Report ==
    /\ \A i \in DOMAIN T :
          TLCGet(i) = Len(T[i].ev) + 1 \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
    /\ PrintT(<<"TRACES", Len(T)>>)
=============================================================================
