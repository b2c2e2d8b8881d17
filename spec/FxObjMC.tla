----------------------------- MODULE FxObjMC -----------------------------
(***************************************************************************)
(* FxObj closed with clients: every thread (task) makes up to Calls calls,   *)
(* whichever it likes out of Ops, and lets go of every guard it gets.        *)
(* The listed properties C01-C08 are checked on it.                         *)
(*                                                                         *)
(* left[t]  calls thread t may still make                                   *)
(* succ[c]  successful builder invocations since cell c was last empty       *)
(*          by construction or clearing (or made)                           *)
(* out      values that setters and clearers reported as replaced, removed   *)
(* twice    one was reported a second time                                   *)
(* cut[t]   t's call was cancelled: what the cell was when it was             *)
(***************************************************************************)
EXTENDS FxObj, TLC

CONSTANTS Threads, Kind, Ops, Calls, Fails, Panics, Cancels, Nests, Objects, InitVal

VARIABLES left, succ, out, twice
mvars == <<ovars, left, succ, out, twice>>

Symmetry == Permutations(Threads)
Cells == 0 .. Objects * NF - 1
\* objects 0 and 1 are there from the start if == is used, the last one is made by clone
Made(i) == i = 0 \/ ("eq" \in Ops /\ i = 1)

Init ==
    /\ kind = Kind
    /\ val = [c \in Cells |-> IF ~Made(c \div NF) THEN -1 ELSE IF Kind = "lk" \/ (InitVal /\ c % NF = 0) THEN 1 + c ELSE 0]
    /\ bld = [c \in Cells |-> -1]
    /\ gs = {}
    /\ fr = [t \in Threads |-> <<>>]
    /\ sn = [t \in Threads |-> <<>>]
    /\ left = [t \in Threads |-> Calls]
    /\ succ = [c \in Cells |-> 0]
    /\ out = {}
    /\ twice = FALSE

\* the smallest identity nobody has seen yet (or all have forgotten)
Used == {val[c] : c \in Cells} \cup out \cup UNION {{fr[t][i].a : i \in DOMAIN fr[t]} \cup {fr[t][i].r : i \in DOMAIN fr[t]} : t \in Threads}
Fresh == CHOOSE n \in 1 .. 60 : n \notin Used /\ \A m \in 1 .. n - 1 : m \in Used

Idle(t) == fr[t] = <<>>
Holds(t) == {x \in gs : x[1] = t}
Entry == {"getc", "rd", "getm", "wr", "set", "clr", "has"}
GuardOps == {"gr", "gw", "gst", "gcl"}

\* what the calls that concern one cell did to the bookkeeping
Count ==
    /\ succ' = [c \in Cells |-> IF val'[c] <= 0 THEN 0
                                ELSE IF \E t \in Threads : fr[t] # <<>> /\ Top(t).s = "d" /\ Top(t).c = c /\ fr'[t] # fr[t] /\ val'[c] # val[c]
                                     THEN succ[c] + 1 ELSE succ[c]]

Keep == UNCHANGED <<out, twice>>

CallEntry(t, o) ==
    /\ o \in Ops \cap Entry
    /\ Idle(t) /\ left[t] > 0 /\ Holds(t) = {}
    /\ Inv(t, o, 0, IF o = "set" THEN Fresh ELSE 0, 0)
    /\ left' = [left EXCEPT ![t] = @ - 1]
    /\ Keep

CallGuard(t, o) ==
    /\ o \in Ops \cap GuardOps
    /\ Idle(t) /\ left[t] > 0
    /\ \E x \in Holds(t) :
          /\ o \in {"gw", "gst", "gcl"} => x[3] = "w"
          /\ Inv(t, o, x[2], IF o \in {"gw", "gst"} THEN Fresh ELSE 0, 0)
    /\ left' = [left EXCEPT ![t] = @ - 1]
    /\ Keep

CallDrop(t) ==
    /\ Idle(t)
    /\ \E x \in Holds(t) : Inv(t, "drop", x[2], 0, 0)
    /\ UNCHANGED left /\ Keep

CallMulti(t, o) ==
    /\ o \in Ops \cap {"clone", "eq"}
    /\ Idle(t) /\ left[t] > 0 /\ Holds(t) = {}
    /\ \/ /\ o = "clone"
          /\ \E i \in 0 .. Objects - 1 :
                /\ \A c \in CellsOf(i) : val[c] = -1
                /\ ~ \E u \in Threads : fr[u] # <<>> /\ Top(u).o = "clone"
                /\ Inv(t, o, 0, 0, i)
       \/ o = "eq" /\ \E i, j \in {0, 1} : Inv(t, o, i, 0, j)
    /\ left' = [left EXCEPT ![t] = @ - 1]
    /\ Keep

\* A builder of cell 0 may ask for the (lazy) cell 2 of its object
NestedCall(t) ==
    /\ Nests /\ HasTop(t) /\ Len(fr[t]) = 1 /\ Top(t).s = "b" /\ Top(t).c = 0
    /\ Inv(t, "getc", 2, 0, 0)
    /\ UNCHANGED left /\ Keep

Begin(t) == /\ \E c \in Cells : BuilderBegin(t, c)
            /\ UNCHANGED left /\ Keep

End(t) == /\ HasTop(t) /\ Top(t).s = "b"
          /\ \E k \in {"v"} \cup (IF Fails /\ Kind = "lf" THEN {"e"} ELSE {}) \cup (IF Panics THEN {"p"} ELSE {}) :
                BuilderEnd(t, Top(t).c, k, IF k = "p" THEN 0 ELSE Fresh)
          /\ UNCHANGED left /\ Keep

Step(t) == Internal(t) /\ UNCHANGED left /\ Keep

Removed(f) == IF f.o \in {"set", "clr", "gst", "gcl", "gw"} /\ f.k = "v" /\ f.r # 0 THEN {f.r} ELSE {}

Return(t) ==
    /\ HasTop(t)
    /\ LET f == Top(t) IN
       /\ IF Multi(f.o)
          THEN IF f.o = "clone" THEN Res(t, "u", 0) ELSE \E r \in {0, 1} : Res(t, "b", r)
          ELSE Res(t, f.k, f.r)
       /\ out' = out \cup Removed(f)
       /\ twice' = (twice \/ Removed(f) \cap out # {})
    /\ UNCHANGED left

Cancel(t) ==
    /\ Cancels /\ HasTop(t)
    /\ ~ fr[t][1].o \in {"gr", "gw", "gst", "gcl", "drop", "clone", "eq"}
    /\ CancelBegin(t) \/ CancelEnd(t)
    /\ UNCHANGED left /\ Keep

Work(t) == \/ Begin(t) \/ End(t) \/ Step(t) \/ Return(t) \/ CallDrop(t)
           \/ (Cancels /\ HasTop(t) /\ CancelEnd(t) /\ UNCHANGED left /\ Keep)
Client(t) == \/ \E o \in Ops : CallEntry(t, o) \/ CallGuard(t, o) \/ CallMulti(t, o)
             \/ NestedCall(t) \/ Cancel(t)

Done == (\A t \in Threads : Idle(t) /\ Holds(t) = {}) /\ UNCHANGED mvars

Next == (\E t \in Threads : Work(t) \/ Client(t)) /\ Snap /\ Count

Spec == Init /\ [][Next \/ Done]_mvars
Fair == Spec /\ \A t \in Threads : WF_mvars(Work(t) /\ Snap /\ Count)

-----------------------------------------------------------------------------
(* C01, C02 *)
OncePerInit == \A c \in Cells : succ[c] <= 1
BuilderOnlyOnEmpty == [][\A c \in Cells : (bld[c] = -1 /\ bld'[c] # -1) => val[c] = 0]_mvars
\* an access that gives a value gives the one in the field
GetsWhatIsThere ==
    [][\A t \in Threads : (fr[t] # <<>> /\ fr'[t] # <<>> /\ Len(fr[t]) = Len(fr'[t]) /\ Top(t).s # "l"
                           /\ fr'[t][Len(fr'[t])].s = "l" /\ Top(t).o = "getc")
          => fr'[t][Len(fr'[t])].r = val[Top(t).c]]_mvars

(* C03: a cancelled call leaves nothing *)
CancelledLeavesNothing ==
    [][\A t \in Threads : (fr[t] # <<>> /\ fr'[t] # <<>> /\ fr[t][1].s # "x" /\ fr'[t][1].s = "x")
          => (val' = val /\ gs' = gs /\ \A c \in Cells : bld'[c] # t)]_mvars

(* C04, C07: stored values are replaced or removed once, and are gone then *)
NeverTwice == ~twice
NotInFieldAndOut == "clone" \notin Ops => \A c \in Cells : val[c] \notin out
PredicateIsPresence ==
    [][\A t \in Threads : (fr[t] # <<>> /\ fr'[t] # <<>> /\ Len(fr[t]) = Len(fr'[t]) /\ Top(t).o = "has"
                           /\ Top(t).s = "p" /\ fr'[t][Len(fr'[t])].s = "l")
          => (fr'[t][Len(fr'[t])].r = 1) = (val[Top(t).c] # 0)]_mvars

(* C05 *)
UnderGuardOnlyOwner ==
    [][\A c \in Cells : (val'[c] # val[c]) => ~ \E x \in gs : x[2] = c /\
            ~ \E t \in Threads : t = x[1] /\ x[3] = "w" /\ fr[t] # <<>> /\ Top(t).c = c]_mvars
Waits == \A t \in Threads : (HasTop(t) /\ Top(t).s \in {"p", "c"} /\ ~Multi(Top(t).o) /\ ~ENABLED Work(t)) => MayWait(t)
AllReturn == \A t \in Threads : (fr[t] # <<>>) ~> (fr[t] = <<>>)

(* C06: after a failure the field is as it was *)
FailureLeavesUnset ==
    [][\A t \in Threads : (fr[t] # <<>> /\ fr'[t] # <<>> /\ Top(t).s = "b" /\ fr'[t][Len(fr'[t])].s = "f")
          => (val'[Top(t).c] = 0 /\ bld'[Top(t).c] = -1 /\ val' = val)]_mvars

(* C08 *)
NoSideEffects ==
    [][\A t \in Threads : (fr[t] # <<>> /\ Multi(Top(t).o) /\ fr'[t] = <<>>)
          => \A c \in Cells : val'[c] # val[c] => (Top(t).o = "clone" /\ val[c] = -1)]_mvars
CloneHasWhatWasThere ==
    [][\A t \in Threads : (fr[t] # <<>> /\ Top(t).o = "clone" /\ fr'[t] = <<>>)
          => \A i \in 0 .. NF - 1 : val'[Top(t).d * NF + i] \in sn[t][i]]_mvars
=============================================================================
