------------------------------- MODULE FxBuild -------------------------------
(***************************************************************************)
(* The struct builder: which fields it knows, what build() demands, what the  *)
(* object made by it holds, and what a post-build method sees and does.       *)
(*                                                                         *)
(* A template (an element of Tpl, read from $TEMPLATES) is a declaration:     *)
(*   sb   struct level: "all" (builder), "optin" (builder(opt_in)),           *)
(*        "field" (nothing, some fields ask for a builder themselves)         *)
(*   sreq struct level builder(required)                                     *)
(*   pb   post-build method: "none", "plain", "fallible"                      *)
(*   pbf  the field the post-build method gives a new value (0: none)          *)
(*   fields: k "lazy", "opt", "cell" or "skip"; def, tdef as in FxSeq;        *)
(*     fb field level builder: "unset", "on", "off"                           *)
(*     req field level required: "unset", "on", "off"                         *)
(* bl[f]  what the builder has been given for field f                         *)
(* plan   what the post-build method is going to do                           *)
(* ph     "filling", or "done" once an object was made (or post-build failed)  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

None == -1
PBValue == 90
Given == {6, 7}
Tpl == JsonDeserialize(IOEnv.TEMPLATES)

VARIABLES tpl, bl, plan, ph
vars == <<tpl, bl, plan, ph>>

F(t) == Tpl[t].fields

HasSetter(t, f) ==
    LET fd == F(t)[f] IN
    /\ fd.k # "skip"
    /\ \/ fd.fb = "on"
       \/ fd.fb = "unset" /\ Tpl[t].sb = "all"

Required(t, f) ==
    LET fd == F(t)[f] IN
    /\ HasSetter(t, f)
    /\ \/ fd.req = "on"
       \/ fd.req = "unset" /\ Tpl[t].sreq
       \/ fd.k = "cell" /\ fd.def = None

Initial(fd) ==
    IF fd.def # None THEN fd.def
    ELSE IF fd.k \in {"cell", "skip"} THEN fd.tdef
    ELSE None

Missing(t, b) == {f \in DOMAIN F(t) : Required(t, f) /\ b[f] = None}
First(S) == CHOOSE f \in S : \A g \in S : f <= g

Object(t, b) == [f \in DOMAIN F(t) |-> IF b[f] # None THEN b[f] ELSE Initial(F(t)[f])]

-----------------------------------------------------------------------------
Init ==
    /\ tpl \in DOMAIN Tpl
    /\ bl = [f \in DOMAIN F(tpl) |-> None]
    /\ plan = "ok"
    /\ ph = "filling"
    /\ PrintT(ToJson(<<"I", tpl, [f \in DOMAIN F(tpl) |-> HasSetter(tpl, f)]>>))

\* <<"T", template, bl, plan, operation, field, value, result, field, object, what post-build saw, bl', plan', ph'>>
Log(o, f, v, res, rf, obj, seen) ==
    PrintT(ToJson(<<"T", tpl, bl, plan, o, f, v, res, rf, obj, seen, bl', plan', ph'>>))

Give(f, v) ==
    /\ ph = "filling"
    /\ HasSetter(tpl, f)
    /\ bl' = [bl EXCEPT ![f] = v]
    /\ UNCHANGED <<tpl, plan, ph>>
    /\ Log("give", f, v, "u", 0, <<>>, <<>>)

PlanFailure ==
    /\ ph = "filling" /\ plan = "ok"
    /\ Tpl[tpl].pb = "fallible"
    /\ plan' = "err"
    /\ UNCHANGED <<tpl, bl, ph>>
    /\ Log("plan", 0, 0, "u", 0, <<>>, <<>>)

BuildMissing ==
    /\ ph = "filling"
    /\ LET M == Missing(tpl, bl) IN
       /\ M # {}
       /\ UNCHANGED vars
       /\ Log("build", 0, 0, "missing", First(M), <<>>, <<>>)

BuildObject ==
    /\ ph = "filling"
    /\ Missing(tpl, bl) = {}
    /\ LET obj == Object(tpl, bl)
           T == Tpl[tpl]
           seen == IF T.pb = "none" THEN <<>> ELSE <<obj>>
           out == IF T.pb # "none" /\ T.pbf # 0 THEN [obj EXCEPT ![T.pbf] = PBValue] ELSE obj
       IN /\ bl' = [f \in DOMAIN bl |-> None]
          /\ ph' = "done"
          /\ UNCHANGED <<tpl, plan>>
          /\ IF plan = "err" THEN Log("build", 0, 0, "failed", 0, <<>>, seen)
                             ELSE Log("build", 0, 0, "object", 0, out, seen)

Next ==
    \/ \E f \in DOMAIN bl : \E v \in Given : Give(f, v)
    \/ PlanFailure
    \/ BuildMissing
    \/ BuildObject

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK ==
    /\ ph \in {"filling", "done"}
    /\ \A f \in DOMAIN bl : bl[f] \in Given \cup {None}
\* only fields with a setter are ever given anything
OnlyKnown == \A f \in DOMAIN bl : bl[f] # None => HasSetter(tpl, f)
\* a failing build() takes nothing away: ph only moves when nothing is missing
MovesOnlyComplete == [][ph' # ph => Missing(tpl, bl) = {}]_vars
\* a required cell never ends up with a default
CellHeld == \A f \in DOMAIN bl : F(tpl)[f].k \in {"cell", "skip"} => Object(tpl, bl)[f] # None
\* whatever happened so far, an object can still be had by giving the missing values
CanComplete ==
    ph = "filling" => Missing(tpl, [f \in DOMAIN bl |-> IF HasSetter(tpl, f) THEN 6 ELSE bl[f]]) = {}
=============================================================================
