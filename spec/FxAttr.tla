-------------------------------- MODULE FxAttr --------------------------------
(***************************************************************************)
(* What a declaration means: which helper methods it gives, under which name  *)
(* and visibility, what they return, how the field is stored, what the struct *)
(* can be used for (Send, Sync, builder(), new(), Default), and which         *)
(* declarations are contradictory.                                            *)
(*                                                                         *)
(* A declaration D is [s |-> struct-level arguments, fs |-> <<fields>>, svis]. *)
(* Arguments A (both levels) are records:                                     *)
(*  mode  "-", "sync", "sync_off", "async", "msync", "masync", "mplain"        *)
(*        (the last three are mode(sync), mode(async), mode(plain))            *)
(*  lock, optional, inner_mut, copy, clone, into    "-", "on", "off"           *)
(*  fall  "-", "on", "off";  ferr: an error type was given                     *)
(*  vis   "-", "priv", "super", "crate", "in", "pub"   (private, public(..))   *)
(*  mode2, vis2   another concurrency mode or visibility written besides       *)
(*  h[k]  for each helper k: [on |-> "-"|"on"|"off", nm |-> "" or a string,    *)
(*        vis |-> as above, m |-> "-"|"copy"|"clone"|"as_ref" (get only),      *)
(*        into |-> "-"|"on"|"off" (set, builder), optin, req (builder),        *)
(*        vis2, m2 |-> a second one]                                           *)
(* Fields have besides: n (name), rn (rename, or ""), skip, df (has a default) *)
(* Structs have besides: rc, serde   "-", "on", "off"                          *)
(*                                                                         *)
(* The state is one declaration being written, an argument at a time. With    *)
(* $CONFIGS the initial states are the listed declarations and nothing more    *)
(* is written; they are resolved and printed.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Kinds == {"get", "get_mut", "set", "reader", "writer", "clearer", "predicate", "lazy", "builder"}
Methods == Kinds \ {"lazy", "builder"}

Prefix(k) == CASE k = "clearer" -> "clear_" [] k = "lazy" -> "build_" [] k = "predicate" -> "has_"
               [] k = "reader" -> "read_" [] k = "set" -> "set_" [] k = "writer" -> "write_" [] OTHER -> ""
Suffix(k) == IF k = "get_mut" THEN "_mut" ELSE ""

-----------------------------------------------------------------------------
(* The first level that says something decides *)
Says(x) == x # "-"
Pick(a, b, dflt) == IF Says(a) THEN a = "on" ELSE IF Says(b) THEN b = "on" ELSE dflt

Skipped(f) == f.skip

(* concurrency mode *)
ModeSync(m) == m \in {"sync", "async", "msync", "masync"}
StructSync(s) ==
    IF Says(s.mode) THEN ModeSync(s.mode)
    ELSE IF Says(s.lock) THEN s.lock = "on"
    ELSE IF Says(s.h["reader"].on) THEN s.h["reader"].on = "on"
    ELSE s.h["writer"].on = "on"
StructAsync(s) == s.mode \in {"async", "masync"}

\* what the field's own arguments say about it: "sync", "plain" or "-"
OwnMode(f) ==
    IF Skipped(f) THEN "-"
    ELSE IF Says(f.mode) THEN (IF ModeSync(f.mode) THEN "sync" ELSE "plain")
    ELSE IF Says(f.lock) THEN (IF f.lock = "on" THEN "sync" ELSE "plain")
    ELSE IF f.inner_mut = "on" THEN "plain"
    ELSE IF f.h["reader"].on = "on" \/ f.h["writer"].on = "on" THEN "sync"
    ELSE "-"

\* a struct which says nothing is sync if one of its fields is
StructSays(s) == Says(s.mode) \/ Says(s.lock) \/ Says(s.h["reader"].on) \/ Says(s.h["writer"].on)
RatherSync(D) ==
    IF StructSays(D.s) THEN StructSync(D.s)
    ELSE \E i \in DOMAIN D.fs : OwnMode(D.fs[i]) = "sync"

Sync(D, f) == IF OwnMode(f) # "-" THEN OwnMode(f) = "sync" ELSE RatherSync(D)
Async(D, f) ==
    /\ Sync(D, f)
    /\ IF f.mode \in {"async", "masync"} THEN TRUE
       ELSE IF f.mode \in {"sync", "msync"} THEN FALSE
       ELSE StructAsync(D.s)

(* which helpers *)
Asked(D, f, k) == ~Skipped(f) /\ Pick(f.h[k].on, D.s.h[k].on, FALSE)

Lazy(D, f) == Asked(D, f, "lazy")
InnerMut(D, f) == ~Skipped(f) /\ Pick(f.inner_mut, D.s.inner_mut, FALSE)
Optional(D, f) ==
    /\ ~Skipped(f)
    /\ Pick(f.optional, D.s.optional, ~Lazy(D, f) /\ (Asked(D, f, "clearer") \/ Asked(D, f, "predicate")))
Locked(D, f) ==
    ~Skipped(f) /\ Pick(f.lock, D.s.lock, Asked(D, f, "reader") \/ Asked(D, f, "writer") \/ Optional(D, f))
Fallible(D, f) == Lazy(D, f) /\ Pick(f.fall, D.s.fall, FALSE)

HasBuilder(D) ==
    IF Says(D.s.h["builder"].on) THEN D.s.h["builder"].on = "on"
    ELSE \E i \in DOMAIN D.fs : ~Skipped(D.fs[i]) /\ D.fs[i].h["builder"].on = "on"

(* storage *)
Kind(D, f) == IF Lazy(D, f) THEN "lazy" ELSE IF Optional(D, f) THEN "opt" ELSE "cell"
Prot(D, f) ==
    IF Skipped(f) THEN "bare"
    ELSE IF Sync(D, f) THEN (IF Lazy(D, f) \/ Locked(D, f) THEN (IF Async(D, f) THEN "alock" ELSE "lock") ELSE "bare")
    ELSE IF Lazy(D, f) THEN "once"
    ELSE IF InnerMut(D, f) THEN "inner"
    ELSE "bare"
UnderLock(D, f) == Prot(D, f) \in {"lock", "alock"}

Exists(D, f, k) ==
    CASE k = "get" ->
            /\ ~Skipped(f)
            /\ Pick(f.h[k].on, D.s.h[k].on, Asked(D, f, "clearer") \/ Asked(D, f, "predicate") \/ Lazy(D, f) \/ InnerMut(D, f))
      [] k = "builder" ->
            /\ ~Skipped(f) /\ HasBuilder(D)
            /\ IF Says(f.h[k].on) THEN f.h[k].on = "on"
               ELSE D.s.h[k].on = "on" /\ ~D.s.h[k].optin
      [] k \in {"reader", "writer"} -> Asked(D, f, k) /\ UnderLock(D, f)
      [] OTHER -> Asked(D, f, k)

\* which fields build() insists on
Required(D, f) ==
    /\ Exists(D, f, "builder")
    /\ \/ Pick(f.h["builder"].req, D.s.h["builder"].req, FALSE)
       \/ Kind(D, f) = "cell" /\ ~f.df

(* names *)
Name(D, f, k) ==
    IF f.h[k].nm # "" THEN f.h[k].nm
    ELSE (IF D.s.h[k].nm # "" THEN D.s.h[k].nm ELSE Prefix(k)) \o (IF f.rn # "" THEN f.rn ELSE f.n) \o Suffix(k)

(* visibility *)
Vis(D, f, k) ==
    IF Says(f.h[k].vis) THEN f.h[k].vis
    ELSE IF Says(f.vis) THEN f.vis
    ELSE IF Says(D.s.h[k].vis) THEN D.s.h[k].vis
    ELSE IF Says(D.s.vis) THEN D.s.vis
    ELSE D.svis

(* accessor mode: get(..) of the field, the field's copy/clone, get(..) of the struct, its copy/clone *)
OwnCC(a) == IF a.copy = "on" THEN "copy" ELSE IF a.clone = "on" THEN "clone" ELSE "-"
Cancels(f, m) == (m = "copy" /\ f.copy = "off") \/ (m = "clone" /\ f.clone = "off")
GetMode(D, f) ==
    LET sm == IF Says(D.s.h["get"].m) THEN D.s.h["get"].m ELSE OwnCC(D.s)
    IN IF Says(f.h["get"].m) THEN f.h["get"].m
       ELSE IF Says(OwnCC(f)) THEN OwnCC(f)
       ELSE IF Cancels(f, sm) THEN "-"
       ELSE sm

Into(D, f, k) ==
    IF Says(f.h[k].into) THEN f.h[k].into = "on"
    ELSE IF Says(f.into) THEN f.into = "on"
    ELSE IF Says(D.s.h[k].into) THEN D.s.h[k].into = "on"
    ELSE D.s.into = "on"

(* what they return: T the value, O an Option of it, &T, &mut T, &O, o&T (an Option of a reference), *)
(* gT a guard for T, gO a guard for an Option, W the write guard of a lazy field, b a boolean; R a Result of that *)
Value(D, f) == IF Kind(D, f) = "opt" THEN "O" ELSE "T"
Shape(D, f, k) ==
    LET r(x) == IF Fallible(D, f) THEN "R" \o x ELSE x
        p == Prot(D, f)
    IN CASE k = "get" ->
              IF GetMode(D, f) \in {"copy", "clone"} THEN r(Value(D, f))
              ELSE IF GetMode(D, f) = "as_ref" THEN "o&T"
              ELSE IF p \in {"lock", "alock", "inner"} THEN r("g" \o Value(D, f))
              ELSE r("&" \o Value(D, f))
         [] k = "get_mut" ->
              IF p \in {"lock", "alock", "inner"} THEN r("g" \o Value(D, f)) ELSE r("&mut " \o Value(D, f))
         [] k = "set" -> IF Kind(D, f) = "cell" THEN "T" ELSE "O"
         [] k = "clearer" -> "O"
         [] k = "predicate" -> "b"
         [] k = "reader" -> r("g" \o Value(D, f))
         [] k = "writer" -> IF Kind(D, f) = "lazy" THEN "W" ELSE "g" \o Value(D, f)
         [] OTHER -> ""
\* which of them have to be awaited: all of a field under an async lock but the predicate of a lazy one
Awaited(D, f, k) == Prot(D, f) = "alock" /\ ~(k = "predicate" /\ Kind(D, f) = "lazy")
\* which of them want an exclusive reference to the object
Exclusive(D, f, k) == k \in {"get_mut", "set", "clearer"} /\ Prot(D, f) \in {"bare", "once"}

(* the struct *)
\* (all field types being Send and Sync)
SyncRc(D) == D.s.rc = "on" => RatherSync(D)
IsSync(D) == SyncRc(D) /\ \A i \in DOMAIN D.fs : Prot(D, D.fs[i]) \notin {"once", "inner"}
IsSend(D) == D.s.rc = "on" => IsSync(D)

-----------------------------------------------------------------------------
(* contradictions: at most one of the parts of each group may be present at one level *)
On(x) == x = "on"
Parts(p) == Cardinality({i \in DOMAIN p : p[i]})
Wrote(a, ms) == a.mode \in ms \/ a.mode2 \in ms
Vis1(v) == IF v = "-" THEN "-" ELSE IF v = "priv" THEN "private" ELSE "public"
BothVis(a) == <<"private" \in {Vis1(a.vis), Vis1(a.vis2)}, "public" \in {Vis1(a.vis), Vis1(a.vis2)}>>
Explicit == {"msync", "masync", "mplain"}
FieldGroups(f) == <<
    BothVis(f),
    <<On(f.copy), On(f.clone)>>,
    <<On(f.h["lazy"].on), On(f.optional) \/ On(f.inner_mut)>>,
    <<On(f.fall), On(f.lock) \/ On(f.optional) \/ On(f.inner_mut)>>,
    <<Wrote(f, {"sync"}), Wrote(f, {"async"}), Wrote(f, Explicit), On(f.inner_mut)>> >>
StructGroups(s) == <<
    BothVis(s),
    <<On(s.copy), On(s.clone)>>,
    <<On(s.h["lazy"].on), On(s.optional) \/ On(s.inner_mut)>>,
    <<Wrote(s, {"sync", "async"}), Wrote(s, Explicit), On(s.inner_mut)>>,
    <<On(s.serde), On(s.rc)>> >>
HelperGroups(h) == << BothVis(h), <<"copy" \in {h.m, h.m2}, "clone" \in {h.m, h.m2}, "as_ref" \in {h.m, h.m2}>> >>
Conflict(groups) == \E g \in DOMAIN groups : Parts(groups[g]) > 1
ConflictAt(groups, a) == Conflict(groups) \/ \E k \in Kinds : Conflict(HelperGroups(a.h[k]))
Contradictory(D) == ConflictAt(StructGroups(D.s), D.s) \/ \E i \in DOMAIN D.fs : ConflictAt(FieldGroups(D.fs[i]), D.fs[i])

(* declarations whose meaning is not settled by the documentation: nothing is claimed about them *)
Unsettled(D) ==
  \/ D.s.mode2 # "-" \/ D.s.vis2 # "-"                                            \* said twice, if not contradictory
  \/ D.s.rc = "on" /\ ~StructSays(D.s)
  \/ D.s.serde = "on" /\ \E i \in DOMAIN D.fs : Prot(D, D.fs[i]) = "alock" /\ Kind(D, D.fs[i]) = "lazy"   \* they are not Clone
  \/ \E i \in DOMAIN D.fs : D.fs[i].mode2 # "-" \/ D.fs[i].vis2 # "-"
  \/ ~IsSync(D) /\ \E i \in DOMAIN D.fs : Prot(D, D.fs[i]) = "alock" /\ Kind(D, D.fs[i]) = "lazy"   \* async builders need a Sync object
  \/ \E i \in DOMAIN D.fs :
        LET f == D.fs[i] IN
        \/ Lazy(D, f) /\ (Optional(D, f) \/ InnerMut(D, f))                        \* across levels
        \/ InnerMut(D, f) /\ Sync(D, f)
        \/ ~Lazy(D, f) /\ ~Optional(D, f) /\ (Asked(D, f, "clearer") \/ Asked(D, f, "predicate"))
        \/ \E k \in {"reader", "writer"} : Asked(D, f, k) /\ ~UnderLock(D, f) /\ (Sync(D, f) \/ On(f.h[k].on))
        \/ ~StructSays(D.s) /\ OwnMode(f) = "plain" /\ RatherSync(D)
        \/ ~Skipped(f) /\ Exists(D, f, "get") /\ GetMode(D, f) = "as_ref" /\ ~(Kind(D, f) = "opt" /\ Prot(D, f) = "bare")
        \/ Fallible(D, f) /\ ~f.ferr /\ ~D.s.ferr
        \/ ~Fallible(D, f) /\ On(f.fall)
        \/ f.h["lazy"].on = "off" /\ f.h["lazy"].nm # ""
        \/ Skipped(f) /\ On(f.h["lazy"].on)
        \/ f.h["builder"].on = "on" /\ D.s.h["builder"].on = "off"
Good(D) == ~Contradictory(D) /\ ~Unsettled(D)

-----------------------------------------------------------------------------
(* Crate features: a declaration needs those whose keyword it has, and those of the locks it makes. *)
(* Without them it is refused; any other feature makes no difference to it.                        *)
Written(D, m) == D.s.mode = m \/ \E i \in DOMAIN D.fs : D.fs[i].mode = m
Makes(D, p) == \E i \in DOMAIN D.fs : Prot(D, D.fs[i]) = p
Needs(D) ==
    (IF Written(D, "sync") \/ Makes(D, "lock") THEN {"sync"} ELSE {})
    \cup (IF Written(D, "async") \/ Makes(D, "alock") THEN {"async"} ELSE {})
    \cup (IF D.s.serde = "on" THEN {"serde"} ELSE {})
\* mode(sync) and mode(async) where nothing comes of them: not settled
Perhaps(D) == (IF Written(D, "msync") THEN {"sync"} ELSE {}) \cup (IF Written(D, "masync") THEN {"async"} ELSE {})

-----------------------------------------------------------------------------
Resolved(D, f) ==
    [kind |-> Kind(D, f), req |-> Required(D, f), prot |-> Prot(D, f), fall |-> Fallible(D, f),
     lazyname |-> IF Lazy(D, f) THEN Name(D, f, "lazy") ELSE "",
     h |-> [k \in Methods \cup {"builder"} |->
              [ex |-> Exists(D, f, k), nm |-> Name(D, f, k), vis |-> IF k = "builder" THEN "pub" ELSE Vis(D, f, k),
               sh |-> IF Exists(D, f, k) THEN Shape(D, f, k) ELSE "",
               aw |-> Awaited(D, f, k), excl |-> Exclusive(D, f, k), into |-> IF k \in {"set", "builder"} THEN Into(D, f, k) ELSE FALSE]]]

NoHelper == [on |-> "-", nm |-> "", vis |-> "-", m |-> "-", into |-> "-", optin |-> FALSE, req |-> "-", vis2 |-> "-", m2 |-> "-"]
NoArgs == [rc |-> "-", serde |-> "-", mode2 |-> "-", vis2 |-> "-", mode |-> "-", lock |-> "-", optional |-> "-", inner_mut |-> "-", copy |-> "-", clone |-> "-", into |-> "-",
           fall |-> "-", ferr |-> FALSE, vis |-> "-", h |-> [k \in Kinds |-> NoHelper]]
NoField == [mode2 |-> "-", vis2 |-> "-", mode |-> "-", lock |-> "-", optional |-> "-", inner_mut |-> "-", copy |-> "-", clone |-> "-", into |-> "-",
            fall |-> "-", ferr |-> FALSE, vis |-> "-", h |-> [k \in Kinds |-> NoHelper], n |-> "a", rn |-> "", skip |-> FALSE, df |-> FALSE]
Empty == [s |-> NoArgs, fs |-> <<NoField>>, svis |-> "pub"]

VARIABLES d, id, depth
vars == <<d, id, depth>>

Listed == IF "CONFIGS" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.CONFIGS) ELSE <<>>
MaxDepth == IF "DEPTH" \in DOMAIN IOEnv THEN atoi(IOEnv.DEPTH) ELSE 0

Show(i, D) ==
    PrintT(ToJson(<<"R", i, Contradictory(D), Unsettled(D), HasBuilder(D), IsSync(D), RatherSync(D), <<Needs(D), Perhaps(D)>>,
                    [j \in DOMAIN D.fs |-> Resolved(D, D.fs[j])]>>))

Init ==
    /\ depth = 0
    /\ IF Listed = <<>> THEN id = 0 /\ d = Empty
       ELSE \E i \in DOMAIN Listed : id = i /\ d = Listed[i] /\ Show(i, Listed[i])

Values(a) ==
    CASE a \in {"mode", "mode2"} -> {"sync", "async", "mplain", "msync"}
      [] a \in {"vis", "vis2"} -> {"priv", "crate"}
      [] OTHER -> {"on", "off"}

Class(m) == IF m \in Explicit THEN "mode" ELSE m
\* a second concurrency mode or visibility must be another argument than the first
Writable(a, arg, v) ==
    /\ a[arg] = "-"
    /\ arg = "mode2" => a.mode # "-" /\ Class(v) # Class(a.mode)
    /\ arg = "vis2" => a.vis # "-" /\ Vis1(v) # Vis1(a.vis)

CommonArgs == {"mode", "mode2", "lock", "optional", "inner_mut", "copy", "clone", "into", "fall", "vis", "vis2"}
WriteArg(lv) ==
    \/ \E a \in CommonArgs : \E v \in Values(a) :
          IF lv = "s" THEN Writable(d.s, a, v) /\ d' = [d EXCEPT !.s[a] = v, !.s.ferr = @ \/ (a = "fall" /\ v = "on")]
          ELSE Writable(d.fs[1], a, v) /\ d' = [d EXCEPT !.fs[1][a] = v, !.fs[1].ferr = @ \/ (a = "fall" /\ v = "on")]
    \/ lv = "s" /\ \E a \in {"rc", "serde"} : \E v \in {"on", "off"} : d.s[a] = "-" /\ d' = [d EXCEPT !.s[a] = v]
    \/ lv = "f" /\ ~d.fs[1].skip /\ d' = [d EXCEPT !.fs[1].skip = TRUE]

HelperValues(k, lv) ==
    { [NoHelper EXCEPT !.on = "on"], [NoHelper EXCEPT !.on = "off"], [NoHelper EXCEPT !.on = "on", !.nm = "x_" \o k \o "_"],
      [NoHelper EXCEPT !.on = "on", !.vis = "super"] }
    \cup (IF k = "get" THEN {[NoHelper EXCEPT !.on = "on", !.m = m] : m \in {"copy", "clone", "as_ref"}} ELSE {})
    \cup (IF k \in {"set", "builder"} THEN {[NoHelper EXCEPT !.on = "on", !.into = v] : v \in {"on", "off"}} ELSE {})
    \cup (IF k = "builder" THEN {[NoHelper EXCEPT !.on = "on", !.req = v] : v \in {"on", "off"}} ELSE {})
    \cup (IF k = "builder" /\ lv = "s" THEN {[NoHelper EXCEPT !.on = "on", !.optin = TRUE]} ELSE {})
    \cup {[NoHelper EXCEPT !.on = "on", !.vis = "priv", !.vis2 = "pub"]}
    \cup (IF k = "get" THEN {[NoHelper EXCEPT !.on = "on", !.m = "copy", !.m2 = m] : m \in {"clone", "as_ref"}} ELSE {})

WriteHelper(lv) ==
    \E k \in Kinds : \E v \in HelperValues(k, lv) :
        IF lv = "s" THEN d.s.h[k] = NoHelper /\ d' = [d EXCEPT !.s.h[k] = v]
        ELSE d.fs[1].h[k] = NoHelper /\ d' = [d EXCEPT !.fs[1].h[k] = v]

Next ==
    /\ Listed = <<>> /\ depth < MaxDepth
    /\ \E lv \in {"s", "f"} : WriteArg(lv) \/ WriteHelper(lv)
    /\ depth' = depth + 1 /\ UNCHANGED id

Spec == Init /\ [][Next]_vars

\* what was written so far is passed on to be compiled
Emitted == IF "EMIT" \in DOMAIN IOEnv THEN PrintT(ToJson(<<"D", d, Contradictory(d), Unsettled(d), IsSync(d), IsSend(d), Resolved(d, d.fs[1])>>)) ELSE TRUE

-----------------------------------------------------------------------------
(* What the rules add up to *)
All == {<<i, k>> : i \in DOMAIN d.fs, k \in Methods \cup {"builder"}}

\* off at field level always removes
OffRemoves == \A x \in All : LET f == d.fs[x[1]] IN f.h[x[2]].on = "off" => ~Exists(d, f, x[2])
\* asked for at field level: there it is (readers and writers only where there is a lock)
OnGives ==
    Good(d) => \A x \in All : LET f == d.fs[x[1]] IN f.h[x[2]].on = "on" /\ ~Skipped(f) => Exists(d, f, x[2])
\* nobody asked for anything: nothing is there
SilenceGivesNothing ==
    (\A k \in Kinds : d.s.h[k].on = "-" /\ \A i \in DOMAIN d.fs : d.fs[i].h[k].on = "-") /\ d.s.inner_mut # "on"
    /\ (\A i \in DOMAIN d.fs : d.fs[i].inner_mut # "on") => \A x \in All : ~Exists(d, d.fs[x[1]], x[2])
SkippedIsLeftAlone == \A x \in All : Skipped(d.fs[x[1]]) => ~Exists(d, d.fs[x[1]], x[2]) /\ Prot(d, d.fs[x[1]]) = "bare"
\* a struct declared sync or async is Sync unless one of its fields is declared otherwise
SyncIsSync ==
    Good(d) /\ ModeSync(d.s.mode) /\ (\A i \in DOMAIN d.fs : OwnMode(d.fs[i]) # "plain") => IsSync(d)
PlainLazyIsNot ==
    Good(d) /\ ~RatherSync(d) /\ (\E i \in DOMAIN d.fs : (Lazy(d, d.fs[i]) \/ InnerMut(d, d.fs[i])) /\ OwnMode(d.fs[i]) # "sync") => ~IsSync(d)
\* what a field says itself about visibility is what counts
FieldVisWins == \A x \in All : x[2] # "builder" /\ Says(d.fs[x[1]].vis) /\ ~Says(d.fs[x[1]].h[x[2]].vis) => Vis(d, d.fs[x[1]], x[2]) = d.fs[x[1]].vis
ModeIsOne == \A i \in DOMAIN d.fs : Good(d) /\ UnderLock(d, d.fs[i]) => ~InnerMut(d, d.fs[i])
\* the field level decides about required, unless there is no other value to put there
RequiredAsSaid ==
    \A i \in DOMAIN d.fs : LET f == d.fs[i] IN
        Exists(d, f, "builder") /\ ~(Kind(d, f) = "cell" /\ ~f.df) /\ Says(f.h["builder"].req) => Required(d, f) = (f.h["builder"].req = "on")
\* locks are what features are for
NeedsLocks ==
    Good(d) => /\ (~RatherSync(d) /\ d.s.serde # "on" /\ ~Written(d, "sync") /\ ~Written(d, "async")
                     /\ \A i \in DOMAIN d.fs : OwnMode(d.fs[i]) # "sync") => Needs(d) = {}
               /\ \A x \in All : x[2] \in {"reader", "writer"} /\ Exists(d, d.fs[x[1]], x[2]) => Needs(d) \cap {"sync", "async"} # {}
GuardsOnlyUnderLock ==
    Good(d) => \A x \in All : LET f == d.fs[x[1]] IN
        x[2] \in {"reader", "writer"} /\ Exists(d, f, x[2]) => UnderLock(d, f)

\* writing one more helper argument at field level concerns that helper, and what it is documented to imply, only
FieldHelperIsLocal ==
    [][ \A k \in Kinds :
          (d'.fs[1].h[k] # d.fs[1].h[k] /\ k \in {"get", "get_mut", "set"})
             => \A o \in (Methods \cup {"builder"}) \ {k} :
                    /\ Exists(d', d'.fs[1], o) = Exists(d, d.fs[1], o)
                    /\ Name(d', d'.fs[1], o) = Name(d, d.fs[1], o)
                    /\ Vis(d', d'.fs[1], o) = Vis(d, d.fs[1], o)
                    /\ Shape(d', d'.fs[1], o) = Shape(d, d.fs[1], o) ]_vars
\* a struct-level argument changes nothing about a helper for which the field level has said it all
FieldLevelWins ==
    [][ \A k \in Kinds :
          (d'.s.h[k] # d.s.h[k] /\ Says(d.fs[1].h[k].on) /\ d.fs[1].h[k].nm # "" /\ k \notin {"reader", "writer", "builder"})
             => Exists(d', d'.fs[1], k) = Exists(d, d.fs[1], k) /\ Name(d', d'.fs[1], k) = Name(d, d.fs[1], k) ]_vars
=============================================================================
