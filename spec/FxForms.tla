------------------------------ MODULE FxForms ------------------------------
(* The grammar of the arguments of fxstruct ("s") and fieldx ("f"): which     *)
(* forms of which arguments are declarations, and which are errors.  Nothing  *)
(* that is written in an attribute may be ignored: a form is either accepted  *)
(* (and means what FxAttr says) or it is an error.                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Levels == {"s", "f"}

(* The documented types of the arguments. *)
Keywords(l) == {"sync", "async", "inner_mut", "lock", "optional", "clone", "copy", "into", "private"}
               \cup (IF l = "s" THEN {"no_new", "default"} ELSE {})
Flags(l)    == IF l = "f" THEN {"skip"} ELSE {}
Helpers(l)  == {"lazy", "get", "get_mut", "set", "reader", "writer", "clearer", "predicate", "builder"}
               \cup (IF l = "s" THEN {"rc"} ELSE {})
Functions(l) == {"fallible", "mode", "serde", "public"} \cup (IF l = "f" THEN {"rename", "default"} ELSE {})
Lists(l)    == IF l = "s" THEN {"attributes", "attributes_impl"} ELSE {"attributes_fn"}

Args(l) == Keywords(l) \cup Flags(l) \cup Helpers(l) \cup Functions(l) \cup Lists(l)

Type(l, a) == CASE a \in Flags(l) -> "flag" [] a \in Keywords(l) -> "keyword" [] a \in Helpers(l) -> "helper"
                [] a \in Lists(l) -> "list" [] a \in Functions(l) -> "function"
                [] OTHER -> "none"      \* an argument of the other level, or of neither

(* Sub-arguments with something in them that they never take. *)
Malformed == {"off_lit", "off_bool", "private_lit", "private_bool", "public_unknown", "public_two", "public_lit", "in_mod_word", "into_lit", "into_word",
              "required_lit", "required_bool", "opt_in_lit", "post_build_two", "post_build_lit", "error_none", "error_three", "error_lit", "serialize_lit",
              "serialize_bool", "deserialize_lit", "deserialize_bool", "clone_lit", "copy_bool", "in_mod_lit"}

(* Sub-arguments, in their valid form. *)
SubNames == {"off", "public", "pubcrate", "pubsuper", "pubin", "private", "attributes_fn", "attributes", "attributes_impl",
             "clone", "copy", "as_ref", "into", "opt_in", "required", "required_off", "post_build", "post_build_name", "error",
             "serialize", "serialize_off", "deserialize", "deserialize_off", "sdefault", "forward_attrs",
             "sync", "async", "plain", "crate", "super", "in_mod", "error2"} \cup Malformed

Common == {"off", "public", "pubcrate", "pubsuper", "pubin", "private", "attributes_fn"}

Subs(l, a) ==
    CASE Type(l, a) = "flag" -> {}
      [] Type(l, a) = "keyword" -> {"off"}
      [] Type(l, a) = "list" -> {}
      [] a = "get" -> Common \cup {"clone", "copy", "as_ref"}
      [] a = "set" -> Common \cup {"into"}
      [] a = "builder" -> Common \cup {"attributes", "attributes_impl", "into", "required", "required_off"}
                          \cup (IF l = "s" THEN {"opt_in", "post_build", "post_build_name", "error", "error2"} ELSE {})
      [] Type(l, a) = "helper" -> Common
      [] a = "fallible" -> {"off", "error"}
      [] a = "mode" -> {"sync", "async", "plain"}
      [] a = "public" -> {"crate", "super", "in_mod"}
      [] a = "serde" -> {"off", "public", "pubcrate", "pubsuper", "pubin", "private", "attributes", "serialize", "serialize_off", "deserialize",
                         "deserialize_off", "sdefault", "forward_attrs"}
      [] OTHER -> {}

(* a string literal: a name, a prefix, a rename, the name of the shadow struct, a default *)
TakesString(l, a) == Type(l, a) = "helper" \/ a \in {"serde"} \/ (l = "f" /\ a \in {"rename", "default"})

(* Two sub-arguments.  Some are the same one twice, some contradict each other. *)
PairSubs == SubNames \ (Malformed \cup {"off", "sync", "async", "plain", "crate", "super", "in_mod"})
Key(s) == CASE s \in {"public", "pubcrate", "pubsuper", "pubin"} -> "public" [] s = "required_off" -> "required" [] s = "post_build_name" -> "post_build"
            [] s = "error2" -> "error" [] s = "serialize_off" -> "serialize" [] s = "deserialize_off" -> "deserialize" [] OTHER -> s
Contrary == {{"public", "private"}, {"clone", "copy"}, {"clone", "as_ref"}, {"copy", "as_ref"}}
Pairs == {p \in [f: {"pair"}, s: PairSubs, t: PairSubs] : p.s # p.t}

(* The forms tried: the argument alone, twice, with something in parentheses. *)
Literals == {"int", "float", "char", "bytes", "true", "false"}
Values == {"eqstr", "eqint", "eqtrue", "eqword", "eqsub"}      \* name = value
Several == {"wordlit", "twolits", "offlits", "offoff"}          \* (zork, 5), (5, 6), (off, 5, 6), (off, off)
Forms == [f: {"word", "str", "str2", "unknown", "unknownval", "names2", "offlit"} \cup Literals \cup Values \cup Several] \cup [f: {"sub", "offsub", "strsub"}, s: SubNames \ {"off"}]
         \cup {[f |-> "sub", s |-> "off"], [f |-> "strsub", s |-> "off"]}
         \cup Pairs

(* Questions that the documentation leaves open, and combinations with effects of their own (FxAttr): not asked. *)
RECURSIVE Open(_, _, _)
Open(l, a, fm) ==
    \/ a = "default" /\ l = "f" /\ fm.f \in {"word", "sub", "offsub", "strsub", "unknown", "unknownval", "offoff", "pair"}    \* an expression: anything may be one
    \/ l = "f" /\ a = "rename" /\ fm.f \in {"sub", "strsub"} /\ fm.s = "off"
    \/ l = "f" /\ a = "serde" /\ "s" \in DOMAIN fm /\ fm.s \in {"public", "pubcrate", "pubsuper", "pubin", "private"}
    \/ l = "f" /\ a = "builder" /\ "s" \in DOMAIN fm /\ fm.s \in {"attributes_impl", "opt_in", "post_build", "post_build_name"}
    \/ l = "s" /\ a = "builder" /\ "s" \in DOMAIN fm /\ fm.s = "attributes_impl"
    \/ a \in {"lazy", "rc"} /\ "s" \in DOMAIN fm /\ fm.s = "attributes_fn"
    \/ a = "rc" /\ fm.f = "offsub"
    \/ a = "public" /\ "s" \in DOMAIN fm /\ fm.s = "off"
    \/ a = "mode" /\ fm.f \in {"offsub", "strsub"}
    \/ a = "get" /\ "s" \in DOMAIN fm /\ fm.s = "as_ref"
    \/ Type(l, a) = "list" /\ fm.f \in {"sub", "offsub", "unknown", "unknownval", "strsub", "names2", "pair", "eqsub", "offoff", "wordlit", "offlit", "offlits"}       \* anything may be an attribute
    \/ a = "serde" /\ fm.f = "offsub"
    \/ a = "private" /\ fm.f = "sub" /\ fm.s = "off"
    \/ fm.f = "pair" /\ (\/ fm.s \notin Subs(l, a) /\ fm.t \notin Subs(l, a)      \* refused for one already
                         \/ Open(l, a, [f |-> "sub", s |-> fm.s]) \/ Open(l, a, [f |-> "sub", s |-> fm.t])
                         \/ {Key(fm.s), Key(fm.t)} = {"error", "post_build"}          \* the method returns something else
                         \/ {fm.s, fm.t} = {"serialize_off", "deserialize_off"})
    \/ fm.f = "eqsub" /\ Type(l, a) = "list"
    \/ fm.f = "names2" /\ Type(l, a) # "none" /\ ~TakesString(l, a)      \* the same thing said twice

Accepted(l, a, fm) ==
    CASE Type(l, a) = "none" -> FALSE
      [] fm.f = "word" -> ~(Type(l, a) = "list" \/ a \in {"mode", "rename"})
      [] fm.f = "str" -> TakesString(l, a)
      [] fm.f \in Literals \cup {"offlit"} -> l = "f" /\ a = "default"
      [] fm.f \in {"str2", "unknown", "unknownval", "names2"} \cup Values \cup Several -> FALSE
      [] fm.f = "pair" -> fm.s \in Subs(l, a) /\ fm.t \in Subs(l, a) /\ Key(fm.s) # Key(fm.t) /\ {Key(fm.s), Key(fm.t)} \notin Contrary
      [] fm.f = "sub" -> fm.s \in Subs(l, a)
      [] fm.f = "offsub" -> "off" \in Subs(l, a) /\ fm.s \in Subs(l, a)
      [] fm.f = "strsub" -> TakesString(l, a) /\ fm.s \in Subs(l, a)

(* every name that is an argument somewhere, and one that is none *)
Names == Args("s") \cup Args("f") \cup {"zork", "required", "post_build", "opt_in", "error", "off"}

Questions == {<<l, a, fm>> : l \in Levels, a \in Names, fm \in Forms}

(* What the documentation promises of the table. *)
OrderIrrelevant == \A l \in Levels : \A a \in Names : \A p \in Pairs : Accepted(l, a, p) = Accepted(l, a, [p EXCEPT !.s = p.t, !.t = p.s])
NothingMalformed == \A l \in Levels : \A a \in Names : \A s \in Malformed : ~Accepted(l, a, [f |-> "sub", s |-> s])
OffOff == \A l \in Levels : \A a \in Keywords(l) \cup Helpers(l) : Accepted(l, a, [f |-> "sub", s |-> "off"])
CommonEverywhere == \A l \in Levels : \A a \in Helpers(l) : \A s \in Common : Accepted(l, a, [f |-> "sub", s |-> s])
NothingUnknown == \A l \in Levels : \A a \in Names : ~Accepted(l, a, [f |-> "unknown"]) /\ ~Accepted(l, a, [f |-> "str2"])
LevelsApart == \A fm \in Forms : ~Accepted("s", "skip", fm) /\ ~Accepted("s", "rename", fm) /\ ~Accepted("f", "rc", fm) /\ ~Accepted("f", "no_new", fm)
(* What an argument takes on one level, it takes on the other one too, if it is there. *)
SameForms == \A a \in (Args("s") \cap Args("f")) \ {"default", "builder"} : \A fm \in Forms : Accepted("s", a, fm) = Accepted("f", a, fm)

VARIABLE q
Init == q = <<>>
Next == q = <<>> /\ q' \in Questions
        /\ IF Open(q'[1], q'[2], q'[3]) THEN TRUE
           ELSE PrintT(ToJson(<<"Q", q'[1], q'[2], q'[3].f, IF "s" \in DOMAIN q'[3] THEN q'[3].s ELSE "",
                               IF "t" \in DOMAIN q'[3] THEN q'[3].t ELSE "", Accepted(q'[1], q'[2], q'[3])>>))
Spec == Init /\ [][Next]_q
Table == OffOff /\ CommonEverywhere /\ NothingUnknown /\ LevelsApart /\ SameForms /\ OrderIrrelevant /\ NothingMalformed
=============================================================================
