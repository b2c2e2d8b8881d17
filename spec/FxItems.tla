------------------------------- MODULE FxItems --------------------------------
(***************************************************************************)
(* What a declaration generates beside the helper methods FxAttr is about:     *)
(* new(), Default, the builder, the shadow struct of serde, the references of  *)
(* an rc object to itself -- and which of the attributes written in the        *)
(* declaration end up on which generated item.                                 *)
(*                                                                         *)
(* A declaration is one of FxAttr with a record it at both levels.             *)
(* The struct's:                                                            *)
(*  no_new, dflt          "-", "on", "off"                                    *)
(*  rcname, rcvis, sname, svis    name and visibility given to rc(..), serde(..) *)
(*  own        attributes the struct has besides fxstruct                     *)
(*  attrs, impl    attributes(..), attributes_impl(..)                        *)
(*  battrs, bimpl  builder(attributes(..)), builder(attributes_impl(..))       *)
(*  sattrs     serde(attributes(..));  fwd, fwdsaid   serde(forward_attrs(..))  *)
(*  fn[k]      attributes_fn of the helper k                                   *)
(* A field's:                                                               *)
(*  own        attributes the field has besides fieldx                        *)
(*  battrs     builder(attributes(..)),  fn[k] as above,                       *)
(*  all        attributes_fn(..) of the field                                 *)
(*  serde      the field has a serde(..) of its own, sattrs, fwd, fwdsaid of it *)
(* Attributes are strings; a list that is empty has not been written.          *)
(***************************************************************************)
EXTENDS FxAttr

Or(a, b) == IF a # <<>> THEN a ELSE b
Range(s) == {s[i] : i \in DOMAIN s}

-----------------------------------------------------------------------------
(* items *)
HasSerde(D) == D.s.serde = "on"
HasRc(D) == D.s.rc = "on"

\* new() cannot do without Default
HasNew(D) == D.s.it.no_new # "on" /\ D.s.it.dflt # "off"
HasDefault(D) ==
    IF Says(D.s.it.dflt) THEN D.s.it.dflt = "on"
    ELSE \/ HasNew(D)
         \/ \E i \in DOMAIN D.fs : D.fs[i].df
         \/ RatherSync(D) /\ \E i \in DOMAIN D.fs : Lazy(D, D.fs[i])
Made(D) == IF ~HasRc(D) THEN "S" ELSE IF RatherSync(D) THEN "Arc" ELSE "Rc"
BuilderVis(D) == IF Says(D.s.h["builder"].vis) THEN D.s.h["builder"].vis ELSE D.svis
ShadowName(D) == IF D.s.it.sname # "" THEN D.s.it.sname ELSE "__SShadow"
SelfName(D) == IF D.s.it.rcname # "" THEN D.s.it.rcname ELSE "myself"
SelfVis(D) == IF Says(D.s.it.rcvis) THEN D.s.it.rcvis ELSE "priv"

(* attributes *)
OnFn(D, f, k) == IF ~Exists(D, f, k) THEN <<>> ELSE Or(f.it.fn[k], Or(f.it.all, D.s.it.fn[k]))
OnImpl(D) == D.s.it.impl
OnStruct(D) == D.s.it.own
OnBuilder(D) == IF HasBuilder(D) THEN Or(D.s.it.battrs, D.s.it.attrs) ELSE <<>>
OnBuilderImpl(D) == IF HasBuilder(D) THEN D.s.it.bimpl ELSE <<>>
OnShadow(D) == IF HasSerde(D) THEN Or(D.s.it.sattrs, D.s.it.attrs) ELSE <<>>
OnField(D, f) == f.it.own
OnBuilderField(D, f) == IF HasBuilder(D) /\ ~Skipped(f) THEN f.it.battrs ELSE <<>>
\* (what is skipped is in no shadow)
\* forward_attrs: the field's own, otherwise the struct's
Forward(D, f) == IF f.it.serde /\ f.it.fwdsaid THEN f.it.fwd ELSE D.s.it.fwd
OnShadowField(D, f) ==
    IF ~HasSerde(D) \/ Skipped(f) THEN <<>>
    ELSE f.it.sattrs \o SelectSeq(f.it.own, LAMBDA a : a \in Range(Forward(D, f)))

UnsettledItems(D) ==
    \/ Unsettled(D) \/ Contradictory(D)
    \/ D.s.it.no_new = "off" /\ D.s.it.dflt = "off"
    \/ HasSerde(D) /\ ~D.s.it.fwdsaid                \* then they are all forwarded; not documented
    \/ D.s.it.dflt = "off" /\ \E i \in DOMAIN D.fs : D.fs[i].df
    \/ HasBuilder(D) /\ D.s.it.bimpl = <<>> /\ D.s.it.impl # <<>>   \* whether that falls back
    \/ D.s.h["builder"].vis = "in"
    \* which fields have to be lazy themselves for Default to be implemented for a sync struct
    \/ D.s.it.no_new = "on" /\ ~Says(D.s.it.dflt) /\ RatherSync(D) /\ ~(\E i \in DOMAIN D.fs : D.fs[i].df)
       /\ (\E i \in DOMAIN D.fs : Lazy(D, D.fs[i])) /\ ~(\E i \in DOMAIN D.fs : Lazy(D, D.fs[i]) /\ On(D.fs[i].h["lazy"].on))
    \/ ~RatherSync(D) /\ HasRc(D) /\ \E i \in DOMAIN D.fs : Async(D, D.fs[i])
    \* without Default: a value for the builder to start from
    \/ ~HasDefault(D) /\ \E i \in DOMAIN D.fs : Skipped(D.fs[i])

-----------------------------------------------------------------------------
Items(D) ==
    [new |-> HasNew(D), dflt |-> HasDefault(D), made |-> Made(D), builder |-> HasBuilder(D), bvis |-> BuilderVis(D),
     shadow |-> IF HasSerde(D) THEN ShadowName(D) ELSE "", shadowvis |-> D.s.it.svis,
     self |-> IF HasRc(D) THEN SelfName(D) ELSE "", selfvis |-> SelfVis(D),
     struct |-> OnStruct(D), impl |-> OnImpl(D), battrs |-> OnBuilder(D), bimpl |-> OnBuilderImpl(D), shattrs |-> OnShadow(D),
     fs |-> [i \in DOMAIN D.fs |-> LET f == D.fs[i] IN
               [inshadow |-> HasSerde(D) /\ ~Skipped(f), own |-> OnField(D, f), bf |-> OnBuilderField(D, f), sf |-> OnShadowField(D, f),
                fn |-> [k \in Methods \cup {"builder"} |-> OnFn(D, f, k)]]]]

NoItems(fn) == [no_new |-> "-", dflt |-> "-", rcname |-> "", rcvis |-> "-", sname |-> "", svis |-> "-", own |-> <<>>, attrs |-> <<>>, impl |-> <<>>,
                battrs |-> <<>>, bimpl |-> <<>>, sattrs |-> <<>>, fwd |-> <<>>, fwdsaid |-> FALSE, fn |-> fn, all |-> <<>>, serde |-> FALSE]
With(r, it) == [k \in (DOMAIN r) \cup {"it"} |-> IF k = "it" THEN it ELSE r[k]]
NoFns == [k \in Methods \cup {"builder"} |-> <<>>]
Helped == [k \in Kinds |-> IF k \in {"get", "set", "builder"} THEN [NoHelper EXCEPT !.on = "on"] ELSE NoHelper]
Start == [Empty EXCEPT !.s = With([@ EXCEPT !.h = Helped, !.serde = "on"], [NoItems(NoFns) EXCEPT !.fwdsaid = TRUE]),
                       !.fs = << With(NoField, [NoItems(NoFns) EXCEPT !.own = <<"note_a", "note_b">>]), With([NoField EXCEPT !.n = "b"], NoItems(NoFns)) >>]

ShowItems(i, D) ==
    PrintT(ToJson(<<"I", i, Contradictory(D), UnsettledItems(D), HasBuilder(D), IsSync(D), RatherSync(D), <<Needs(D), Perhaps(D)>>,
                    [j \in DOMAIN D.fs |-> Resolved(D, D.fs[j])], Items(D)>>))

ItemsInit ==
    /\ depth = 0
    /\ IF Listed = <<>> THEN id = 0 /\ d = Start
       ELSE \E i \in DOMAIN Listed : id = i /\ d = Listed[i] /\ ShowItems(i, Listed[i])

Tags == {<<"a">>, <<"b">>}
StructLists == {"own", "attrs", "impl", "battrs", "bimpl", "sattrs"}
FieldLists == {"battrs", "all", "sattrs"}
WriteItem ==
    \/ \E l \in StructLists : \E t \in Tags : d.s.it[l] = <<>> /\ d' = [d EXCEPT !.s.it[l] = t]
    \/ \E l \in FieldLists : \E t \in Tags : d.fs[1].it[l] = <<>> /\ d' = [d EXCEPT !.fs[1].it[l] = t, !.fs[1].it.serde = @ \/ l = "sattrs"]
    \/ \E k \in {"get", "set", "builder"} : \E t \in Tags :
          \/ d.s.it.fn[k] = <<>> /\ d' = [d EXCEPT !.s.it.fn[k] = t]
          \/ d.fs[1].it.fn[k] = <<>> /\ d' = [d EXCEPT !.fs[1].it.fn[k] = t]
    \/ d.s.it.fwd = <<>> /\ d' = [d EXCEPT !.s.it.fwd = <<"note_a">>]
    \/ ~d.fs[1].it.fwdsaid /\ \E w \in {<<>>, <<"note_b">>} : d' = [d EXCEPT !.fs[1].it.fwd = w, !.fs[1].it.fwdsaid = TRUE, !.fs[1].it.serde = TRUE]
    \/ \E a \in {"no_new", "dflt"} : \E v \in {"on", "off"} : d.s.it[a] = "-" /\ d' = [d EXCEPT !.s.it[a] = v]
    \/ ~d.fs[1].df /\ d' = [d EXCEPT !.fs[1].df = TRUE]
    \/ d.s.serde = "on" /\ d' = [d EXCEPT !.s.serde = "-"]
    \/ \E k \in {"lazy", "get", "builder"} : \E v \in {"on", "off"} : ~Says(d.fs[1].h[k].on) /\ d' = [d EXCEPT !.fs[1].h[k].on = v]
    \/ \E m \in {"sync", "async"} : ~Says(d.s.mode) /\ d' = [d EXCEPT !.s.mode = m]

ItemsNext == Listed = <<>> /\ depth < MaxDepth /\ WriteItem /\ depth' = depth + 1 /\ UNCHANGED id
ItemsSpec == ItemsInit /\ [][ItemsNext]_vars

-----------------------------------------------------------------------------
NewNeedsDefault == HasNew(d) => HasDefault(d)
\* without any reason there is no Default: the field types need none
NoNeedNoDefault ==
    d.s.it.no_new = "on" /\ d.s.it.dflt # "on" /\ ~RatherSync(d) /\ (\A i \in DOMAIN d.fs : ~d.fs[i].df) => ~HasDefault(d)
\* an attribute is on an item only if it was written for it
FromSomewhere ==
    \A i \in DOMAIN d.fs : \A k \in Methods \cup {"builder"} :
        Range(OnFn(d, d.fs[i], k)) \subseteq Range(d.fs[i].it.fn[k]) \cup Range(d.fs[i].it.all) \cup Range(d.s.it.fn[k])
NothingOnNothing == \A i \in DOMAIN d.fs : \A k \in Methods \cup {"builder"} : ~Exists(d, d.fs[i], k) => OnFn(d, d.fs[i], k) = <<>>
ForwardedIsOwn == \A i \in DOMAIN d.fs : Range(OnShadowField(d, d.fs[i])) \ Range(d.fs[i].it.sattrs) \subseteq Range(d.fs[i].it.own)
\* attributes change nothing else
AttributesAreAttributes ==
    [][ (d'.s.h = d.s.h /\ d'.s.mode = d.s.mode /\ \A i \in DOMAIN d.fs : d'.fs[i].h = d.fs[i].h /\ d'.fs[i].df = d.fs[i].df)
          => \A i \in DOMAIN d.fs : Resolved(d', d'.fs[i]) = Resolved(d, d.fs[i]) ]_vars
\* what is written for a field concerns that field
OtherFieldsKeepTheirs ==
    [][ d'.s = d.s => OnFn(d', d'.fs[2], "get") = OnFn(d, d.fs[2], "get") /\ OnShadowField(d', d'.fs[2]) = OnShadowField(d, d.fs[2])
                      /\ OnBuilderField(d', d'.fs[2]) = OnBuilderField(d, d.fs[2]) ]_vars
=============================================================================
