------------------------------- MODULE FxSerde -------------------------------
(***************************************************************************)
(* Serialization: what a document made from an object holds, and what object   *)
(* a document gives.                                                        *)
(*                                                                         *)
(* A template (an element of Tpl, read from $TEMPLATES) is a declaration:     *)
(*   ser, de   struct level serialize / deserialize: TRUE or FALSE             *)
(*   sdef      struct level serde default: "none", "bare" (the default of the  *)
(*             declaration), "fn" (a function giving the values in sval)       *)
(*   fields: k "lazy", "opt" or "cell"; def, tdef as in FxSeq;                 *)
(*     ser, de field level serialize / deserialize                            *)
(*     fd  field level serde default: None (not given), TypeDefault (bare),   *)
(*         or a value                                                        *)
(*     ren TRUE if the serialization name is not the field's own              *)
(*     nulldef: TRUE if this is the form of finding F8 (see known_findings):    *)
(*         no value in the document gives the field its declared default       *)
(*                                                                         *)
(* val[f]  what the field holds, None if nothing                             *)
(* nb[f]   builder invocations so far, modulo 2                              *)
(*                                                                         *)
(* A document is a function from fields to Absent, Null, Bad (of the wrong      *)
(* type) or a value, and decoy: a renamed field whose own name is there as     *)
(* well (0: none; Unknown: a key nobody knows).                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

None == -1
TypeDefault == -2
Absent == -3
Null == -4
Bad == -5
Unknown == -1
Tpl == JsonDeserialize(IOEnv.TEMPLATES)

VARIABLES tpl, val, nb
vars == <<tpl, val, nb>>

T == Tpl[tpl]
F == T.fields
Fields == DOMAIN F

Writes(f) == T.ser /\ F[f].ser
Reads(f) == T.de /\ F[f].de
Optional(f) == F[f].k \in {"lazy", "opt"}
Initial(f) ==
    IF F[f].def # None THEN F[f].def
    ELSE IF Optional(f) THEN None ELSE F[f].tdef
Built(f, n) == 10 * f + n

-----------------------------------------------------------------------------
(* Writing *)
\* the value a lazy field is written with: the one it has, or a new one
OutValue(f) == IF val[f] # None THEN val[f] ELSE IF F[f].k = "lazy" THEN Built(f, nb[f]) ELSE Null
Doc == [f \in Fields |-> IF Writes(f) THEN OutValue(f) ELSE Absent]
BuiltBy == {f \in Fields : Writes(f) /\ F[f].k = "lazy" /\ val[f] = None}

(* Reading *)
\* the value for a key that is not there: that of the field's serde default, or the container's
FieldDefault(f) ==
    CASE F[f].fd = TypeDefault -> IF Optional(f) THEN None ELSE F[f].tdef
      [] F[f].fd # None -> F[f].fd
      [] T.sdef = "bare" -> Initial(f)
      [] T.sdef = "fn" -> T.sval[f]
      [] OTHER -> None
HasDefault(f) == F[f].fd # None \/ T.sdef # "none"

\* what the container leaves in a field after reading the document
Refused(d) ==
    \E f \in Fields : Reads(f) /\ \/ d[f] = Bad
                                  \/ d[f] = Null /\ ~Optional(f)
                                  \/ d[f] = Absent /\ ~Optional(f) /\ ~HasDefault(f)
Shadow(f, d) ==
    IF d[f] = Absent THEN (IF HasDefault(f) THEN FieldDefault(f) ELSE None)
    ELSE IF d[f] = Null THEN None
    ELSE d[f]
Read(f, d) ==
    IF ~Reads(f) THEN Initial(f)
    ELSE IF Shadow(f, d) = None /\ F[f].nulldef THEN Initial(f)
    ELSE Shadow(f, d)
\* Where a lazy or optional field with a default that is not for serde gets no value from the document, nothing is
\* promised, unless it is an optional one that was written as having none.
Promised(d) ==
    \A f \in Fields : ~(/\ Reads(f) /\ Optional(f) /\ F[f].def # None /\ ~F[f].nulldef
                        /\ Shadow(f, d) = None
                        /\ (F[f].k = "lazy" \/ d[f] = Absent))

\* Documents with every combination of keys there and not there
Docs == {d \in [Fields -> {Absent, 2, Null, Bad}] : Cardinality({f \in Fields : d[f] \in {Bad, Null}}) <= 1}
Decoys == {0, Unknown} \cup {f \in Fields : F[f].ren}

-----------------------------------------------------------------------------
Init ==
    /\ tpl \in DOMAIN Tpl
    /\ val = [f \in Fields |-> Initial(f)]
    /\ nb = [f \in Fields |-> 0]
    /\ PrintT(ToJson(<<"I", tpl, val>>))
    /\ \A d \in Docs : \A y \in Decoys : T.de /\ Promised(d) =>
            PrintT(ToJson(<<"D", tpl, d, y, IF Refused(d) THEN "err" ELSE "ok", [f \in Fields |-> Read(f, d)]>>))

\* <<"T", template, val, nb, operation, field, document, result, val', nb', built fields, value>>
Log(o, f, d, r, b, v) ==
    PrintT(ToJson(<<"T", tpl, val, nb, o, f, d, r, val', nb', [x \in Fields |-> x \in b], v>>))
Bump(b) == [f \in Fields |-> IF f \in b THEN (nb[f] + 1) % 2 ELSE nb[f]]

Put(f) ==
    /\ val' = [val EXCEPT ![f] = 1]
    /\ UNCHANGED <<tpl, nb>>
    /\ Log("set", f, <<>>, "u", {}, 0)

Take(f) ==
    /\ Optional(f)
    /\ val' = [val EXCEPT ![f] = None]
    /\ UNCHANGED <<tpl, nb>>
    /\ Log("clr", f, <<>>, "u", {}, 0)

Get(f) ==
    LET b == IF F[f].k = "lazy" /\ val[f] = None THEN {f} ELSE {} IN
    /\ val' = IF b = {} THEN val ELSE [val EXCEPT ![f] = Built(f, nb[f])]
    /\ nb' = Bump(b)
    /\ UNCHANGED tpl
    /\ Log("get", f, <<>>, "v", b, val'[f])

\* The builders for what is not there yet run on behalf of the document: the object stays as it was.
WriteOut ==
    /\ T.ser
    /\ nb' = Bump(BuiltBy)
    /\ UNCHANGED <<tpl, val>>
    /\ Log("ser", 0, Doc, "doc", BuiltBy, 0)

\* (the results are those of the lines "D"; what was there before does not matter, nor does the decoy)
ReadIn(d, y) ==
    /\ T.de
    /\ Promised(d)
    /\ ~Refused(d)
    /\ val' = [f \in Fields |-> Read(f, d)]
    /\ UNCHANGED <<tpl, nb>>

\* the object is replaced by what its document gives
RoundTrip ==
    /\ T.ser /\ T.de
    /\ ~Refused(Doc) /\ Promised(Doc)
    /\ nb' = Bump(BuiltBy)
    /\ val' = [f \in Fields |-> Read(f, Doc)]
    /\ UNCHANGED tpl
    /\ Log("rt", 0, Doc, "ok", BuiltBy, 0)

Next ==
    \/ \E f \in Fields : Put(f) \/ Take(f) \/ Get(f)
    \/ WriteOut
    \/ \E d \in Docs : \E y \in Decoys : ReadIn(d, y)
    \/ RoundTrip

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK ==
    /\ \A f \in Fields : val[f] >= None /\ nb[f] \in {0, 1}
\* a cell always holds something
CellHeld == \A f \in Fields : ~Optional(f) => val[f] # None
\* What a round trip gives: the value a getter of the original would have returned, for all fields both written and read
GetterOf(f) == IF F[f].k = "lazy" /\ val[f] = None THEN Built(f, nb[f]) ELSE val[f]
RoundTripFaithful ==
    \A f \in Fields : Writes(f) /\ Reads(f) /\ ~F[f].nulldef => Read(f, Doc) = GetterOf(f)
\* ... after which no builder is needed for them
NothingLeftToBuild ==
    \A f \in Fields : Writes(f) /\ Reads(f) /\ F[f].k = "lazy" => Read(f, Doc) # None
\* the document is accepted by the declaration that made it, when it writes all that it reads
OwnDocumentAccepted ==
    (\A f \in Fields : Reads(f) => Writes(f)) => ~Refused(Doc)
\* fields that are not read get the declared initial value
NotReadIsInitial == \A d \in Docs : \A f \in Fields : ~Reads(f) => Read(f, d) = Initial(f)
\* a key that is not there is only ever held against a cell without a default
RefusedOnlyForCells ==
    \A d \in Docs : (\A f \in Fields : d[f] \in {Absent, 2}) /\ Refused(d) =>
        \E f \in Fields : d[f] = Absent /\ F[f].k = "cell" /\ Reads(f) /\ ~HasDefault(f)
=============================================================================
