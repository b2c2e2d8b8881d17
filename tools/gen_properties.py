import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
SP="fieldx/src/sync/fxproxy.rs"; SL="fieldx/src/sync/fxlock.rs"; AP="fieldx/src/async/fxproxy.rs"; AL="fieldx/src/async/fxlock.rs"
CS="fieldx_derive/src/codegen/sync.rs"; CP="fieldx_derive/src/codegen/plain.rs"; CT="fieldx_derive/src/codegen/codegen_trait.rs"; CG="fieldx_derive/src/codegen.rs"; CSE="fieldx_derive/src/codegen/serde.rs"
CF="fieldx_derive/src/ctx/field.rs"; CC="fieldx_derive/src/ctx/codegen.rs"; FI="fieldx_derive/src/fields.rs"; AR="fieldx_derive/src/util/args.rs"
p("C01","Sync lazy field: builder runs once per initialization, for all threads",
 "However many threads access a lazy field of a sync struct at once through any of its accessors, between two consecutive clears (or since construction) its builder method completes successfully at most once and two invocations for the same field never overlap. A builder is only ever invoked while the field holds no value, and every access that overlaps or follows the initialization sees the value that one invocation produced (until somebody sets, mutates or clears it).",
 ["schedules","programs"],"Every interleaving of any number of threads calling getters, readers, mutable getters, setters, clearers, writers, predicates on the same or dependent lazy fields.",
 "The tests run one barrier-released pile of threads per case and see whichever interleaving the OS happens to produce; the window between the emptiness check and taking the exclusive lock is a few instructions.",
 [SP,CS],[("FXProxySync::read_or_init",SP),("accessor/reader generation for lazy fields",CS)])
p("C02","Async lazy field: builder runs once per initialization, for all tasks",
 "However many tasks await a lazy field of an async struct at once through any of its accessors, between two consecutive clears (or since construction) its async builder completes successfully at most once and two invocations for the same field never overlap, although builders may suspend. A builder is only ever polled while the field holds no value, and every access that overlaps or follows the initialization sees the value that invocation produced (until somebody sets, mutates or clears it).",
 ["schedules","programs"],"Every interleaving of any number of tasks, suspension points inside builders and at lock acquisitions included.",
 "The async tests use a handful of spawned tasks on a real runtime; they never control at which await point another task runs.",
 [AP,"fieldx_derive/src/codegen/sync/impl_async.rs"],[("FXProxyAsync::read_or_init",AP),("async lazy wrapper","fieldx_derive/src/codegen/sync/impl_async.rs")])
p("C03","Dropping an async accessor future part-way leaves the field usable",
 "If the future of any async helper (getter, reader, mutable getter, setter, clearer, writer) is dropped at any suspension point, including inside a running lazy builder, the field is left exactly as if that call had never been made: no value is stored or lost and no lock stays held. The next access initializes the field normally by invoking its builder.",
 ["schedules","fault_sequences"],"Every suspension point of every helper call, with any other tasks concurrently using the same field.",
 "No existing test drops a future before completion.",
 [AP,AL],[("FXProxyAsync::read_or_init / write / clear",AP),("generated async helpers",CS)])
p("C04","Lazy fields of sync/async structs are linearizable",
 "Every call on a lazy field of a sync or async struct (get, read, get_mut, set, clear, predicate, writer guard store/clear) takes effect atomically at one moment between its start and its return, in all modes with the same sequential meaning. Setters and clearers return exactly the value they replaced or removed (nothing if there was none), no stored value is lost or seen twice, and the predicate is true exactly when a value is present.",
 ["schedules","histories"],"Every concurrent history of helper calls on one field.",
 "Existing tests call set/clear/predicate only from one thread, or check a final value after a race.",
 [SP,AP,CS],[("clear_with_lock / FXWrLockGuard*::store / is_set",SP),("same for async",AP),("field_setter/field_clearer/field_predicate",CS)])
p("C05","Guards exclude writers, readers share, and helper calls never deadlock",
 "While a guard from a mutable getter or a writer is alive no other call on that field completes or observes an intermediate value (only the predicate of a lazy field, which never waits and tells the presence of the moment, goes on), and while a read guard is alive the value behind it does not change. Read guards of an initialized field coexist: getting or reading it (also cloning or comparing the struct) never waits for another reader's guard (a getter called while the field was uninitialized may), and any call returns once no conflicting guard or call is outstanding, so calls on sync/async fields never deadlock among themselves (with the exception of a thread re-entering a field it is itself initializing or holds a guard of).",
 ["schedules","programs"],"Every interleaving of threads/tasks holding and dropping guards while others call helpers, compare or clone.",
 "Tests never hold a guard in one thread while asserting the progress of another; deadlocks need an exact interleaving with a waiting writer.",
 [SP,SL,AP,AL],[("read/read_mut downgrade and map of guards",SP),("PartialEq/Clone",SL),("async read/read_mut",AP)])
p("C06","A failing lazy builder leaves the field unset and its error intact",
 "When a lazy builder returns an error, the accessor of a fallible field returns that very error, and when a builder panics the panic reaches the caller of the accessor; in both cases the field remains uninitialized and unlocked, with its predicate false. Any later or concurrently waiting access runs the builder afresh and succeeds as soon as the builder does; a failure never affects other fields, in plain, sync and async structs alike.",
 ["fault_sequences","schedules"],"Every sequence of builder outcomes (value, error, panic) over every interleaving of accesses, in every mode.",
 "Tests check one error followed by one retry on one thread, never a panic, never a concurrent waiter.",
 [SP,AP,CP,CS],[("read_or_init error path",SP),("get_or_try_init",CP),("try_read/try_read_mut selection",CS)])
p("C07","Locked and optional fields of sync/async structs are linearizable",
 "Every helper call on a non-lazy lock-protected field (plain lock, reader/writer, or optional) of a sync or async struct takes effect atomically between its start and its return. Setters return exactly the previous value, clearers return and remove the current one, getters return a value that was current at some moment of the call, predicates agree with presence, and changes through a write guard become visible together when it is dropped.",
 ["schedules","histories"],"Every concurrent history of helper calls on one field.",
 "Existing tests use these helpers from a single thread.",
 [SL,AL,CS],[("field_setter/field_clearer/field_predicate for locked fields",CS),("FXRwLockSync",SL)])
p("C08","Clone and equality take consistent snapshots and have no side effects",
 "Cloning a struct copies, for each field, one value (or the absence of one) that the field held at a moment of the call; the clone has an equal predicate state, keeps its lazy builder and afterwards is fully independent of the original. Comparing two structs is true exactly if their fields' states are equal at a moment of the call, and neither cloning nor comparing invokes a builder, changes a field, or blocks for good, whatever other threads do.",
 ["schedules","programs"],"Clone and == on sync fields (also a value with itself, and crosswise) concurrent with every other helper.",
 "Cloning is exercised only through serde on idle objects; equality is not exercised concurrently at all.",
 [SP,SL],[("Clone/PartialEq for FXProxySync",SP),("Clone/PartialEq for FXRwLockSync",SL)])
p("C09","Plain lazy fields: every call history matches the documented protocol",
 "For a lazy field of a plain struct, over any sequence of calls: the first get (or get_mut) with no value present invokes the builder exactly once and stores its result, later ones return it without invoking the builder; a value given by set, by the struct builder or by a default is returned without invoking it. set and clear return the previous value or nothing, clear makes the next get build anew, and the predicate tells whether a value is present at each moment. A set whose conversion (into) panics changes nothing.",
 ["histories","configurations"],"Every sequence of helper calls for every combination of default/builder-given/no initial value, accessor mode, fallible or not.",
 "Tests follow a few fixed scripts for one or two configurations.",
 [CP],[("field_accessor/field_setter/field_clearer/field_predicate",CP)])
p("C10","Optional, inner-mutable and simple fields: every history behaves like a cell",
 "For a non-lazy field, over any sequence of helper calls, a getter returns the value last put there by construction, set, or a mutable getter (or nothing after clear, for an optional one), in the form its accessor mode promises. set returns the replaced value, clear returns the removed value, the predicate is true exactly if a value is present; inner-mutable fields allow all this through a shared reference. A set whose conversion (into) panics changes nothing.",
 ["histories","configurations"],"Every sequence of helper calls for every combination of optional/inner_mut/plain storage, default, accessor mode.",
 "Tests follow a few fixed scripts.",
 [CP,CS],[("field_accessor, field_setter, field_clearer for optional/inner_mut",CP),("unlocked and locked accessors",CS)])
p("C11","Plain, sync and async structs are observationally interchangeable",
 "For the same field declaration and the same sequential history of helper calls, a plain, a sync and an async struct produce the same results: same values, same previous values from setters and clearers, same predicates, same errors, same builder invocations in the same order.",
 ["histories","configurations"],"Every sequential history and every field configuration available in the modes compared.",
 "The per-mode test files check unrelated scenarios; nothing compares modes.",
 [CP,CS,SP,AP],[("two code generators",CP),("two code generators",CS)])
p("C12","build() succeeds exactly if every required field was given",
 "The struct builder's build() returns an error if and only if a required field (non-lazy, non-optional, without a default, or explicitly marked required) was not given a value; the error names the first such field in declaration order and has the configured error type. A build() that failed for a missing value takes nothing away: giving that value and calling build() again succeeds with all values given before.",
 ["programs","configurations"],"Every subset and order of builder setter calls and build() calls, for every mixture of field kinds and required/opt_in/error settings.",
 "Tests check one missing field for a few structs and never retry a failed build.",
 [CG,CT],[("builder_impl / builder checkers",CG),("field_builder_value_required",CT)])
p("C13","The struct builder puts each given value in its field; the rest get defaults",
 "An object made by build() holds in every field the value last given to that field's builder setter (converted with Into where asked), otherwise the field's default, otherwise no value for a lazy (its builder is then used on first access) or optional field; no value is ever put into another field. A post-build method runs exactly once, after all fields are filled and, for reference-counted structs, before wrapping, and what it returns (its error included) is what build() yields.",
 ["programs","configurations"],"Every sequence of builder setter calls for every mixture of field kinds, modes, defaults, into, post_build, opt_in.",
 "Tests cover one order of calls per struct.",
 [CG,CT,CP,CS],[("field_builder_setter",CP),("field_builder_setter",CS),("maybe_ref_counted_create",CT)])
p("C14","new() and Default give exactly the declared initial state",
 "An object created by new() or Default::default() holds in each field its declared default value, and without one no value for lazy and optional fields or the type's own Default for all others; nothing is built at that point. A default on a lazy field counts as its initial value, so its builder is not called until the field is cleared.",
 ["configurations","histories"],"Every field kind, mode and kind of default value, followed by any helper call.",
 "Tests read a few defaults of a few structs.",
 [CT,CG,CP,CS],[("field_default_value/field_default",CT),("field_value_wrap",CS)])
p("C15","Reference-counted structs: self references are right and never leak",
 "For a struct declared reference-counted, new() and build() return the matching pointer type (Rc for plain, Arc for sync), the self-reference method always yields that very object while any strong handle exists, and nothing after the last one is dropped. Lazy builders receive a usable self reference; holding weak self references never keeps the object alive, so it is dropped exactly when the last strong handle goes.",
 ["histories","programs"],"Every history of creating, cloning, dropping handles, up/downgrading, and accessing lazy fields.",
 "Tests check pointer identity once right after construction.",
 [CG,CT],[("myself_methods / prepare_ref_counted",CG),("maybe_ref_counted_self",CT)])
p("C16","Serialization round-trips the observable state",
 "Serializing a struct writes every serde-enabled field exactly once under its serialization name, lazy fields with the value their getter would have returned (built if necessary) and optional fields as the value or null. Deserializing that output gives a struct whose getters return equal values, without invoking lazy builders; serializing leaves the original as it was.",
 ["inputs","histories","configurations"],"Every state reachable by helper calls, every mixture of field kinds, in plain, sync and async structs.",
 "Tests round-trip a few hand-made objects.",
 [CSE,CP,CS],[("serde_struct_into_shadow/from_shadow",CSE),("field_from_shadow/field_from_struct",CP)])
p("C17","Partial input and serde switches act per field as declared",
 "When deserializing, a missing key is accepted exactly for lazy and optional fields and fields with a serde default; it gives the serde default where there is one, otherwise no value (lazy and optional fields without a default), while any other missing key is an error. A field excluded from (de)serialization is neither written nor read (it gets its ordinary default instead), and the renamed form is the only name under which a renamed field is written and read.",
 ["inputs","configurations"],"Every subset of keys present or null, for every mixture of field kinds and serde switches.",
 "Tests feed one or two partial documents to one struct each.",
 [CSE,CP,CS],[("serde_skip_toks/serde_field_attribute",CSE)])
p("C18","Attribute resolution: field level overrides struct level; names follow rules",
 "A helper method (accessor, mutable accessor, setter, reader, writer, clearer, predicate, builder setter) exists for a field exactly if the field's own attribute asks for it, or says nothing and the struct-level attribute (or the documented implication from another argument) does; 'off' at field level always removes it, a skipped field has none, and readers and writers exist only for fields under a lock. Its name is the field-level string verbatim, otherwise struct-level prefix or the default prefix/suffix around the field's name or rename; the same precedence governs lazy, optional, lock, mode, copy/clone, into and required.",
 ["configurations"],"Every combination of {absent, on, off, string} at struct and field level for each argument, in each mode.",
 "The tests compile a few dozen structs out of many thousands of combinations.",
 [CF,FI,AR,CC,"fieldx_aux/src/nesting_attr.rs"],[("needs_*/is_* resolution",CF),("helper_name",CT)])
p("C19","Helper visibility is the most specific declared one",
 "Each generated helper method of the object has the visibility given in its own field-level argument, otherwise the field's own public/private, otherwise the struct-level argument of that helper, otherwise the struct-level public/private, otherwise the visibility of the struct, in plain, sync and async mode alike. (new(), builder() and the methods of the builder are not meant.)",
 ["configurations"],"Every combination of visibility at the four levels, for every helper kind and mode.",
 "One uncompilable test covers one helper at one level.",
 [CF,CP,CS],[("vis_tok",CF),("per-helper generation",CS)])
p("C20","Thread-safety markers hold and contradictory declarations are rejected",
 "A sync or async struct with Send + Sync field types is Send + Sync whatever lazy, optional and lock settings it has (fields that opt out by a mode of their own or lock(off) aside), and so are the futures of its async helpers Send; a plain struct with a lazy or inner-mutable field is never Sync; a getter declared copy is refused for non-Copy types, and only where there is such a getter. Contradictory arguments on the same attribute (such as lazy with optional, public with private, copy with clone, sync with async on a field) are always a compile-time error, and non-contradictory ones always compile.",
 ["configurations"],"Every pair of mutually exclusive arguments at each level and every valid combination.",
 "The trybuild tests sample a handful of conflicts.",
 [FI,AR,SP,AP],[("validate_exclusives",FI),("validate_exclusives",AR)])
p("C21","Custom attributes end up on the items they are written for, and on no others",
 "Attributes given with attributes_fn are on the method of that helper: the list of the field's helper argument if there is one, otherwise the field's own attributes_fn, otherwise the list of the struct-level argument of that kind of helper; attributes_impl is on the implementation of the struct, builder(attributes_impl) on that of the builder. builder(attributes) and serde(attributes) are on the builder and the shadow struct, for which the struct-level attributes are the fallback; builder(attributes) and serde(attributes) of a field are on that field of the builder and of the shadow. The struct and its fields keep the attributes of their own, and a field of the shadow gets those of them which forward_attrs lists, at field level or else at struct level. Any form of attribute may be written, and all of a list are applied.",
 ["configurations"],"Every combination of attribute lists at the two levels, for every kind of helper and generated item, in plain, sync and async structs.",
 "One test puts one attribute on one shadow struct and one field of it.",
 [CT,CSE,CF,"fieldx_aux/src/attributes.rs","fieldx_aux/src/builder_helper.rs","fieldx_aux/src/serde_helper.rs"],[("attributes_fn",CT),("filter_shadow_attributes",CSE),("FXAttributes",  "fieldx_aux/src/attributes.rs")])
p("C22","new(), Default, builder, shadow and self references exist as declared",
 "The struct has new() unless no_new or default(off) is given, returning the object or, for rc, Rc or Arc of it according to its concurrency mode. Default is implemented exactly if default asks for it or, when default says nothing, new() is generated, a field has a default, or the struct is sync and one of its fields is declared lazy; a struct without Default and serde doesn't need it of the types of its fields (except of those for which build() has to make a value up). builder() and a builder type exist exactly if the struct, or else one of the fields, asks for it, with the visibility given to builder or else that of the struct. The shadow struct exists exactly with serde, under the name and visibility given. rc objects have the two methods for references to themselves under the given or default name, private unless said otherwise; others don't. Arguments of a skipped field don't count.",
 ["configurations"],"Every combination of these arguments with the others, in plain, sync and async structs.",
 "The tests have a handful of structs with one of these arguments each.",
 [CG,CC,AR],[("needs_new/needs_default",AR),("struct_extras/default_impl",CG),("needs_builder_struct",CC)])
LB="fieldx/src/lib.rs"
p("C23","Crate features: a declaration works with what it needs, and is refused without",
 "With any set of the crate features (sync, async, serde, send_guard; none of them too) enabled, a declaration that asks only for what these provide compiles, has exactly the helper methods it has with all features, and these behave the same: plain structs (rc, builder, lazy, optional, inner_mut included) need no feature, sync ones only sync, async ones only async, serde only serde; turning a mode or serde off needs nothing. A declaration with the keyword sync, async or serde, at struct or field level, or whose fields would be under such a lock, is refused where the feature is missing, naming that feature if by keyword.",
 ["configurations","programs"],"Every declaration under every set of features, and every history of calls on it.",
 "The tests run with a few sets of features, in each of which everything they use is enabled.",
 [LB,AR,CG],[("feature_required checks","fieldx_derive/src/util.rs"),("FXSArgs::validate",AR),("modules by feature",LB)])
p("C24","Argument grammar: documented forms are accepted, anything else is an error",
 "Whatever is written in fxstruct() or fieldx() either takes effect or is a compile-time error; nothing is silently ignored. Keywords take nothing but off, flags take nothing; helpers take off, one string literal, attributes_fn, public in all its forms and private, and the sub-arguments documented for them only (get: clone, copy, as_ref; set: into; builder: into, required, attributes, attributes_impl and at struct level opt_in, post_build, error; fallible: off, error; mode: one of sync, async, plain; serde: its own). off may stand together with the others. Unknown arguments and sub-arguments, arguments of the other level, literals where none are taken, second or non-string literals, missing values, and items other than structs with named fields are refused.",
 ["configurations","programs"],"Every argument at either level, in every form.",
 "The tests have a dozen declarations that must not compile.",
 [LB,AR,"fieldx_aux/src/lib.rs"],[("FXNestingAttr::extract_literals","fieldx_aux/src/nesting_attr.rs"),("FXSArgs",AR),("Attribute Arguments (documentation)","fieldx_derive/src/lib.rs")])
open(__import__("os").environ.get("VERIF_DIR","/verif")+"/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
