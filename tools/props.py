import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(zip(("name","meaning","where"),s)) for s in state],
        mechanism=[dict(zip(("name","where"),m)) for m in mech],observe_at=list(observe),hook_needed=None)))
M="crates/mirror-mirror/src/"
D="crates/mirror-mirror-macros/src/derive_reflect/"
p("C01","Concurrent requests for a type's description all get the one shared description",
"However many threads ask for type descriptions, of whatever types and in whatever interleaving, every request for the same type returns the very same shared description, and it equals the one a lone request in a fresh process returns. Requests for different types never get mixed up. Once a request for a type has returned, no request started later runs the code that describes that type again.",
["schedules","histories"],"every interleaving of every set of concurrent and later requests, from any number of threads, for any mix of types",
"the tests call type_descriptor from one thread at a time; no test races two first requests or checks identity of what they return",
[M+"type_info/mod.rs",M+"lib.rs"],
[("process-wide cache: OnceBox<RwLock<HashMap<TypeId, &'static TypeDescriptor>>>",M+"type_info/mod.rs DescribeType::type_descriptor"),("fixed hash keys",M+"lib.rs STATIC_RANDOM_STATE")],
[("INFO","descriptor cache shared by all threads",M+"type_info/mod.rs")],["Reflect::type_descriptor","DescribeType::type_descriptor"])
p("C02","A request for a type's description always completes",
"Every request for the description of a type returns: also when the type contains itself, directly or through any chain of other types and containers, when several threads ask for types that refer to each other, and when describing a type (for example a metadata expression) itself asks for the descriptions of other types. It never deadlocks, never recurses without end and never fails.",
["schedules","programs"],"every type that derives Reflect, recursive or not; every interleaving of requests; every acyclic pattern of requests made while describing a type",
"the tests cover two recursive shapes on one thread; nothing in them requests a description while another is being built",
[M+"type_info/mod.rs",M+"type_info/graph.rs",D+"enum_.rs",D+"struct_named.rs",D+"tuple_struct.rs"],
[("placeholder node inserted before the children of a type are visited",M+"type_info/graph.rs TypeGraph::get_or_build_node_with"),("user code runs without the cache lock held",M+"type_info/mod.rs DescribeType::type_descriptor")],
[("TypeGraph.map","nodes built so far, None while under construction",M+"type_info/graph.rs")],["DescribeType::type_descriptor","Reflect::type_descriptor"])
p("C03","A panic while describing one type does not harm other requests",
"If user code that runs while a type is being described panics, only the request that ran it panics. Every other request, concurrent or later, for the same or any other type, completes with the right description, and the type whose description failed can be described as soon as its code no longer panics; nothing half-built is ever returned.",
["schedules","fault_sequences"],"every placement of panics in metadata expressions or hand-written describing code, in every interleaving with other requests",
"no test panics inside a description, and none looks at the cache afterwards",
[M+"type_info/mod.rs",M+"type_info/graph.rs"],
[("description built in a private graph and published only when complete; lock not held while user code runs",M+"type_info/mod.rs DescribeType::type_descriptor")],
[("INFO","descriptor cache shared by all threads",M+"type_info/mod.rs")],["DescribeType::type_descriptor"])
p("C04","A type's description is the same in every run of the same program",
"The description of a type, including its node ids, the order of fields and variants, its serialized bytes and its hash, depends only on the type: it is the same in every process started from the same binary, whatever the address-space layout, kernel randomness and clock of that process, whatever was described before it and on whatever threads. A description stored by one process equals the one another process computes.",
["schedules","histories","configurations"],"every pair of processes of the same program, with any layouts, entropy, clocks, request histories and thread schedules",
"tests run in one process; a description that depended on a per-process random seed or on request order would be consistent inside it",
[M+"type_info/graph.rs",M+"lib.rs",M+"type_info/mod.rs"],
[("node ids hashed from the TypeId with fixed keys",M+"type_info/graph.rs NodeId::new"),("ordered maps in the graph",M+"type_info/graph.rs TypeGraph")],
[("NodeId","identity of a type within descriptors",M+"type_info/graph.rs")],["TypeDescriptor serialization, Eq and Hash"])
p("C05","Values and key paths survive any stream that delivers their bytes",
"A dynamic value, key path, key or scalar written to a stream with any supported serialization and read back is equal to what was written, down to the bits of floats and the order of fields, however the stream splits, delays or interrupts the transfer, and a sequence of them on one stream is read back one by one. If the stream fails or ends early, the writer or reader gets an error: a truncated encoding never reads as a value and a failed write is never reported as success.",
["inputs","fault_sequences"],"every value, key path and scalar; every fragmentation, interruption, error position and truncation of the stream; speedy (streams and buffers) and serde (binary and self-describing formats)",
"no test serializes anything: the derives are compiled but never run, let alone over a stream that fragments or fails",
[M+"value.rs",M+"key_path.rs",M+"struct_.rs",M+"tuple.rs",M+"tuple_struct.rs",M+"enum_.rs",M+"lib.rs"],
[("derived speedy and serde implementations",M+"value.rs Value, "+M+"key_path.rs KeyPath, Key, NamedOrNumbered, "+M+"lib.rs ScalarOwned")],
[],["speedy::Readable/Writable and serde::Serialize/Deserialize of Value, KeyPath, Key, ScalarOwned"])
p("C06","A type description sent over the wire answers every question the same",
"A type description that was serialized, sent over a stream that may fragment, interrupt, fail and be retried, and deserialized is equal to the original and answers every query identically: kinds, names, fields and variants and their order, element, key and value types, array lengths, lookups by key path, default values, metadata, documentation and pretty printing, for the whole graph of types it refers to. The received description also matches the declaration of the type.",
["inputs","fault_sequences","programs"],"every described type, every query and key path on it, every stream behaviour",
"no test serializes a descriptor; the queries are only tried on freshly built ones and for a handful of types",
[M+"type_info/mod.rs",M+"type_info/graph.rs",M+"type_info/pretty_print.rs"],
[("the graph is stored by value and addressed by node id",M+"type_info/graph.rs TypeGraph"),("derived speedy and serde implementations",M+"type_info/mod.rs TypeDescriptor")],
[("TypeDescriptor","root and graph",M+"type_info/mod.rs")],["TypeDescriptor::get_type and everything reachable from it"])
p("C07","Damaged bytes give an error or a well-behaved value, never a crash",
"Decoding a stored or received value, key path, scalar or type description whose bytes were damaged (flipped, lost, duplicated, truncated, spliced) either fails with an error or yields a value; it never panics, never runs without end and never uses memory out of proportion to the input. A value or key path obtained this way can be inspected, compared, printed, visited by path, used to patch a document and re-encoded without panicking, and re-decodes to an equal value.",
["inputs","fault_sequences"],"every damage to every encoding, in every supported format",
"no test decodes anything, valid or damaged",
[M+"value.rs",M+"key_path.rs",M+"struct_.rs",M+"enum_.rs",M+"type_info/graph.rs"],
[("decoding through derived, bounds-checked implementations",M+"value.rs Value"),("operations that return None instead of indexing",M+"struct_.rs StructValue, "+M+"enum_.rs EnumValue")],
[],["speedy and serde decoding; Reflect, Eq, Ord, Hash and Debug of the decoded value"])
p("C08","Printing to a failing sink stops, reports the failure and changes nothing",
"Printing a value, key path, key, type name or type description to a text sink that fails or panics at any point stops there: the error is reported to the caller exactly when the sink reported one, what the sink accepted is a prefix of the full text, and nothing is written after the failure. The printed thing is unaffected and prints its full text, the same as ever, on the next healthy sink.",
["inputs","fault_sequences"],"every printable thing, plain and pretty format, every point of failure",
"tests print to strings, which cannot fail",
[M+"type_info/pretty_print.rs",M+"type_info/simple_type_name.rs",M+"key_path.rs",M+"lib.rs"],
[("every fmt::Result is propagated",M+"type_info/pretty_print.rs, "+M+"key_path.rs, "+M+"lib.rs reflect_debug")],
[],["fmt::Display and fmt::Debug implementations"])
p("C09","A visit stops at the first error and has seen exactly what came before",
"Visiting a value calls the visitor once for every leaf of the value, with that leaf's value and the callback of its type, in the order of the type's fields, of the elements and of the map entries, and returns success if no callback failed. If a callback fails or panics, no further callback is made and the visit ends with that very error or panic; the value is untouched.",
["inputs","fault_sequences"],"every value of every described type, every callback position at which the visitor fails",
"two tests count callbacks of visitors that cannot fail",
[M+"try_visit.rs"],
[("`?` on every callback and recursion",M+"try_visit.rs try_visit")],[],["try_visit"])
p("C10","User code that fails in the middle of an edit leaves no torn state",
"When user code that an edit calls (a custom conversion, clone or default of a field type) fails or panics, adding an element to a list or inserting into a map either takes full effect or none at all, a rejected conversion creates nothing, and a merge leaves every leaf either as it was or fully updated. The panic reaches the caller, nothing is leaked or dropped twice, and the document and all its parts remain readable and editable with the usual results.",
["fault_sequences","histories"],"every edit, every call of user code in it as the point of failure, every history of edits around it",
"no test has user code that fails or panics during an edit",
[M+"foreign_impls/vec.rs",M+"foreign_impls/btree_map.rs",M+"foreign_impls/array.rs",D+"enum_.rs",D+"struct_named.rs",D+"tuple_struct.rs"],
[("conversion completes before the container is changed",M+"foreign_impls/vec.rs List::push, "+M+"foreign_impls/btree_map.rs Map::insert"),("variant replaced only by a complete new value",D+"enum_.rs fn_patch")],
[],["List::push, Map::insert, Reflect::patch, FromReflect::from_reflect"])
p("C11","Typed and dynamic replicas follow the same reference semantics",
"Replicas of a document that receive the same edits in the same order (merge a value at a key path, push, pop, remove, insert), each at its own pace, hold after every edit exactly the state a simple reference model computes, whether the replica is the concrete type or its dynamic value form, however the addressed part is reached (key path, field by name or index, iteration), and whatever an edit returns is what the model returns. A replica created from another's dynamic value form continues identically.",
["histories","inputs","schedules"],"every sequence of edits on every document type, every delivery schedule, every point at which a replica is cloned or resynchronised from another",
"tests apply one or two edits to a handful of types; no test compares the typed and dynamic forms over a history",
[M+"key_path.rs",M+"value.rs",M+"struct_.rs",M+"tuple.rs",M+"tuple_struct.rs",M+"enum_.rs",M+"foreign_impls/vec.rs",M+"foreign_impls/btree_map.rs",M+"foreign_impls/array.rs",M+"foreign_impls/boxed.rs",M+"foreign_impls/via_scalar.rs",D+"enum_.rs",D+"struct_named.rs",D+"tuple_struct.rs"],
[("patch, to_value and from_reflect implementations",M+"foreign_impls, "+D),("path navigation",M+"key_path.rs GetPath")],[],["Reflect, GetPath, List, Map, Struct, TupleStruct, Tuple, Enum, FromReflect"])
p("C12","A crashed replica recovers exactly the acknowledged edits from its disk",
"A replica that stores snapshots of its document and a log of serialized edits, and is killed at any point, with unsynced data lost or torn, restarts from what is on disk to a state that contains every edit it had acknowledged and at most the one in flight, in order and with nothing else changed. This holds for a replica of the concrete type and for one of the dynamic form, and the recovered replica goes on as if the crash had not happened.",
["crash_points","fault_sequences","histories"],"every crash point, every loss or tearing of unsynced writes, disk errors and full disks, every history of edits and snapshots, repeated crashes",
"no test stores or restores anything",
[M+"value.rs",M+"key_path.rs",M+"enum_.rs",M+"struct_.rs",D+"struct_named.rs",D+"enum_.rs"],
[("to_value and from_reflect are inverse",D+"*.rs, "+M+"foreign_impls"),("serialization of values and key paths is exact",M+"value.rs, "+M+"key_path.rs")],[],["Reflect::to_value, FromReflect::from_reflect, Reflect::patch, serialization"])
p("C13","Delivering an edit twice is the same as delivering it once",
"Merging a value at a key path, inserting a map entry or removing a map entry is idempotent: if the message carrying the edit is delivered again before any other edit, the second delivery changes nothing, for the concrete type and the dynamic form. Merging a document's own current value into it, or into a copy of it, also changes nothing in the parts that are reflected.",
["fault_sequences","histories","inputs"],"every edit and duplicate delivery at every point of every history",
"no test applies the same patch twice",
[M+"enum_.rs",M+"struct_.rs",M+"foreign_impls/vec.rs",M+"foreign_impls/btree_map.rs",D+"enum_.rs",D+"struct_named.rs",D+"tuple_struct.rs"],
[("patch overwrites, never accumulates",D+"*.rs, "+M+"value.rs")],[],["Reflect::patch, Map::insert, Map::remove"])
p("C14","Edits to different parts of a document do not interfere",
"An edit to the part of a document at one key path leaves every part outside it unchanged, and edits to parts that do not contain each other give the same document in whatever order they arrive. After a complete value of the part's type has been merged at a key path, reading that path returns that value, up to the length of lists and the keys of maps, which a merge never changes outside an enum.",
["schedules","histories","fault_sequences"],"every pair and sequence of edits at disjoint paths, every reordering by the network",
"tests check the edited field, seldom the rest, and never two orders",
[M+"key_path.rs",M+"struct_.rs",M+"enum_.rs",D+"struct_named.rs",D+"tuple_struct.rs",D+"enum_.rs"],
[("mutable access by path reaches one part only",M+"key_path.rs GetPath::at_mut, "+D+" field_mut, field_at_mut, fields_mut")],[],["GetPath::at, GetPath::at_mut, Reflect::patch"])
p("C15","Stale, misaddressed or mismatched edits have no effect and do no harm",
"An edit whose key path no longer exists or never did (an element that was removed, an index or key out of range or of another type, a field or variant the value does not have) is reported as not found and changes nothing. Values of the wrong type are not merged, pushed, inserted or converted, parts of a value that do not fit are ignored while the others are merged, and reading or writing never panics.",
["histories","fault_sequences","inputs"],"every document state, every key path and value, in particular those that were valid in an earlier or a different state of the document",
"tests try a few wrong paths on fresh values",
[M+"key_path.rs",M+"foreign_impls/vec.rs",M+"foreign_impls/array.rs",M+"foreign_impls/via_scalar.rs",M+"enum_.rs",D+"enum_.rs"],
[("path navigation returns None",M+"key_path.rs GetPath, value_to_usize"),("exact type match of scalars and fallible conversions",M+"lib.rs impl_for_core_types, FromReflect")],[],["GetPath, List, Map, Reflect::patch, FromReflect"])
p("C16","Comparing replicas tells exactly whether they have diverged",
"Comparing two replicas of the same form, concrete or dynamic, reports equality exactly when their documents have the same contents (floats compare as numbers), and so does comparing their dynamic value forms. Equality, ordering and hashing of dynamic values agree with each other and with the contents: equality is an equivalence, ordering is total and consistent with it, and equal values hash equally, so that replicas can be compared by digest.",
["histories","inputs","fault_sequences"],"every pair of documents, in particular those that differ in one leaf, one element, one variant or one entry after lost, duplicated or reordered edits",
"tests compare a few hand-written pairs",
[M+"reflect_eq.rs",M+"value.rs",M+"enum_.rs",M+"struct_.rs",M+"tuple.rs"],
[("structural comparison",M+"reflect_eq.rs reflect_eq"),("one ordered view for Eq, Ord and Hash",M+"value.rs OrdEqHashValue")],[],["reflect_eq, PartialEq/Ord/Hash of Value, PartialEq of dyn Reflect"])
p("C17","An editor that knows only the type description can edit any document",
"A remote editor that received a document's type description can address everything in it: every key path (with variants named) that finds a value in a document leads to a type in the description, the value has the kind and type name that the description gives, and its fields, variants and array lengths are the described ones, while a path through fields or variants that the type lacks leads to nothing in either. Wherever the description offers a default value, the document accepts it: it converts to the described type, and merging or inserting it has the usual effect.",
["inputs","histories","programs"],"every described type, every document, every key path built from the description, every state the document reaches by such edits, over a network that delays and reorders",
"tests compare type information and values for a few paths; none drives edits from a description",
[M+"type_info/mod.rs",M+"key_path.rs",D+"struct_named.rs",D+"tuple_struct.rs",D+"enum_.rs",M+"foreign_impls/mod.rs"],
[("type-level path navigation",M+"type_info/mod.rs GetTypePath"),("default values built from the description",M+"type_info/mod.rs default_value"),("one expansion of the derive for both values and descriptions",D+"*.rs")],[],["GetTypePath::type_at, Type::default_value, GetPath::at, FromReflect"])
p("C18","Threads that work on their own values do not affect one another",
"Threads that edit, convert, compare, print, visit, serialize and describe their own values at the same time, and read shared ones, each get exactly the results they would get alone, in every interleaving, and all of them finish.",
["schedules","histories"],"every interleaving of every set of per-thread sequences of operations on values not shared for writing",
"tests run operations one after the other on one thread",
[M+"lib.rs",M+"key_path.rs",M+"type_info/mod.rs",M+"value.rs"],
[("no shared mutable state besides the descriptor cache",M+"type_info/mod.rs DescribeType::type_descriptor")],[],["the whole public API"])
p("C19","Simplified type names drop module paths and nothing else",
"The simplified form of a type name is the type name with the module paths removed, at every nesting level of generics, tuples, arrays and references.",
["inputs"],"every type name of a supported type",
"tests list a few names",
[M+"type_info/simple_type_name.rs"],[("syntax tree printer",M+"type_info/simple_type_name.rs TypeWriter")],[],["SimpleTypeName"])
p("C20","Typed field access returns the field only at its exact type",
"Typed access to a field, element or map entry returns a reference exactly when it exists and its value has the requested type, for every container kind and key kind.",
["inputs"],"every container, key and requested type",
"tests try a few types",
[M+"get_field.rs"],[("downcast of the found value",M+"get_field.rs GetField, GetFieldMut")],[],["GetField::get_field, GetFieldMut::get_field_mut"])
p("C21","Deriving rejects unsupported declarations at compile time",
"Every declaration that the derive macro accepts compiles to working code, and unsupported declarations and attribute combinations are rejected with a compile error that names the offending item.",
["programs"],"every type declaration and attribute combination",
"the compile-fail tests list a few declarations",
["crates/mirror-mirror-macros/src/lib.rs",D+"attrs.rs",D+"mod.rs"],[("attribute parsing",D+"attrs.rs")],[],["#[derive(Reflect)]"])
p("C22","The library behaves the same without the standard library",
"Built without the standard library, everything that is still available behaves as it does with it; only the caching of descriptions and simplified type names are absent.",
["configurations"],"every feature combination and every operation",
"tests run with the standard library only",
[M+"lib.rs",M+"type_info/mod.rs",M+"type_info/pretty_print.rs"],[("cfg(feature = \"std\") blocks",M+"type_info/mod.rs")],[],["the public API under --no-default-features"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
