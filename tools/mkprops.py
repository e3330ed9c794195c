#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the source of truth for its text)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

CODECS=["proto/normal_codec.go","proto/required_codec.go","proto/option_codec.go","proto/slice.go","proto/map.go","proto/walker.go","proto/struct.go"]

p("C01","Size equals the number of bytes Marshal emits, at every nesting level",
 "For every message value, Size returns exactly len of what Marshal returns. Every length prefix written inside the output (strings, bytes, nested messages, map entries) equals the number of bytes that follow it for that element.",
 ["inputs","programs"],"every supported message type and every value of it, including nil/empty/absent fields, any element count and any value magnitude",
 "the tests compare Size and Marshal on a dozen fixed values; a disagreement needs one particular field kind, tag length or value magnitude",
 ["proto/size.go","proto/encode.go"]+CODECS,
 [("varint size formula","proto/size.go sizeOfVarint, sizeOfVarlen"),("paired size/encode functions","proto/normal_codec.go, proto/required_codec.go, proto/option_codec.go"),("loops over fields, elements and entries","proto/struct.go, proto/slice.go, proto/map.go")],
 obs=["proto.Size","proto.Marshal"])

p("C02","Varints are minimal and exact in both directions; over-long ones are rejected",
 "Every unsigned 64-bit value is written as the shortest base-128 little-endian group sequence and its computed size is that length. Reading returns exactly the value the groups denote and the number of bytes they occupy, and a sequence denoting more than 64 bits or ending without a terminator is an error. Zigzag maps each signed value to 2v or -2v-1 and back.",
 ["inputs"],"all 2^64 values and all byte sequences of any length",
 "unit tests sample some values per length; boundaries (2^7k, 2^63, tenth byte) and over-long forms are a handful of cases out of 2^64",
 ["proto/encode.go","proto/decode.go","proto/size.go"],
 [("varint writer","proto/encode.go appendVarint"),("varint reader","proto/decode.go decodeVarint"),("varint size","proto/size.go sizeOfVarint"),("zigzag","proto/encode.go encodeZigZag64, proto/decode.go decodeZigZag64")])

p("C03","Each scalar is written in the wire format its schema type prescribes",
 "For every scalar field that is present, Marshal writes the field's key (number and wire type) followed by the encoding of its declared schema type: varint (negative 32-bit values sign-extended to ten bytes), zigzag varint, 4- or 8-byte little-endian, or length-prefixed bytes. This holds alike for plain, optional, pointer, repeated, map-key and map-value positions.",
 ["inputs","programs"],"all values of all scalar types in all positions, all field numbers 1..2^29-1",
 "tests encode a few values per type and mostly small field numbers; kind x position x value magnitude x tag length is not covered",
 CODECS+["proto/encode.go"],
 [("scalar codecs","proto/normal_codec.go, proto/required_codec.go, proto/option_codec.go"),("codec choice","proto/walker.go"),("little-endian writers","proto/encode.go")],obs=["proto.Marshal"])

p("C04","Absent fields emit nothing and present fields always emit, with no other effect",
 "A plain scalar is emitted unless it is the zero of its type (negative zero and NaN are not zero); an Option is emitted exactly when set, a pointer or bytes field exactly when non-nil, even if the value inside is zero or empty. Repeated elements and map keys and values are always emitted, whatever their value, and a nil or empty repeated or map field emits nothing.",
 ["inputs","programs"],"all values of all field types, in particular the zero, empty, nil and negative-zero corners of every position",
 "zero-valued corners of every kind in every position are hundreds of combinations; the tests hit a few",
 CODECS,[("zero tests","proto/normal_codec.go"),("presence tests","proto/option_codec.go, proto/walker.go pointer codecs"),("always-emit codecs","proto/required_codec.go")],obs=["proto.Marshal"])

p("C05","Decoding a field restores exactly the value its record denotes",
 "Unmarshal sets a field to exactly the value its wire record denotes in the declared schema type: any non-zero varint is true, 32-bit types keep the low 32 bits, zigzag and fixed values are inverted exactly, strings and bytes have the payload's content, and presence is recorded (an Option becomes set, a pointer or bytes field non-nil) even for zero or empty payloads. The record is consumed exactly, so the next record is read from the byte after it.",
 ["inputs","programs"],"all well-formed records of all scalar types in all positions, with any varint padding",
 "tests decode what the encoder produced (minimal varints, canonical bools); other encoders' legal forms are never tried",
 CODECS+["proto/decode.go"],[("scalar decoders","proto/normal_codec.go, proto/option_codec.go"),("field loop","proto/struct.go decode")],obs=["proto.Unmarshal"])

p("C06","Decoding never reads outside the input or outside the enclosing record",
 "Unmarshal reads only bytes of the buffer it was given and never panics on any content. What is decoded for an embedded message, map entry, string or bytes field depends only on bytes inside that record's declared length.",
 ["inputs"],"all byte strings against all message types",
 "out-of-range reads need a length near 2^31/2^63 or a truncation at one exact offset; fuzzing samples some, a proof covers all",
 ["proto/struct.go","proto/decode.go","proto/walker.go","proto/map.go","proto/normal_codec.go"],
 [("length checks before slicing","proto/struct.go decode, proto/decode.go decodeVarlen"),("fixed-width length checks","proto/decode.go decodeLE32/decodeLE64")],obs=["proto.Unmarshal"])

p("C07","Truncated or malformed input is always reported, never silently accepted",
 "If the input ends inside a key, a varint, a fixed-width value or a length-delimited payload, or contains an over-long varint or a length exceeding what remains, Unmarshal returns a non-nil error. It returns nil only if every byte of the input, at every nesting level, was consumed as well-formed records.",
 ["inputs"],"all byte strings against all message types, truncation at every offset and nesting level, lengths up to 2^64-1",
 "tests truncate a few encodings; an error dropped on one path (unknown field, nested level, one wire type) is invisible to them",
 ["proto/struct.go","proto/decode.go","proto/walker.go","proto/map.go","proto/proto.go"],
 [("error propagation","proto/struct.go decode, proto/walker.go, proto/map.go"),("trailing-bytes check","proto/proto.go Unmarshal")],obs=["proto.Unmarshal"])

p("C08","Unknown fields are skipped as a whole and change nothing",
 "A record whose field number the message type does not declare is skipped by exactly its own extent for its wire type, leaving the message untouched, and decoding continues with the next record. An unknown record with an unsupported wire type is an error.",
 ["inputs"],"all unknown field numbers, all eight wire types, all payload sizes, at every nesting level",
 "tests skip a few small unknown fields; skip arithmetic is wrong only at particular offsets or sizes",
 ["proto/struct.go"],[("skip logic","proto/struct.go decode")],obs=["proto.Unmarshal"])

p("C09","A record with the wrong wire type is rejected and its field left untouched",
 "If a record's field number is declared but its wire type differs from the declared one, Unmarshal returns an error naming that field number and wire type. The field keeps the value it had.",
 ["inputs","programs"],"all declared field kinds crossed with all other wire types",
 "kind x wire type is a matrix the tests do not enumerate",
 ["proto/struct.go"],[("wire type check","proto/struct.go decode")],obs=["proto.Unmarshal"])

p("C10","Decoded data never aliases the input, and the input is never modified",
 "After Unmarshal returns, nothing reachable from the message shares memory with the input buffer, so later writes to either do not show through. Unmarshal never writes to the input buffer.",
 ["inputs","histories"],"all message types and inputs, and any later mutation of buffer or message",
 "aliasing only shows when the caller reuses the buffer afterwards, which no test does",
 ["proto/normal_codec.go","proto/decode.go","proto/map.go","proto/slice.go"],
 [("copying of strings and bytes","proto/normal_codec.go decodeBytes, decodeString")],obs=["proto.Unmarshal"])

p("C11","Marshal and Size do not modify the message, and the output is fresh",
 "Size and Marshal write nothing reachable from the message. The byte slice Marshal returns shares no memory with the message, with library state, or with the result of any other call.",
 ["inputs","histories"],"all message types and values, any number of calls in any order",
 "a retained or shared buffer, or a write through the message, only shows across calls",
 ["proto/proto.go","proto/encode.go"]+CODECS,[("output buffer allocation","proto/proto.go Marshal"),("append-only encoders","proto/normal_codec.go and siblings")],obs=["proto.Marshal","proto.Size"])

p("C12","Repeated fields append in order; repeated message records merge",
 "Each record of a repeated field appends exactly one element, decoded from a zero value whatever spare capacity held, after the elements already present, which keep their values when the backing array grows. Elements are encoded in index order, and further records of a singular message field merge into the message already there.",
 ["inputs","histories"],"all element types, all prior lengths and capacities, all record sequences",
 "growth and spare-capacity reuse depend on prior length/capacity combinations and decode histories the tests do not vary",
 ["proto/slice.go","proto/walker.go"],[("growth and copy","proto/slice.go sliceDecodeFuncOf, growSlice"),("nested merge","proto/walker.go structCodec, pointer codecs")],obs=["proto.Unmarshal","proto.Marshal"])

p("C13","Map entries: each exactly once on encode, isolated from one another on decode",
 "Marshal emits one record per map entry, holding that entry's key as field 1 and value as field 2. Each decoded record sets exactly the key and value it contains, with the zero value for a missing key or value, unaffected by earlier entries, earlier failed entries, other maps or other calls.",
 ["inputs","histories","schedules"],"all key and value types, all maps, all entry sequences including failing ones, any reuse of scratch memory",
 "leakage between entries needs a failing or partial entry followed by another one that reuses the same scratch object",
 ["proto/map.go","internal/runtime_reflect/map.go"],[("entry encoder","proto/map.go mapEncodeFuncOf"),("pooled scratch entry","proto/map.go mapDecodeFuncOf"),("iteration","internal/runtime_reflect/map.go")],obs=["proto.Marshal","proto.Unmarshal"])

p("C14","A field's encoding depends only on its own type and tag",
 "How a field is sized, encoded and decoded is determined by that field's Go type and struct tags alone: not by other fields of the message, by other message types, or by which types were used before. Every documented combination of schema type and position is supported.",
 ["programs","histories"],"all pairs of fields and types sharing Go types under different tags, all orders of first use",
 "cache pollution needs two types with conflicting tags in one process in one order; tests run each type once",
 ["proto/walker.go","proto/slice.go","proto/struct.go","proto/proto.go"],[("codec selection","proto/walker.go"),("codec caches","proto/proto.go codecCache, proto/slice.go sliceMap")],
 state=[("codec and type-info caches","process-wide memo of per-type encoders","proto/proto.go, proto/slice.go")])

p("C15","Shared type information is complete and immutable once visible",
 "Type information becomes visible to other goroutines only when it and everything reachable from it is fully built, and nothing visible is modified afterwards except through synchronised containers. A failed preparation of a type leaves nothing half-built behind for later calls.",
 ["schedules","histories"],"all interleavings of concurrent first uses of any (also recursive) types, and all orders of failing and succeeding uses",
 "a race needs two goroutines first-using a recursive type within microseconds; tests are sequential",
 ["proto/proto.go","proto/walker.go","proto/slice.go","proto/map.go"],[("publication after the walk","proto/walker.go publish, proto/proto.go cachedStructInfoOf")],
 state=[("structInfoCache, codecCache, sliceMap","process-wide caches","proto/proto.go, proto/slice.go")])

p("C16","Unsupported field types and malformed tags are refused, not misread",
 "A message type with a tagged field of an unsupported Go type, or whose tag has an unknown wire type, a missing, non-numeric or out-of-range field number, or an unknown option, or a map field without valid key and value tags, is refused before any byte is produced or consumed. It is never encoded or decoded under a guessed format.",
 ["programs"],"all Go field types outside the supported set and all malformed tag strings, in every position",
 "the space of types and tag strings is unbounded; tests refuse two or three",
 ["proto/walker.go","proto/struct.go"],[("tag parser","proto/struct.go parseStructTag"),("type switch default","proto/walker.go")])

p("C17","Invalid arguments are reported, never dereferenced",
 "Marshal given anything but a pointer to a struct (nil included) returns an error, and so does Unmarshal of non-empty input into anything but a non-nil pointer to a struct; Size panics with a descriptive error. A typed nil message pointer marshals to nothing with size zero.",
 ["inputs","programs"],"all dynamic argument types, including nil interfaces, non-pointers, pointers to non-structs and typed nils",
 "each argument class is a separate path reading raw memory; tests try few",
 ["proto/proto.go","proto/error.go"],[("argument inspection","proto/proto.go inspect, isStructPointer"),("error type","proto/error.go InvalidUnmarshalError")],obs=["proto.Marshal","proto.Size","proto.Unmarshal"])

p("C18","Decode errors name the record and expose their cause",
 "Every error about a particular record is an UnmarshalFieldError carrying that record's field number and wire type as read from the input, and unwrapping it yields the underlying cause. For embedded messages the outer error names the outer field and wraps the inner one.",
 ["inputs"],"all failing inputs, all failure positions and nesting levels",
 "tests check that an error occurs, not which record it names on each failing path",
 ["proto/struct.go","proto/error.go"],[("wrapping","proto/struct.go decode, proto/error.go fieldError, Unwrap")],obs=["proto.Unmarshal"])

p("C19","Option values behave as an optional: set exactly when built with a value",
 "Some(v) and each typed constructor give an Option that is set and yields v; None and the zero Option are unset, yield the type's zero value from Unwrap and the given default from UnwrapOr. IsSome and IsNone are always opposite, and no accessor modifies the Option.",
 ["inputs","programs"],"all element types and values",
 "tests exercise none of UnwrapOr, most constructors, or zero-valued Some",
 ["proto/option.go"],[("Option methods and constructors","proto/option.go")])

p("C20","Only exported fields with a protobuf tag are ever read or written",
 "Unexported fields and fields without a protobuf tag never influence Size or Marshal and are never modified by Unmarshal. Memory next to a field is never touched when that field is encoded or decoded.",
 ["programs","inputs"],"all struct layouts mixing tagged, untagged and unexported fields of any size and alignment",
 "an over-wide unsafe store corrupts only a neighbour that a test must have placed there and inspected",
 ["proto/walker.go","proto/struct.go","proto/normal_codec.go","proto/slice.go"],[("field filter and offsets","proto/walker.go structInfo, proto/struct.go pointer")])

p("C21","Generated Go types and tags agree with what the runtime implements",
 "For every schema type, cardinality and presence discipline the generator supports, the Go type and struct tags it emits are accepted by the runtime and encode and decode that field in the schema's wire format under the schema's field number.",
 ["programs"],"all proto schema field kinds crossed with singular/optional/required/repeated/map positions",
 "the repository generates one sample file; most kind x cardinality combinations are never generated and run",
 ["internal/generator/main.go","proto/walker.go","proto/struct.go"],[("Go type choice","internal/generator/main.go fieldGoType"),("tag text","internal/generator/main.go fieldProtobufTagValue"),("tag parser","proto/struct.go parseStructTag")])

p("C22","Decoding always advances, stays in its region and bounds its allocations",
 "Every record decoded advances the input position by at least one byte, embedded decoding works on a strictly smaller region, and every allocation is bounded by the input length, the current size of the field or a constant. Decoding therefore terminates on every input with bounded work.",
 ["inputs"],"all byte strings, in particular hostile lengths and deep nesting",
 "a zero-advance path or a length-driven allocation needs one hostile record",
 ["proto/struct.go","proto/slice.go","proto/map.go","proto/normal_codec.go"],[("cursor advance","proto/struct.go decode"),("bounded allocation","proto/slice.go growSlice, proto/normal_codec.go decodeBytes")],obs=["proto.Unmarshal"])

p("C23","Unsafe code respects Go's memory layout and garbage-collector rules",
 "Every raw memory view has the size, field offsets and pointer layout of the runtime object it stands for, integers are never kept as pointers across operations, and pointer-carrying memory is allocated with its own type and copied through typed operations. Every access through a computed address stays within its object.",
 ["programs","schedules","configurations"],"all message types and all points at which the collector or a stack move may run",
 "violations show only under a collection at one instant or on another toolchain",
 ["internal/runtime_reflect/map.go","internal/runtime_reflect/slice.go","proto/proto.go","proto/struct.go","proto/slice.go","proto/map.go","proto/walker.go"],
 [("layout mirrors","internal/runtime_reflect hiter, Slice; proto/proto.go iface"),("typed memory operations","internal/runtime_reflect Assign, MapAssign, MakeSlice, CopySlice"),("pointer arithmetic","proto/struct.go pointer, proto/slice.go, proto/map.go")])

p("C24","The generator emits every schema field exactly once, under its own name and tag",
 "For every message, each schema field outside a oneof becomes exactly one struct field carrying its own Go name, type and tag, map fields also carry the tags of their key and value, and nothing is emitted for map-entry messages. Oneof groups are emitted once, at their first member.",
 ["programs"],"all schemas: any sequence of singular, repeated, map and oneof fields",
 "the repository generates one sample schema",
 ["internal/generator/main.go"],[("field loop","internal/generator/main.go genMessageFields, genMessageField")])

p("C25","Unmarshal(Marshal(m)) reproduces m as a whole",
 "For every message value, decoding its encoding into a fresh message yields an equal message (up to nil versus empty for repeated and map fields and nil elements). Concatenating encodings merges messages.",
 ["inputs","programs"],"all message types and values",
 "tests round-trip a few dozen values",
 CODECS,[("encode/decode pairs","proto/struct.go encode, decode")],obs=["proto.Marshal","proto.Unmarshal"])

p("C26","Committed generated codecs are what the code generators produce",
 "Running the repository's code generators reproduces the committed generated codec files byte for byte.",
 ["programs","configurations"],"all generator inputs (the normal codec source and templates)",
 "no test runs the generators",
 ["proto/gen/option/main.go","proto/gen/required/main.go","proto/option_codec.go","proto/required_codec.go"],[("generators","proto/gen")])

p("C27","Concurrent calls do not disturb each other",
 "Size, Marshal and Unmarshal may run concurrently on distinct messages, including the first use of a message type, and each call gets the result it would have alone: whatever state the library shares between calls is never written once it is visible, or is guarded consistently by one lock or by atomic operations; values a call reads of it in several steps belong together; pooled scratch memory is used by one call at a time; and no call ends, also not by a panic, with a lock still held.",
 ["schedules","histories"],"all interleavings of calls on distinct messages of any types from any number of goroutines, including first uses of types and calls that fail or panic",
 "the tests are sequential; a race or a torn read shows only in particular interleavings",
 ["proto/proto.go","proto/map.go","proto/walker.go","proto/struct.go"],[("type cache","proto/proto.go cachedStructInfoOf"),("recursive preparation","proto/walker.go"),("scratch pool","proto/map.go")])

G=["internal/generator/main.go"]
p("C28","Generated oneof accessors return exactly the member that is set",
 "For a oneof, the generated Get<Member> returns the member's value when that member is set, and otherwise its zero value (for an enum, the enum's first value); Get<Oneof> returns the stored wrapper, or nil when nothing is set. All of them may be called on a nil message. Exactly the oneof's own member types can be assigned to its field.",
 ["programs","inputs"],"all oneofs: any number, kinds and positions of members, same names in other messages, proto2 and proto3; every state of the oneof",
 "the sample schema of the repository has no oneof, so none of this code is ever run by a test",
 G,[("accessors","internal/generator/main.go genMessageGetterMethods, genMessageOneofWrapperTypes"),("defaults","internal/generator/main.go fieldDefaultValue")])

p("C29","Every schema enum value is emitted as a constant with its number",
 "Every enum of the schema, also one nested in a message, becomes a Go type based on int32, and each of its values - aliases and negative numbers included - a constant of that type with the schema's number.",
 ["programs"],"all enums: names, numbers over the whole int32 range, aliases, nesting",
 "the sample schema has one enum",
 G,[("enum declarations","internal/generator/main.go genEnum")])

p("C30","Generated messages cannot be compared with ==",
 "No generated message type is comparable: code that compares two messages with == does not build, so that the pointers and slices inside them are never compared by accident.",
 ["programs"],"all messages, empty ones and ones with only scalar fields included",
 "a compile-time property of code that is not in the tests",
 G,[("marker field","internal/generator/main.go genMessageFields")])

p("C31","The plugin generates exactly the files it is asked for",
 "Of the files in a request, the plugin emits one Go file for each file to be generated and none for those that are only imported. Each emitted file is valid Go, marked as generated code, and the plugin announces support of proto3 optional fields.",
 ["programs"],"all requests: any mix of files to be generated and files only imported",
 "the tests never run the plugin",
 ["cmd/protoc-gen-golite/main.go","internal/generator/main.go"],[("plugin entry","cmd/protoc-gen-golite/main.go main"),("file header","internal/generator/main.go genGeneratedHeader")])

p("C32","Schema comments and deprecation marks stay with their declarations",
 "The leading comment of a message, field, oneof, enum or enum value, and the single-line trailing comment of a field or enum value, appear on the Go declaration generated for it and on no other. A declaration is marked as deprecated exactly when the schema element is.",
 ["programs"],"all schema elements with any combination of comments and deprecation",
 "the sample schema has no comments to speak of and nothing deprecated",
 G,[("comments","internal/generator/main.go appendDeprecationSuffix, trailingComment")])

p("C33","Public imports re-export what the imported file declares, others nothing",
 "A file that publicly imports another file of a different Go package declares an alias for every exported type and constant generated for that file, identical to the original. Imports that are not public forward nothing, imports from the same Go package are not repeated, and the packages of all non-weak imports are imported.",
 ["programs"],"all import graphs: public, plain, weak, missing and same-package imports and their combinations",
 "the sample schema imports nothing",
 G,[("imports","internal/generator/main.go genImport")])

p("C34","Generated code is a function of the schema alone",
 "The text generated for a file depends only on the file's schema, its imports and the plugin's parameters. It does not depend on the iteration order of maps, on which files were generated before it or how often, on the time, the environment, random numbers or addresses, so that regenerating code in any order on any machine reproduces it.",
 ["programs","histories"],"all schemas, all orders in which the files of a request are generated, all map iteration orders",
 "a test sees one order in one environment; a memo shared between files or a map ranged over shows only in some",
 G,[("file generation","internal/generator/main.go GenerateFile"),("plugin entry","cmd/protoc-gen-golite/main.go main")])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
