#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so the texts stay reviewable).
import json,os
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
API=["proto.Marshal","proto.Size","proto.Unmarshal"]
p("C01","Size is exactly the length of the encoding",
 "For every message type the runtime supports and every value of it, Size reports exactly the number of bytes Marshal produces for that value. Marshal succeeds for every such value, and every length prefix it writes for a nested message or a map entry is exactly the length of what follows it.",
 ["inputs","programs"],"all supported message types (any combination of field shapes, tags, nesting) and all values",
 "Sizing and encoding are two independent families of functions that must agree for every type, tag, value and nesting depth; the tests compare them on a handful of values.",
 ["proto/normal_codec.go","proto/required_codec.go","proto/option_codec.go","proto/size.go","proto/encode.go","proto/map.go","proto/slice.go","proto/struct.go","proto/walker.go"],
 [("paired size/encode functions of every codec","proto/normal_codec.go, required_codec.go, option_codec.go"),("closed-form varint length","proto/size.go sizeOfVarint"),("message size as the sum over its fields","proto/struct.go structInfo.size")],
 [("tagsize","cached length of the field's tag","proto/struct.go structField")],["proto.Size","proto.Marshal"])
p("C02","Values are written in the canonical protobuf wire form",
 "Every field Marshal writes is the minimal varint of (field number << 3 | wire type) followed by the payload its declared type demands: minimal varint (negative 32-bit values sign-extended to 64 bits, 0 or 1 for bool), zigzag varint, 4 or 8 little-endian bytes (IEEE bits for floats), or a minimal varint length followed by exactly that many bytes. This holds for every scalar type, tag, field number and value.",
 ["inputs"],"all scalar kinds x all values x all field numbers and wire types",
 "2^64 values per kind, with length boundaries every 7 bits; tests sample a few values and mostly check round trips, which cannot see a wrong but self-consistent encoding.",
 ["proto/encode.go","proto/normal_codec.go","proto/required_codec.go","proto/option_codec.go"],
 [("varint, zigzag and little-endian writers","proto/encode.go appendVarint, encodeZigZag64, encodeLE32, encodeLE64"),("codec encode functions","proto/normal_codec.go, required_codec.go, option_codec.go")],None,["proto.Marshal"])
p("C03","Scalar payloads decode to the value protobuf assigns them",
 "Unmarshal maps every well-formed payload to the value the protobuf encoding defines for the field's declared type: varints of any length up to ten bytes including non-minimal ones, truncated to the declared width, non-zero meaning true for bool, zigzag undone, little-endian fixed-width integers and IEEE floats bit for bit, and length-delimited bytes exactly. A varint that does not fit 64 bits is rejected with an error.",
 ["inputs"],"all payload byte strings for every scalar kind",
 "Decoders must be right on byte strings no encoder in the repository produces (non-minimal, sign-extended, over-wide varints); the tests feed them almost only what Marshal wrote.",
 ["proto/decode.go","proto/normal_codec.go","proto/option_codec.go"],
 [("varint reader","proto/decode.go decodeVarint"),("codec decode functions","proto/normal_codec.go, option_codec.go")],None,["proto.Unmarshal"])
p("C04","Decoding what was encoded gives the value back",
 "For every supported message type and every value of it, unmarshalling the marshalled bytes into a fresh message succeeds and reproduces every field, including extreme integers, -0.0, NaN bit patterns, empty strings behind presence, deep nesting, repeated fields and maps. The only differences allowed are those the format cannot express: nil versus empty repeated fields and maps, nil versus empty bytes inside a repeated field, a map or behind a pointer, and nil pointers inside a repeated field.",
 ["inputs","programs"],"all supported message types x all values",
 "Quantifies over all types and values; tests round-trip a few dozen fixed values of fixed types.",
 ["proto/proto.go","proto/struct.go","proto/walker.go","proto/normal_codec.go","proto/option_codec.go","proto/required_codec.go","proto/map.go","proto/slice.go"],
 [("codec encode/decode pairs chosen once per field","proto/walker.go structInfo"),("field dispatch by number","proto/struct.go structInfo.decode")],None,["proto.Marshal","proto.Unmarshal"])
p("C05","Arbitrary input never panics, over-reads or hangs the decoder",
 "For every byte string and every supported message type, Unmarshal returns after a number of steps bounded by the input length, without panicking and without reading outside the input. If it reports success, it has consumed the input completely.",
 ["inputs"],"all byte strings x all supported message types",
 "The attacker chooses the bytes: lengths near 2^63 and 2^64, truncations at every offset, over-long varints; fuzz corpora in the repository are seeds only and sample a vanishing part.",
 ["proto/struct.go","proto/decode.go","proto/map.go","proto/slice.go","proto/walker.go","proto/proto.go"],
 [("bounds checks before every slice","proto/struct.go structInfo.decode, proto/decode.go decodeVarlen"),("unsigned comparison of lengths with the remaining input","proto/struct.go structInfo.decode")],
 [("offset","how much of the input is consumed","proto/struct.go structInfo.decode")],["proto.Unmarshal"])
p("C06","Malformed input is rejected with the documented error",
 "Input that ends in the middle of a tag, varint, fixed-width value or length-delimited value is rejected with an error that unwraps to io.ErrUnexpectedEOF; a field the message does not declare whose wire type is not one the format supports unwraps to ErrWireTypeUnknown; a known field that arrives with a different wire type than declared is rejected. Every error raised while decoding a field is an *UnmarshalFieldError carrying the number and wire type of that field on the wire.",
 ["inputs"],"all malformed byte strings x all supported message types, known and unknown fields",
 "One must consider truncation at each byte of each possible encoding and all 2^61 field numbers; the one test for short buffers truncates a single message.",
 ["proto/struct.go","proto/decode.go","proto/error.go","proto/map.go"],
 [("error construction","proto/error.go fieldError"),("truncation checks per wire type","proto/struct.go structInfo.decode")],None,["proto.Unmarshal"])
p("C07","Unknown fields are skipped without a trace",
 "Inserting any well-formed field with a number the message does not declare, of any supported wire type and any content, between any two fields of the input or at either end, changes neither the success of Unmarshal nor the resulting message. The same holds inside nested messages and map entries.",
 ["inputs"],"all insertions of unknown varint, 64-bit, length-delimited and 32-bit fields at every field boundary",
 "Covers every field number, payload and position, hence every combination of neighbours; tests decode one or two messages with extra fields.",
 ["proto/struct.go"],
 [("skip logic for unknown numbers","proto/struct.go structInfo.decode"),("lookup by number","proto/struct.go structInfo.fieldIndex")],None,["proto.Unmarshal"])
p("C08","Presence is exact",
 "A plain scalar, string, or bytes field is written iff it is not the zero value (bytes: not nil; floats: any bit set, so -0.0 is kept); an Option field is written iff it is Some and a pointer field iff it is non-nil, even when the contained value is zero. After Unmarshal an Option field is Some, and a pointer non-nil, iff it was so before or the field occurred in the input.",
 ["inputs"],"all field shapes (plain, Option, pointer) x all scalar kinds x all values",
 "The cross product of shapes, kinds and boundary values (zero, -0.0, NaN, empty but present) is far larger than the test table, and generated codecs can differ from each other individually.",
 ["proto/normal_codec.go","proto/option_codec.go","proto/walker.go","proto/option.go"],
 [("zero tests of plain codecs","proto/normal_codec.go"),("presence tests of option codecs","proto/option_codec.go"),("nil tests of pointer codecs","proto/walker.go pointerSizeFuncOf, pointerEncodeFuncOf, pointerDecodeFuncOf")],
 [("some","presence bit","proto/option.go Option")],API)
p("C09","Repeated fields keep every element, in order",
 "Marshal writes one field occurrence per element of a repeated field, in order, including zero, empty and nil-bytes elements (nil pointers are skipped). Unmarshal appends one freshly zeroed element per occurrence, in input order, after the elements already present, which keep their values at every slice length and capacity; an element that fails to decode is not appended.",
 ["inputs","histories"],"all element types, all element sequences, all starting lengths and capacities, all interleavings with other fields",
 "Growth happens at particular lengths and stale memory matters only at particular length/capacity combinations; tests use up to five elements starting from nil.",
 ["proto/slice.go","proto/walker.go","internal/runtime_reflect/slice.go"],
 [("element loop","proto/slice.go sliceSizeFuncOf, sliceEncodeFuncOf"),("append and growth","proto/slice.go sliceDecodeFuncOf, growSlice"),("raw slice header","internal/runtime_reflect/slice.go")],
 [("len/cap/data","slice header manipulated in place","internal/runtime_reflect/slice.go Slice")],API)
p("C10","Maps are encoded as one entry message per key and decoded back",
 "Marshal writes exactly one length-delimited entry per map element, holding the key as field 1 and the value as field 2 according to their own tags even when they are zero, and nothing for a nil or empty map. Unmarshal inserts each entry under its key with a missing key or value read as the zero value, a later entry replacing an earlier one and other entries untouched; no entry leaks state from an entry decoded before it, even after errors.",
 ["inputs","histories"],"all key and value types and tags, all map contents, all sequences of valid and invalid entries",
 "Requires all key/value kind combinations and sequences of decodes through the entry pool, including failing ones; one test covers three map types with non-zero content.",
 ["proto/map.go","proto/walker.go","internal/runtime_reflect/map.go"],
 [("map iteration","proto/map.go mapSizeFuncOf, mapEncodeFuncOf; internal/runtime_reflect/map.go MapIter"),("pooled entry struct, cleared after use","proto/map.go mapDecodeFuncOf"),("entry tags rebuilt from key and value tags","proto/map.go formatWireTag")],
 [("structPool","scratch entries shared by decodes","proto/map.go mapDecodeFuncOf")],API)
p("C11","Nested messages are delimited, kept when empty, and merged",
 "A non-nil nested message is written as its tag, the exact length and its own encoding, also when that is empty, and a nil one is omitted. Unmarshal decodes a nested message from exactly the delimited bytes, never beyond them, into the existing message if there is one (merging) or else into a fresh zero message.",
 ["inputs","programs"],"all nesting structures including recursive types, all values, all inputs",
 "Recursion depth and the interplay of lengths at several levels are unbounded; tests nest two levels.",
 ["proto/walker.go","proto/struct.go"],
 [("nested message codec","proto/walker.go structCodec"),("field data limited to its own bytes","proto/struct.go structInfo.decode")],None,API)
p("C12","A field's encoding depends only on its own type and tag",
 "How a field is encoded and decoded is determined by its Go type and its own tag (number, wire type, zigzag, repeated), for every supported Go type including named types, pointers, slices, maps and Options. It does not depend on the other fields of the message, on the other types in the program, or on which types were used before; fields without a tag and unexported fields are ignored.",
 ["programs","histories"],"all struct types over the supported field shapes, all orders of first use",
 "Codecs are cached per type and shared across fields, so a wrong cache key shows only for particular combinations of fields and histories; tests use each type in one fixed context.",
 ["proto/walker.go","proto/slice.go","proto/proto.go","proto/struct.go"],
 [("type walk","proto/walker.go structInfo, codec, required"),("codec caches","proto/proto.go codecCache, structInfoCache; proto/slice.go sliceMap"),("tag parsing","proto/struct.go parseStructTag")],
 [("codecs/infos","per-walk memo tables","proto/walker.go walker")],API)
p("C13","First use from many goroutines at once is safe",
 "Any number of goroutines may call Marshal, Size and Unmarshal on distinct messages of the same or mutually recursive types concurrently, including the very first use of those types, and each call behaves as if it ran alone. No goroutine ever observes partially built type information, not even after another call failed on an unsupported type.",
 ["schedules"],"all interleavings of first and later uses",
 "Interleavings cannot be enumerated by running tests; no existing test is concurrent.",
 ["proto/proto.go","proto/walker.go","proto/slice.go","proto/map.go"],
 [("publication after the walk is complete","proto/proto.go cachedStructInfoOf"),("synchronised maps and pools","proto/proto.go, proto/slice.go, proto/map.go")],
 [("structInfoCache, codecCache, sliceMap, structPool","the only state shared between calls","proto/proto.go, proto/slice.go, proto/map.go")],API)
p("C14","Invalid arguments are reported as errors",
 "Marshal and Unmarshal (with non-empty input) called with nil, a non-pointer, or a pointer to something other than a struct return a non-nil error, for every such dynamic type, and Unmarshal does so for nil struct pointers too; Marshal and Size of a nil struct pointer give the empty encoding. None of these calls panics or touches the argument.",
 ["inputs"],"all dynamic argument types and nil-ness combinations",
 "All Go types can be passed through the empty interface; tests pass valid pointers.",
 ["proto/proto.go","proto/error.go"],
 [("argument inspection","proto/proto.go Marshal, Unmarshal, inspect")],None,["proto.Marshal","proto.Unmarshal"])
p("C15","Decoding a concatenation equals decoding the parts in turn",
 "For every message type and all well-formed inputs a and b, unmarshalling a followed by b into a message gives the same result as unmarshalling a and then b into it: the last occurrence of a scalar wins, repeated fields accumulate, maps and nested messages merge. In particular fields may arrive in any order and any number of times.",
 ["inputs","histories"],"all pairs of inputs and all starting messages",
 "A statement about all pairs of inputs; no test decodes twice into one message.",
 ["proto/struct.go","proto/normal_codec.go","proto/option_codec.go","proto/slice.go","proto/map.go","proto/walker.go"],
 [("field loop without state between fields","proto/struct.go structInfo.decode")],None,["proto.Unmarshal"])
p("C16","Option behaves as an optional value",
 "Some(v) is present and Unwrap and UnwrapOr return v for every v and type; None and the zero Option are absent, Unwrap then returns the zero value and UnwrapOr its argument; IsNone is the negation of IsSome. The typed helper constructors equal Some of their argument.",
 ["inputs","programs"],"all type arguments and values",
 "Generic over all types and values; tests use some constructors on a few constants.",
 ["proto/option.go"],[("Option methods","proto/option.go")],[("some, value","presence and payload","proto/option.go Option")],["proto.Some","proto.None","proto.Option"])
p("C17","Generated struct fields agree with the runtime",
 "For every field a .proto file can declare outside groups and oneofs (every scalar type, enum, message, optional, required, repeated, map; proto2 and proto3), the generated Go field has the Go type and tag from which the runtime derives exactly the wire encoding the .proto declares (repeated fields one element per occurrence), with the declared field number and presence. The runtime accepts every tag the generator emits for them.",
 ["inputs","programs"],"all field kinds x cardinalities x presence x field numbers",
 "The generator has no tests at all; the agreement must hold for the full cross product of kinds and labels.",
 ["internal/generator/main.go","proto/struct.go","proto/walker.go"],
 [("Go type and tag emission","internal/generator/main.go fieldGoType, fieldProtobufTagValue, genMessageField"),("tag parsing","proto/struct.go parseStructTag"),("dispatch","proto/walker.go structInfo")],None,["protoc-gen-golite output","proto.Marshal"])
p("C18","Encoding leaves the message alone and hands out private bytes",
 "Marshal and Size do not modify the message or anything reachable from it. The slice Marshal returns shares no memory with the message or with any other result, so later writes to either are invisible to the other.",
 ["inputs","histories"],"all messages of all supported types; all later mutations",
 "Aliasing and side effects show only if something is mutated afterwards; tests compare values once.",
 ["proto/proto.go","proto/encode.go","proto/struct.go","proto/map.go","proto/slice.go"],
 [("output buffer allocated per call and only appended to","proto/proto.go Marshal"),("read-only encoders","proto/*_codec.go")],None,["proto.Marshal","proto.Size"])
p("C19","Decoded messages do not share memory with the input",
 "Unmarshal never writes to its input, and nothing it stores in the message (strings, bytes, map keys and values, elements) refers to the input's memory. Overwriting or reusing the input buffer after Unmarshal returns never changes the decoded message.",
 ["inputs","histories"],"all inputs, all message types, all later mutations of the buffer",
 "Aliasing is invisible to value comparison unless the buffer is mutated afterwards, which no test does.",
 ["proto/normal_codec.go","proto/map.go","proto/struct.go"],
 [("copy into fresh memory","proto/normal_codec.go decodeBytes, decodeString")],None,["proto.Unmarshal"])
p("C20","A message's encoding is its set fields in declaration order, nothing else",
 "The encoding of a message is the concatenation, in declaration order, of the encodings of its tagged exported fields that are set, with no other bytes; it depends on nothing but the message's value, so without maps of two or more entries it is deterministic, and with them only the order of map entries may vary. A nil message pointer encodes to nothing.",
 ["inputs","programs"],"all supported message types and values",
 "Must hold for every combination of set and unset fields of every struct type; tests compare a handful of full messages.",
 ["proto/struct.go","proto/walker.go","proto/proto.go"],
 [("field list in declaration order","proto/walker.go structInfo"),("encode loop","proto/struct.go structInfo.encode")],
 [("fields","ordered field descriptors","proto/struct.go structInfo")],["proto.Marshal"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
