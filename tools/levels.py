LEVEL={
"C01":("proof","Proved for all inputs: Size equals the length of the specified encoding and Marshal appends exactly that encoding, for the exported functions, messages, every scalar, slice, pointer, map and message codec and the primitives below them; every length prefix is the length of what follows; the tag lengths kept in descriptors. Sizes are assumed below 2^48."),
"C02":("proof","Proved for all inputs: varint, zigzag, little-endian and tag writers and every codec's encoder append exactly the specified bytes, with the field's own tag; Marshal returns exactly them."),
"C03":("proof","Proved for all inputs: the varint and fixed-width readers, every codec's decoder, the decoding loop of a message and Unmarshal store the specified value."),
"C04":("proof","Proved: encoders and decoders of all codecs, of messages, and the exported functions implement one pair of specification functions (bytes written, memory after reading), and, as lemmas over these by induction on the fields, that the pair is inverse for every message type whose fields are scalars, strings, byte slices and Options of them. For nested messages, slices and maps the inverse of the specifications is searched, not proved."),
"C05":("proof","Proved: no codec, reader, constructor or exported function panics or reads out of bounds on any input, decoding loops make progress to the end of their window, allocation sizes are bounded. Assumed: the stack suffices (known finding for extreme nesting)."),
"C06":("proof","Proved: the error results of the readers, of every decoder and of the decoding loop of a message, in every case of the format; Unmarshal passes them on; the error type unwraps to the cause."),
"C07":("proof","Proved: the decoding loop of a message continues after every well-formed unknown field with unchanged memory and result (code against specification, and a lemma that one such field leaves error and memory of the specification unchanged); entries and nested messages are decoded by the same loop."),
"C08":("proof","Proved: presence of every scalar, Option, pointer and message codec on encoding, decoding and sizing."),
"C09":("proof","Proved: size, encoding and decoding of slice codecs over every element codec: one occurrence per element in order; a decode appends exactly one cleared element and keeps the others through growth; a failed decode adds none."),
"C10":("proof","Proved: size and encoding of map codecs over every key and value codec as one length-prefixed entry per key; decoding builds an entry type whose tags say the key's and value's numbers, wire types and zigzag, decodes one entry into cleared memory and assigns it to its key; a failed entry assigns nothing; pooled entries come back cleared."),
"C11":("proof","Proved: length prefixes, the delimiting of every length-delimited field, allocation of a nested message only where there is none, decoding into the existing one otherwise, empty nested messages written."),
"C12":("proof","Proved: a descriptor built by (*walker).structInfo lists exactly the exported tagged fields in order, each with its offset, the tag its struct tag says, and a codec of the kind its type and tag demand, and finds each under its number; parseStructTag reads the documented format; the decoding loop selects the descriptor by number and hands it its own bytes and offset; memoized codecs and descriptors are keyed by what determines them."),
"C13":("proof","Proved as obligations of sequential contracts: package state and published descriptors are never written or read while mutable, type information is published only when the walk that builds it is over, keyed by its type, and pooled map entries are exclusively owned and returned cleared. From this and linearizable sync.Map, syncx.Map and sync.Pool (assumed, not verified) freedom from interference follows. Schedules themselves are additionally searched with the race detector."),
"C14":("proof","Proved: Size, Marshal and Unmarshal for every dynamic type of argument (nil, non-pointer, pointer to non-struct, nil struct pointer): error or empty result, no panic, no effect on the message."),
"C15":("proof","Proved: the memory after decoding is a fold over the fields of the input, one occurrence at a time, with no state but memory; by induction, that decoding a concatenation is decoding the second part into what the first left (lemma decode.concat), and that the last occurrence of a singular scalar wins; slices append, maps and messages merge."),
"C16":("proof","Proved for every type parameter: the methods of Option and its constructors, and the typed helper constructors."),
"C17":("proof","Proved, for every field: fieldProtobufTagValue, fieldGoType, genMessageField, genMessageFields and genMessage print the struct type, field lines and tags their contracts say (ghost text of the generated file), genEnum declares enums as aliases of int32; parseStructTag and (*walker).structInfo read such fields as their contracts say; and, as lemmas (gen.value, gen.field), what the runtime derives from a printed field is the number, wire type, value encoding, presence, repetition and map shape the field is declared with, and every printed tag is accepted. Getters and oneof wrappers obey a frame condition (they only add text), decided structurally; that GenerateFile visits every message is searched. Assumed: what protogen says about descriptors and how the Go compiler reads type and tag text."),
"C18":("proof","Proved: sizing and encoding of messages and of every codec writes nothing but the output buffer; the bytes Marshal returns are freshly allocated by it."),
"C19":("proof","Proved: no decoder, at any call depth, writes to the input or stores a string or byte slice that refers to it; every conversion and store is an obligation."),
"C20":("proof","Proved: a message's encoding is the concatenation of its fields' encodings in the order of its descriptors, which is the order of the struct fields; Marshal returns nothing else; apart from the iteration order of maps the bytes are a function of the type and the value."),
}
