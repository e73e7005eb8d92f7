PENDING = "not yet claimed: the analysis for it is being built"
B = 'binary-decode.go'
ENG = ("Abstract interpretation of the type-checked SSA of /repo (own engine: linear-inequality domain, trace partitioning, "
       "inferred loop invariants and postconditions for recursion) for 64-bit and 32-bit targets; every path of every entry point is covered, "
       "callees in the repository are analysed in context. Trusted: go/ssa, the engine's transfer functions and its models of the standard library. ")
LOCK = ("Own context-sensitive lock-state dataflow over SSA (all paths, deferred calls, panics, closures, recursion to a fixpoint). "
        "Trusted: go/ssa, the list of library calls that may panic, sync.RWMutex; user callbacks run under the lock do not use the codec themselves. ")

PROPS += [
P('C01', 'A codec can be shared by concurrent goroutines without data races',
  "Any number of goroutines may concurrently register types, seal, print, marshal and unmarshal (binary or JSON) through one codec without a data race. Every access to a codec's mutable registry state, including state reachable from the type records it hands out, happens while holding the codec's lock, in write mode when it modifies.",
  ['schedules', 'programs'], 'all interleavings of calls to exported methods of one codec',
  'The race detector only sees the interleavings a test happens to run; the tests exercise a codec from one goroutine at a time.',
  ['codec.go', 'amino.go'], [('registry lock', 'codec.go Codec.mtx'), ('accessors that take the lock', 'codec.go getTypeInfo*')], 
  level='proof', technique='lock-state dataflow (context-sensitive, path-insensitive powerset) with inferred shared state',
  note=LOCK + "State is shared once its allocation has been stored in shared memory; element reads of user values are the user's to synchronize."),
P('C02', 'Codec locks are always released and never taken twice',
  "Whenever an exported codec operation returns or panics, the codec's lock is as free as it was on entry, so that one failed or panicking call never makes later calls block for ever. No operation acquires the lock while already holding it.",
  ['schedules', 'inputs', 'fault_sequences'], 'all paths, including those that end in a panic, of every exported operation',
  'A leaked lock only shows on the second call after a rare panic; tests stop at the first.',
  ['codec.go'], [('deferred unlock', 'codec.go getTypeInfoWlock, RegisterInterface, RegisterConcrete'), ('unlock on each return', 'codec.go getTypeInfoFrom*Rlock')], 
  level='proof', technique='lock-state dataflow including panicking exits and deferred calls',
  note=LOCK),
P('C03', 'A sealed codec accepts no further registrations',
  "Once a codec is sealed, every attempt to register an interface or a concrete type panics and leaves the registrations as they were, also when sealing and registering race. A sealed codec can never become unsealed.",
  ['histories', 'schedules'], 'all sequences and interleavings of seal and registration calls',
  'Tests try one registration after sealing on one goroutine.',
  ['codec.go'], [('seal check', 'codec.go assertNotSealedNolock'), ('registration critical section', 'codec.go RegisterInterface, RegisterConcrete')], 
  level='proof', technique='lock-state dataflow: seal check dominates registry writes within the critical section',
  note=LOCK),
P('C04', 'A failed registration leaves no trace',
  "When registering an interface or a concrete type fails (panics), the codec is exactly as it was before the call: none of its registered types, names, prefixes or implementer lists has changed.",
  ['histories', 'inputs'], 'all registration calls on all codec states',
  'Tests check that bad registrations panic, not what remains in the codec afterwards.',
  ['codec.go'], [('checks before writes', 'codec.go setTypeInfoNolock, addCheckConflictsWithConcreteNolock')], level='proof', technique='abstract interpretation: no registry write on any path from which a panic of the registration is still reachable',
  note=ENG + "A panic of the Go runtime for lack of memory is not a failed registration."),
P('C05', 'Registered types, names and prefix bytes are unique within a codec',
  "Within one codec no two registered types ever share a name or full disambiguation-plus-prefix bytes, and no type is registered twice; a conflicting registration panics rather than replacing the earlier one.",
  ['histories', 'inputs'], 'all sequences of registrations',
  'Tests try a handful of conflicts out of an unbounded set of registration histories.',
  ['codec.go'], [('conflict checks', 'codec.go checkTypeInfoNolock, checkConflictInPrioNolock')], level='proof', technique='abstract interpretation: every insertion into a registry map is preceded by an absence check of the same key',
  note=ENG + "Two different names are not proved to have different prefix bytes; the property is that such a conflict is refused."),
P('C06', 'Decoding untrusted bytes never panics',
  "For every byte sequence, every decoding operation (binary bare, length-prefixed, from a reader, JSON, and the exported primitive decoders) returns a value or an error when given a usable target pointer; no input makes it index out of range, slice out of bounds, divide by zero, fail a type assertion or run into an explicit panic.",
  ['inputs'], 'all byte sequences, all readers, on 32-bit and 64-bit platforms',
  'Tests and the fuzz corpus decode finitely many inputs, on a 64-bit platform.',
  ['binary-decode.go', 'decoder.go', 'json-decode.go', 'amino.go', 'reflect.go'],
  [('length checks before slicing', 'decoder.go DecodeByteSlice'), ('buffer advance', 'reflect.go slide'), ('frame accounting', 'binary-decode.go decodeReflectBinary*')],
  level='proof', technique='abstract interpretation (linear inequalities over SSA) of all decoding entry points',
  note=ENG + "User-supplied UnmarshalAmino/UnmarshalJSON methods are assumed not to panic; panics caused by an unsupported Go type rather than by the input are outside the property, as are stack depth and memory exhaustion."),
P('C07', 'Memory allocated while decoding is bounded by the bytes supplied',
  "No length, count or size read from the input makes a decoding operation allocate more than a constant plus a constant multiple of the bytes it has actually been given or has read from the reader. A forged length prefix is rejected, or fails at the end of the data, before memory of that size is allocated.",
  ['inputs'], 'all byte sequences and all readers',
  'Tests use honest length prefixes; a forged one only shows as memory use, which no test measures.',
  ['decoder.go', 'amino.go', 'binary-decode.go', 'json-decode.go'],
  [('length check before make', 'decoder.go DecodeByteSlice'), ('growing read', 'amino.go UnmarshalBinaryLengthPrefixedReader')],
  level='proof', technique='abstract interpretation: input-dependent allocation sizes bounded by lengths of held data',
  note=ENG + "Allocations inside the standard library (io.ReadAll, encoding/json, reflect.Append) are taken to be proportional to the data given to them."),
P('C08', 'Decoding always terminates',
  "Every decoding operation on every finite input terminates: each repetition that the input controls consumes at least one byte, so that no input can make it loop for ever.",
  ['inputs'], 'all byte sequences',
  'A test that hangs only proves one input; the inputs that could loop are zero-width elements nobody wrote a test for.',
  ['binary-decode.go', 'decoder.go', 'json-decode.go'],
  [('element loops', 'binary-decode.go decodeReflectBinarySlice, decodeReflectBinaryStruct')],
  level='proof', technique='abstract interpretation: ranking measure for every input-driven loop',
  note=ENG + "Loops whose exit does not depend on the input walk the finite structure of a Go type; recursion descends the type or a strictly shorter frame."),
P('C09', 'No error is silently dropped',
  "Whenever a step of encoding, decoding or registering reports an error (a malformed primitive, a failed nested value, a failed write to the destination, an error returned by a user's conversion method), the whole operation reports an error; it never returns success after a step that failed.",
  ['inputs', 'fault_sequences'], 'all inputs, all writers and readers and all user methods that can fail at any step',
  'Most failing steps (writers that fail at the n-th write, user methods that fail on one nested value) are never exercised by tests.',
  ['binary-encode.go', 'binary-decode.go', 'json-encode.go', 'json-decode.go', 'encoder.go', 'decoder.go', 'amino.go'],
  [('error returns', 'every call returning error')], level='proof', technique='path-sensitive error-flow analysis over SSA: after each failing call, every return carries a non-nil error',
  note="Own interprocedural error-flow dataflow: every call that can fail is followed on its failing outcome through every path, deferred call and closure of its function to the returns. Trusted: go/ssa; bytes.Buffer, strings.Builder, hash.Hash and printing to standard output do not fail."),
P('C10', 'Binary decoding accounts for every byte of its input',
  "When binary decoding succeeds, the bytes reported as consumed are exactly the bytes that were read: bare and length-prefixed unmarshalling succeed only if the whole input was consumed, every nested length-prefixed frame is consumed to its end, and the exported primitive decoders and the reader report exactly the number of bytes they used.",
  ['inputs'], 'all byte sequences and target types',
  'Trailing or overlapping bytes in nested frames are combinations that the sampled encodings of the tests do not contain.',
  ['binary-decode.go', 'decoder.go', 'amino.go'],
  [('frame accounting', 'binary-decode.go n += _n - len(buf)'), ('left-over checks', 'binary-decode.go')], level='proof', technique='abstract interpretation with a read cursor per byte slice (relational numeric domain, inferred contracts for the recursive decoders)', note=ENG),
P('C11', 'Decoding neither modifies nor retains the input buffer',
  "A decoding operation never writes to the byte slice it was given, and nothing it stores in the target or returns shares memory with that slice, so that the caller may reuse the buffer afterwards.",
  ['inputs', 'histories'], 'all inputs and every later use of the buffer',
  'Aliasing shows only when a caller reuses the buffer after decoding, which no test does.',
  ['decoder.go', 'binary-decode.go', 'json-decode.go', 'amino.go'],
  [('copy out of the input', 'decoder.go DecodeByteSlice')], level='proof', technique='interprocedural alias (reference-flow) analysis of the input memory over SSA, with a table of library effects', note=ENG),
P('C12', 'Encoding leaves the value untouched and returns private bytes',
  "Marshalling never modifies the value being marshalled, and the bytes it returns share no memory with that value or with the codec, so that changing either afterwards does not affect the other.",
  ['inputs', 'histories'], 'all values and all later uses of the value and the bytes',
  'Tests compare the produced bytes once and never mutate value or result afterwards.',
  ['binary-encode.go', 'json-encode.go', 'amino.go', 'encoder.go'],
  [('fresh buffers', 'amino.go MarshalBinaryBare')], level='proof', technique='interprocedural alias (reference-flow) analysis of value, codec and pooled memory over SSA, with a table of library effects', note=ENG),
P('C13', 'Encoding is deterministic',
  "Marshalling the same value with codecs holding the same registrations always yields the same bytes, in binary and in JSON: the output never depends on map iteration order, time, randomness, memory addresses or goroutine scheduling.",
  ['inputs', 'schedules', 'histories'], 'all values, runs and processes',
  'Go randomizes map order per run; a test passes or fails by luck and covers few map shapes.',
  ['binary-encode.go', 'json-encode.go', 'encoder.go', 'amino.go', 'codec.go'],
  [('sorted map keys', 'json-encode.go encodeReflectJSONMap')], level='proof', technique='effect analysis of everything marshalling reaches, order-taint dataflow from map iteration to writes, comparator analysis, and abstract interpretation of key kinds', note=ENG),
P('C14', 'Encoder, decoder and field keys agree on the wire format of every scalar kind',
  "For each scalar kind and each fixed-width option, the bytes written for a value are read back by the decoder as the same value, the wire type announced in field keys is the one that describes those bytes, and skipping an unknown field of that wire type consumes exactly those bytes.",
  ['inputs', 'configurations'], 'all scalar kinds x fixed32/fixed64 options x all values of the kind',
  'Tests round-trip a few values per kind; sign, width and boundary values of each kind x option are not enumerated.',
  ['binary-encode.go', 'binary-decode.go', 'encoder.go', 'decoder.go', 'reflect.go'],
  [('kind tables', 'binary-encode.go encodeReflectBinary, binary-decode.go decodeReflectBinary, reflect.go typeToTyp3'), ('skipping', 'binary-decode.go consumeAny')], level='proof', technique='abstract interpretation of the Go SSA of both directions: written form and read form of every scalar kind and option compared', note=ENG),
P('C15', 'Integers out of range on the wire are rejected, never truncated',
  "When the binary encoding of an integer holds a value outside the range of the target type, decoding returns an error; a successfully decoded integer always equals the value on the wire. The same holds for the lengths, field numbers and sizes read from the input.",
  ['inputs'], 'all encoded values x all integer kinds, on 32-bit and 64-bit platforms',
  'Only a few overflows are tested, and none on a 32-bit platform.',
  ['decoder.go', 'binary-decode.go', 'amino.go'],
  [('range checks', 'decoder.go DecodeInt8..DecodeUint16, binary-decode.go')], level='proof', technique='abstract interpretation of integer conversions on both word sizes (linear inequalities, path partitioning)', note=ENG),
P('C16', 'Floats are only encoded or decoded when explicitly marked unsafe',
  "A float32 or float64 is encoded or decoded, in binary or JSON, only if the enclosing field is marked unsafe; otherwise the operation returns an error or the type is refused. This holds for floats reached through pointers, lists, maps and top-level values.",
  ['inputs', 'configurations'], 'all types and field options',
  'Tests cover one float field per direction.',
  ['binary-encode.go', 'binary-decode.go', 'json-encode.go', 'json-decode.go', 'reflect.go'],
  [('unsafe check', 'encodeReflectBinary, decodeReflectBinary, encodeReflectJSON, decodeReflectJSON')], level='proof', technique='abstract interpretation: conversions of floats are reached only under the unsafe mark of the options in force; provenance of the options handed to nested operations', note=ENG),
P('C17', 'Decoding into an interface only yields registered types that implement it',
  "Decoding into an interface value, from binary or JSON, only ever stores a value whose type was registered with the codec and implements that interface; an unknown or non-implementing name or prefix in the input gives an error, never a panic or a wrongly typed value. A concrete type that is not registered is never encoded as an interface value.",
  ['inputs', 'configurations'], 'all inputs, registrations and interfaces',
  'Tests decode prefixes of types that do implement the interface.',
  ['binary-decode.go', 'json-decode.go', 'codec.go', 'binary-encode.go', 'json-encode.go'],
  [('implements check', 'binary-decode.go decodeReflectBinaryInterface, json-decode.go decodeReflectJSONInterface')], level='proof', technique='abstract interpretation of the recursive decoders and encoders with symbolic reflect types: a value whose type comes from a lookup is stored only after an implements test on the same two types; flow of registered records into the lookup collections', note=ENG),
P('C18', 'Reading from a reader never consumes more than maxSize',
  "With a positive maximum size, reading a length-prefixed object never reads more bytes in total, prefix included, from the reader than that maximum, and with or without a maximum never reads beyond the end of the announced object. An object larger than the maximum gives an error.",
  ['inputs'], 'all readers, byte streams and maximum sizes',
  'Tests use honest prefixes and a few sizes.',
  ['amino.go'], [('size checks', 'amino.go UnmarshalBinaryLengthPrefixedReader')], level='proof', technique='abstract interpretation counting requested and obtained bytes against the maximum and the announced length', note=ENG),
P('C19', 'DeepCopy shares no mutable memory with the original',
  "The result of a deep copy shares no pointer, slice, map or interface contents with the original (except through a user's own copy method and map keys), so that changing one never changes the other.",
  ['inputs', 'histories'], 'all copyable values and later mutations',
  'Tests copy a few shapes and compare equality; sharing shows only on later mutation.',
  ['deep_copy.go'], [('recursive copy', 'deep_copy.go _deepCopy')], level='proof', technique='abstract interpretation that tracks which memory each value comes from, with reference-flow labels', note=ENG),
P('C20', 'Prefix and disambiguation bytes never start with a zero byte',
  "The prefix bytes and the disambiguation bytes derived from a registered name never start with 0x00, so that a leading 0x00 on the wire unambiguously announces disambiguation bytes followed by prefix bytes, which is how encoder and decoder use it.",
  ['inputs'], 'all names',
  'Tests derive the bytes of a few names; one name in 256 hashes to a leading zero.',
  ['codec.go', 'binary-encode.go', 'binary-decode.go'], [('derivation', 'codec.go nameToDisfix'), ('parsing', 'binary-decode.go DecodeDisambPrefixBytes')], level='proof', technique='abstract interpretation of go/ssa with byte-precise arrays: derivation, storing, writing and lookup of prefix bytes', note=ENG),
P('C21', 'JSON output is always well-formed',
  "Whenever JSON marshalling succeeds its output is one well-formed JSON value: braces, brackets, commas and colons are balanced and placed correctly for any combination of omitted, nil and empty fields, elements and entries, and every name, key and string is escaped.",
  ['inputs', 'configurations'], 'all values, registered names and field names',
  'Tests compare a few outputs; omitted-field combinations and special characters are unbounded.',
  ['json-encode.go', 'amino.go'], [('separators', 'json-encode.go encodeReflectJSONStruct, encodeReflectJSONMap, encodeReflectJSONList')], level='proof', technique='abstract interpretation with a pushdown automaton for JSON text as the typestate of each writer', note=ENG),
P('C22', 'JSON encoder and decoder agree on every scalar kind',
  "In JSON, 64-bit-capable integers (int, uint, int64, uint64) are always written as quoted decimals and only accepted quoted, and all other scalars are written and read unquoted in the standard encoding, so that what one side writes the other side reads back as the same value (strings being valid UTF-8).",
  ['inputs', 'configurations'], 'all scalar kinds and values',
  'Tests sample values of some kinds.',
  ['json-encode.go', 'json-decode.go'], [('kind tables', 'json-encode.go encodeReflectJSON, json-decode.go decodeReflectJSON')], level='proof', technique='abstract interpretation of the recursive JSON encoders and decoders per scalar kind: symbolic text written and byte ranges read are compared on every path', note=ENG),
P('C23', 'All entry points agree with the bare operations they wrap',
  "Each package-level function does exactly what the codec method of the same name does on the default codec, each Must variant returns the same result and panics exactly when the plain one returns an error, and the length-prefixed form is exactly the uvarint of the length followed by the bare form; the writer, reader and indented forms carry exactly those bytes and fail only when the bare operation, the stream, or the size limit does.",
  ['inputs'], 'all arguments',
  'Tests call a few of the wrappers on a few values.',
  ['amino.go'], [('wrappers', 'amino.go')], level='proof', technique='abstract interpretation of go/ssa comparing every end of every entry point with the bare operation it wraps', note=ENG),
P('C25', 'The top-level field key is written exactly for the types that read it',
  "For every type, bare binary marshalling wraps the value in field number 1 exactly when bare unmarshalling into that type expects the wrapper, with the same wire type and the same length-prefixing, also when the value is decoded through an interface.",
  ['programs', 'configurations'], 'all shapes of types (kind, element kind, pointers)',
  'Tests use a few top-level types; the conditions on the two sides are written differently.',
  ['amino.go', 'binary-decode.go', 'binary-encode.go'], [('wrapper conditions', 'amino.go MarshalBinaryBare, UnmarshalBinaryBare'), ('interface contents', 'binary-decode.go decodeReflectBinaryInterface')], level='proof', technique='abstract evaluation of both sides over every shape of type, comparing the forms written and read', note=ENG),
P('C27', 'Binary encoder and decoder accept exactly the same range of times',
  "Encoding a time in binary succeeds exactly when its seconds lie in the documented range (year 1 up to but excluding year 10000), and decoding accepts exactly the same seconds together with nanoseconds from 0 to 999999999; anything else gives an error in both directions.",
  ['inputs'], 'all times and all encoded seconds and nanoseconds',
  'Boundary values on both sides are sampled, not covered.',
  ['encoder.go', 'decoder.go'], [('range checks', 'encoder.go EncodeTime, decoder.go decodeSeconds, decodeNanos')], level='proof', technique='abstract interpretation with linear facts about the numbers written and read', note=ENG),
P('C28', 'Every exported field is encoded once, under its own position number',
  "The fields of a struct that take part in encoding are exactly its exported fields not excluded by a json dash tag, numbered consecutively from one in declaration order, and both directions of both formats walk the same list.",
  ['programs'], 'all struct types and tags',
  'Tests use a fixed set of struct types.',
  ['codec.go'], [('field enumeration', 'codec.go parseStructInfo')], level='proof', technique='abstract interpretation of every loop over the fields of a struct type: induction over the turns of the loop (which entry is made or used, under which number and name, with what evidence a field is left out) and a typestate that success requires the last turn', note=ENG),
P('C29', 'The aminoscan tool never crashes on malformed bytes',
  "Scanning any byte sequence with the aminoscan tool prints what could be read and an error; no input makes it index or slice out of range, panic or loop for ever.",
  ['inputs'], 'all byte sequences',
  'The tool has no tests.',
  ['cmd/aminoscan/aminoscan.go'], [('scanner', 'cmd/aminoscan/aminoscan.go scan*')], level='proof', technique='abstract interpretation of the aminoscan main function over go/ssa: linear arithmetic over lengths, loop invariants and progress measures', note=ENG),
P('C32', 'Size helpers equal the encoded length',
  "For every argument, the exported helpers that predict the encoded size of a varint, a uvarint and a byte slice return exactly the number of bytes that the corresponding encoder writes.",
  ['inputs'], 'all 64-bit values and all byte slices',
  'Tests sample a few values around powers of two.',
  ['encoder.go'], [('size helpers', 'encoder.go UvarintSize, VarintSize, ByteSliceSize')], level='proof', technique='abstract interpretation of go/ssa partitioned by bit length, exact linear integer arithmetic', note=ENG),
P('C34', 'A successful decode overwrites the whole target',
  "After binary decoding succeeds, no part of the target keeps what it held before: every encoded field, array element and scalar has been set from the input or to its default value, and slices and interfaces have been replaced.",
  ['inputs', 'histories'], 'all inputs and all previous contents of the target',
  'Tests decode into zero values, where stale contents cannot show.',
  ['binary-decode.go'], [('defaults for absent fields', 'binary-decode.go decodeReflectBinaryStruct')], level='proof', technique='abstract interpretation of the recursive binary decoders: typestate of the target over every path, induction over the turns of loops over fields and elements, provenance of stored values', note=ENG+'The type information handed to a decoder describes the type of its value. '),
P('C35', 'Coding a value of any supported type never misuses it',
  "Encoding or decoding a value of any type built from supported kinds, in binary or JSON, never panics because of its type, its nil pointers or its nil interfaces: every value met inside it is used only as its kind and addressability allow and is coded by the description of its own type, and what an interface holds is never handed to its own methods instead of being coded under its registered name. Documented exceptions: nil pointers passed to binary marshalling or held in interfaces, and pointers to interfaces.",
  ['programs', 'inputs'], 'all types built from supported kinds, and all nil patterns inside values',
  'Tests use a few dozen types; a misuse shows only for the combination of kind, pointer depth, field tag and addressability that has it.',
  ['binary-encode.go', 'binary-decode.go', 'json-encode.go', 'json-decode.go', 'reflect.go'], [('recursive coders', 'encodeReflectBinary, decodeReflectBinary, encodeReflectJSON, decodeReflectJSON and all they call'), ('nil pointers', 'reflect.go derefPointers, isDefaultValue')], level='proof', technique='abstract evaluation of the coders over a domain of type shapes, by worklist to a fixpoint', note='Types nested to two levels stand for deeper ones, since the state of a coder is one type and its elements. The methods of user types are not evaluated. '),
]

PROPS += [
P('N01', 'Decoding an encoded value yields an equal value',
  "For every supported value, decoding its binary or JSON encoding with the same registrations yields a value equal to the original, up to the documented normalization of nil, empty and time values.",
  ['inputs', 'programs'], 'all values of all supported types',
  'Round trips are only sampled by the fuzz tests.',
  ['binary-encode.go', 'binary-decode.go', 'json-encode.go', 'json-decode.go'], [('recursive encoders and decoders', 'encodeReflect*, decodeReflect*')],
  na="whole-value round-trip equality quantifies over runtime values of arbitrary recursive types; its clauses that show in the code (scalar wire formats, wrappers, framing, field enumeration, overwriting) are claimed separately as C10, C14, C22, C25, C28 and C34"),
P('N02', 'Binary encoding is byte-compatible with Protocol Buffers 3',
  "For types expressible in proto3, the binary encoding is a valid proto3 encoding of the corresponding message and is understood by any proto3 implementation.",
  ['inputs', 'programs'], 'all types expressible in proto3 and all values',
  'Only a few messages are compared with generated protobuf code.',
  ['binary-encode.go', 'encoder.go'], [('field keys and wire types', 'binary-encode.go')],
  na="byte equality with another implementation's output is a numerical result over runtime values with no oracle in the source; the structural part (wire type per kind) is claimed as C14"),
P('N03', 'Deeply nested input cannot exhaust the stack',
  "No input, however deeply nested, makes decoding overflow the goroutine stack.",
  ['inputs'], 'all byte sequences and recursive types',
  'Tests nest a few levels.',
  ['binary-decode.go', 'json-decode.go'], [('recursion', 'decodeReflectBinary')],
  na="stack depth is bounded only by a runtime quantity (nesting of recursive types times the runtime's stack limit) and the code sets no limit that a static rule could check"),
]
