#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
INC = "include/hpp_proto/"
S, D, M, V = (INC + "binpb/serialize.hpp", INC + "binpb/deserialize.hpp", INC + "binpb/meta.hpp", INC + "binpb/varint.hpp")
B, FT = INC + "binpb.hpp", INC + "field_types.hpp"
DM = INC + "dynamic_message/"
GEN = "src/protoc-plugin/hpp_generator.cpp"

p("P01", "Binary round trip preserves every message value",
  "For every generated message type and every value that can be put in it, serializing to protobuf binary and parsing the bytes back yields an equal value with the same presence of every optional field, the same active oneof alternative and the same list, map and unknown-field contents. Serializing the parsed value again yields the same bytes, and the value that was serialized is left unchanged. This holds for floating-point values bit for bit (NaN payloads and negative zero included), for extreme integers, and for strings and bytes containing any allowed byte.",
  ["inputs", "configurations"],
  "all message types of proto2, proto3 and edition-2023 schemas, all field kinds (scalars of every wire encoding, packed and expanded lists, maps of every key kind, oneofs, groups/delimited fields, recursive and nested messages, extensions), all field values, all five traits",
  "The unit tests round-trip a few dozen fixed messages; boundary values, rare field kinds and their combinations with traits are sampled only once or not at all.",
  [S, D, V, M, FT],
  [("size cache then write pass", S), ("field dispatch by tag", D), ("field meta carries number, encoding and presence", M)],
  ["write_binpb", "read_binpb", "operator=="])

p("P02", "Binary output and input agree with the protobuf wire specification",
  "The bytes written for a message are exactly one valid protobuf encoding of its value: each set field appears under its schema field number with the wire type its schema type, packing and delimited/group encoding call for, no unset field appears, an implicit-presence field appears exactly when it differs from zero, and the announced message size equals the bytes written. Conversely, every valid encoding of a message - fields in any order, scalar fields repeated (last one wins), sub-messages split into several occurrences (merged), lists packed, expanded or mixed, non-canonical varints, empty packed runs, unknown fields interleaved - is accepted and decodes to the value the protobuf specification assigns to it (map entries must start with their key, and tag and length varints must fit 32 bits).",
  ["inputs", "programs"],
  "all message values (write direction) and all valid encodings of them (read direction), judged field by field by an independent schema-driven codec rather than by reading back what was written",
  "Tests compare a few hand-written byte strings; they never produce the unusual but legal encodings other protobuf implementations emit, nor compare the writer with an independent reader.",
  [S, D, V, M, GEN],
  [("tag/wire type selection", M), ("packed and expanded list readers", D), ("generated pb_meta", GEN)],
  ["write_binpb", "read_binpb"])

p("P03", "Parsing hostile bytes is memory safe and accepts exactly the valid inputs",
  "For any byte string whatsoever, parsing into any generated message type terminates without undefined behaviour, without reading outside the input, and without allocating on the strength of a length or count the input does not back up. It reports success exactly when the bytes are a well-formed encoding for that type (complete tags, varints of at most ten bytes, lengths inside the enclosing scope, matching group ends, no field number zero, the declared wire type for known fields) and then holds the decoded value; otherwise it returns an error status and the destination remains a usable object.",
  ["inputs"],
  "all byte strings: random, truncated at every byte, mutated or spliced valid encodings, hostile lengths and nesting, for every message type, trait and input mode",
  "The existing fuzz target is replayed over a small seed corpus and only asserts that nothing crashes in that corpus; unit tests hold some malformed inputs but not truncation at every position or mutation of every field kind.",
  [D, V, INC + "recursion.hpp", INC + "memory_resource_utils.hpp"],
  [("bounds-checked input regions with slope buffer", D), ("varint decoders", V), ("skip of unknown fields", D)],
  ["read_binpb status", "AddressSanitizer/UBSan reports"])

p("P04", "How the input is split into buffers never changes the result of parsing",
  "Parsing the same bytes gives the same status and the same value whether they are given as one contiguous buffer, as one buffer declared readable past its end, or as any sequence of buffers including one-byte and empty ones, with fields, varints, lengths, strings, packed runs and nested messages straddling the seams anywhere. The input buffers are never modified and never read beyond what was handed over.",
  ["inputs", "configurations"],
  "all byte strings (valid and invalid), all ways of cutting them into buffers, all message types and traits",
  "Tests split a handful of messages at fixed places; the number of cut sets is exponential and each cut position exercises a different hand-over path.",
  [D, INC + "binpb/util.hpp", B],
  [("slope/patch buffers joining adjacent chunks", D), ("padded fast path", D)],
  ["read_binpb over ranges of chunks", "padded_input option"])

p("P05", "Every output mode yields the same bytes and stays inside its buffers",
  "Serializing a message into a fresh container, into a reused container, appended to existing data, or through a sink in contiguous, adaptive (the default) or chunked mode with any chunk sizes that mode allows produces the same bytes, and the sink is told the exact total size first. Appending leaves the existing prefix untouched, no byte is ever written outside the buffer a sink handed out, and a chunked sink that runs out of room, or a fixed buffer too small for the message, makes serialization report failure instead of writing past it.",
  ["inputs", "fault_sequences", "configurations"],
  "all message values, all chunk-size sequences including one-byte, misaligned and exhausted ones, all serialization modes and output containers",
  "Tests use one or two chunk sizes on small messages; where a field meets a chunk seam depends on every preceding byte.",
  [S, B, INC + "binpb/concepts.hpp"],
  [("contiguous / adaptive / chunked writers", S), ("out_sink size announcement and chunk iteration", S)],
  ["write_binpb", "append_binpb", "out_sink chunks"])

p("P06", "All storage traits are interchangeable",
  "The same bytes parsed into a message under any of the provided traits (default, stable, polymorphic-allocator, non-owning, and their unknown-field-keeping variants) are accepted or rejected alike and expose the same field values, presence and oneof cases; serializing them gives equivalent encodings. Non-owning messages only borrow from the input and from the supplied memory resource, and remain valid while those live.",
  ["inputs", "configurations"],
  "all byte strings and message types, compared across all traits",
  "Tests run the same fixtures under several traits but compare each with its own expectation on few inputs.",
  [FT, D, S, INC + "memory_resource_utils.hpp"],
  [("traits select containers", FT), ("arena_vector fills views from the memory resource", INC + "memory_resource_utils.hpp")],
  ["values decoded under each trait"])

p("P07", "Unknown fields and extensions survive a parse/serialize cycle",
  "With a trait that keeps unknown fields, every field of the input that the message type does not know - of any wire type, any field number, at any nesting level, interleaved with known fields - is written back byte for byte on serialization; messages that declare extension ranges keep such fields, grouped by field number, with any trait; otherwise they are dropped without affecting known fields. An extension set on a message is read back with the value set, replaces any earlier value, is written so that a peer that knows the extended schema reads it as an ordinary field, leaves other extensions and unknown fields untouched, and is reported as present exactly when it is stored.",
  ["inputs", "histories"],
  "all message types, all unknown-field sequences, all sequences of extension sets/gets over all extension types and values",
  "Tests cover one extension of each type with one value, in one order.",
  [D, S, B, M, FT],
  [("unknown fields stored as raw bytes", D), ("extension access through encoded records", B), ("extension meta generated per field", GEN)],
  ["unknown_fields_ contents", "get_extension/set_extension/has_extension"])

p("P08", "Merging equals parsing the concatenated encodings",
  "Merging a source message into a destination leaves the destination equal to what parsing the concatenation of both encodings gives: set singular fields overwrite, messages merge recursively, lists append, map entries replace by key (non-owning maps list all entries, the last one counting), a set oneof replaces or merges the active alternative, and unset source fields change nothing. The source is not altered when merged by const reference, and merging by move gives the same destination.",
  ["inputs", "histories"],
  "all pairs (and sequences) of message values of all message types and traits",
  "Tests merge two or three fixed messages; interactions of presence, oneofs and nested messages in both operands are combinatorial.",
  [INC + "merge.hpp"],
  [("per-field merge dispatch", INC + "merge.hpp")],
  ["merge", "write_binpb", "read_binpb"])

p("P09", "The recursion limit is enforced exactly, on both directions",
  "A message nested no deeper than the recursion limit in force (default 100, or the limit given in the call) is read and written; one nested deeper makes reading and writing return an error status rather than exhausting the stack. Every nesting construct counts the same - sub-messages, groups, map values, oneof members, repeated messages, and groups inside unknown fields - and no input however deep crashes the program.",
  ["inputs", "configurations"],
  "all nesting depths around and far beyond the limit, all nesting constructs and their mixtures, all limits",
  "Tests try one construct at a few depths with one limit.",
  [INC + "recursion.hpp", D, S],
  [("recursion guard counters", INC + "recursion.hpp")],
  ["read_binpb and write_binpb status"])

p("P10", "String fields only ever accept valid UTF-8 where the schema requires it",
  "Where the schema requires UTF-8 (proto3 and editions string fields with verification), a string that is not valid UTF-8 makes both parsing and serializing fail, in singular, optional, repeated, oneof and map key/value positions alike, and every valid UTF-8 string is accepted unchanged. Bytes fields and proto2 string fields accept any bytes.",
  ["inputs"],
  "all strings over every field position, however the input is segmented",
  "The baseline build disables validation altogether, so its tests cannot observe this.",
  [INC + "binpb/utf8.hpp", D, S, M],
  [("utf8 validation option in field meta", M), ("validation call on read and write", INC + "binpb/utf8.hpp")],
  ["read_binpb/write_binpb status"])

p("P11", "Open enums keep unknown values; closed enums never expose them",
  "A field of an open enum type keeps every 32-bit value it is given through parse and serialize. A field of a closed enum type never holds a value outside the enum after parsing, in singular, optional, list, packed-list, oneof or map-value position: such values are treated as unknown fields, leave the other elements and the previously read value alone, and are retained when unknown fields are kept. (A closed-enum extension is stored undecoded: reading one whose value is outside the enum reports an error.)",
  ["inputs"],
  "all 32-bit enum values, sign-extended and truncated encodings, all field positions, enums with gaps, negative values, aliases and extreme values",
  "Tests use one unknown value in one or two positions.",
  [D, GEN, M],
  [("is_valid predicate generated per closed enum", GEN), ("closed enum branch of the readers", D)],
  ["read_binpb results"])

p("P12", "Any pack and unpack are faithful and type safe",
  "Packing a message into a google.protobuf.Any and unpacking it as the same type returns an equal message, and the type URL names exactly that message type. Unpacking as a different type, or from a malformed type URL or payload, reports an error and never returns a value of the wrong type.",
  ["inputs"],
  "all message types, values, URL prefixes and malformed URLs",
  "Tests pack two types with well-formed URLs.",
  [B],
  [("type_url suffix comparison", B)],
  ["pack_any", "unpack_any"])

p("P13", "The descriptor pool resolves every well-formed schema exactly",
  "For every set of valid file descriptors, in any order that lists dependencies, building the runtime factory succeeds and every message, enum, field, oneof and map entry is found under its fully qualified name with the attributes the schema gives it (number, type, packing, presence, delimited encoding, closedness, UTF-8 requirement, default, containing oneof). Names that are not in the schema are not found, and a descriptor set with a missing dependency or duplicated conflicting file, or bytes that do not decode, makes creation fail with an error rather than crash. (Schemas in which a custom JSON name equals another field's name or JSON name may be refused.)",
  ["programs", "inputs"],
  "all schemas over proto2, proto3 and editions (feature inheritance file to message to field), and truncated or mutated descriptor-set bytes",
  "Tests load the fixed unit-test schemas; feature resolution has a combinatorial space of file, message and field settings.",
  [INC + "descriptor_pool.hpp", "src/dynamic_message/factory.cpp", DM + "factory_addons.hpp"],
  [("feature merge", INC + "descriptor_pool.hpp"), ("name tables", "src/dynamic_message/factory.cpp")],
  ["dynamic_message_factory::create", "field descriptors"])

p("P14", "Dynamic messages behave like a map from fields to typed values",
  "Any sequence of set, modify, clear, append, resize, alias, clone, reset and read operations on a dynamic message, addressed by field name or number, gives the results of a plain value model: a field reads back what was last stored or its schema default, presence and the active oneof member are exact, setting one oneof member clears the others, and clearing one field affects no other. A clone is independent of its source, and an access with the wrong type, an unknown name or a bad index yields the documented error and changes nothing; when an allocation fails, everything but the field being changed is intact and that field can still be read and set. (Elements that resizing a repeated scalar or enum field adds are unspecified until assigned.)",
  ["histories"],
  "all operation sequences over all field kinds and schemas",
  "Tests exercise each accessor once in a fixed script; stale state only shows after specific multi-step sequences.",
  [DM + "message_fields.hpp", DM + "scalar_fields.hpp", DM + "string_fields.hpp", DM + "bytes_fields.hpp", DM + "enum_fields.hpp", DM + "repeated_scalar_fields.hpp", DM + "repeated_message_fields.hpp", DM + "repeated_string_fields.hpp", DM + "repeated_enum_fields.hpp", DM + "repeated_bytes_fields.hpp", DM + "field_refs.hpp"],
  [("per-field storage slots with selection word", DM + "storage.hpp"), ("typed views over slots", DM + "field_refs.hpp")],
  ["message_value_mref / message_value_cref accessors"])

p("P15", "Dynamic and generated messages read and write the same binary format",
  "For every schema, a dynamic message and the generated message of the same type accept the same inputs, expose the same field values and presence, and write encodings of the same value, each readable by the other. This covers packing, groups, maps, oneofs, closed enums, required fields, defaults, UTF-8 checks, the recursion limit and hostile bytes, and holds for contiguous and segmented input and for every output mode.",
  ["inputs", "programs"],
  "all message types, values and byte strings (dynamic messages drop unknown fields by design)",
  "Tests compare both on the unit-test protobuf message with one value set.",
  [DM + "pb_serializer_ext.hpp", DM + "binpb.hpp", D, S],
  [("descriptor-driven reader and writer", DM + "pb_serializer_ext.hpp")],
  ["read_binpb / write_binpb on message_value_mref / cref"])

p("P16", "Memory comes only from the resource the caller supplied",
  "Parsing into, or merging into, a non-owning message with a supplied memory resource takes every byte of message storage from that resource and nothing else, copying such a message allocates nothing, and the message stays valid after the input is released unless the input was declared padded. Working memory comes from the cache resource when one is supplied and is all returned by the end of the call. A message whose containers are polymorphic-allocator ones takes memory only from its resource, never from the global heap. A deallocating resource gets every block back once, with the size and alignment it was requested with. Nothing leaks on success, on a parse error, or on an allocation failure at any point; a failed allocation surfaces as std::bad_alloc and leaves the destination destructible and usable again.",
  ["inputs", "fault_sequences", "configurations"],
  "all inputs and message types, failure injected at every allocation index",
  "Tests never inject allocation failure and never count allocations outside the resource.",
  [INC + "memory_resource_utils.hpp", D, INC + "indirect.hpp", INC + "optional_indirect.hpp", B],
  [("alloc_from / cache_alloc_from options", B), ("arena_vector", INC + "memory_resource_utils.hpp")],
  ["monitoring std::pmr::memory_resource", "global operator new hook"])

p("P17", "flat_map behaves like an ordered associative container",
  "Any sequence of flat_map operations (construction from unsorted, sorted or duplicate input, insert, insert_or_assign, try_emplace, emplace, hint insertion, erase, extract, replace, swap, move, lookup, bounds, comparison) gives the same observable results as std::map with the same comparator, and keys stay sorted, unique and paired with their values at all times, also after a copy of a key or value or a comparison throws (moves do not throw): the map is then still valid and holds nothing that was neither there before nor being inserted. When a bulk construction sees equivalent keys, one of their elements survives (which one is unspecified), and it completes with O(n log n) comparisons on duplicate-heavy input. Memory comes only from the allocators the containers were given.",
  ["histories", "fault_sequences"],
  "all operation sequences over small and large key spaces, duplicate-heavy input, transparent and stateful comparators, throwing element types",
  "Tests use short fixed sequences.",
  [INC + "flat_map.hpp"],
  [("sort_together and unique on two parallel containers", INC + "flat_map.hpp")],
  ["flat_map public API"])

p("P18", "indirect and optional_indirect have value semantics",
  "Copies of indirect and optional_indirect objects are deep and independent, equality compares the held values, moves transfer the value without copying it when allocators are equal, swap exchanges values, and a moved-from object can still be assigned to, copied, swapped, compared and destroyed. Assignment works under aliasing: self-assignment, move assignment from an object held inside the own value when the allocators are equal, and copy assignment of an optional_indirect from one. No operation sequence leaks, double frees, or touches freed memory, with propagating, non-propagating and polymorphic allocators, and when element construction throws.",
  ["histories", "fault_sequences"],
  "all operation sequences over recursive element types and allocator combinations with injected construction failures",
  "Tests do each operation once without aliasing or failure.",
  [INC + "indirect.hpp", INC + "optional_indirect.hpp"],
  [("allocator-extended construct/destroy", INC + "indirect.hpp")],
  ["indirect / optional_indirect public API", "ASan + allocation ledger"])

p("P19", "Default values and presence follow the schema",
  "A freshly constructed (or reset) message has every field absent and reads the default the schema declares for it - integers, special floats, escaped strings and bytes, enums - or the type's zero; a proto2 or explicit-presence field is present after it is assigned, even when assigned its default, and absent after reset, and presence is what decides whether it is written. Absent fields compare equal to absent ones and different from present ones.",
  ["inputs", "programs"],
  "all field types and declared default values, all assignment/reset sequences",
  "Tests check defaults of the unittest protos once; they do not compare against an independent reading of the schema for arbitrary literals.",
  [FT, GEN, DM + "factory_addons.hpp"],
  [("optional<T, Default>", FT), ("default literal emission", GEN)],
  ["field value()/has_value()"])

p("P20", "Every valid schema generates compilable, deterministic, faithful code",
  "For every schema protoc accepts the plugin terminates normally. Whatever the packages, imports, nesting, recursion, maps, groups, oneofs, extensions, services, custom options and default values, and with C++ keywords as names of packages, messages, fields and enum values, it generates headers which compile with clang and gcc, also included twice and from two files of one program, for every trait, and which behave as the schema says: field defaults and presence equal protobuf's, serialized messages are exchanged with protobuf unchanged, and the generator's documented options (explicit presence scopes, namespace and directory prefixes) have the documented effect. Only schemas whose names would collide or be reserved after the mapping to C++ may be refused, with an error response. The same request always yields the same files; a bad request or option gives an error response or a non-zero exit, never undefined behaviour.",
  ["programs"],
  "all valid .proto files and plugin options; malformed plugin requests",
  "The tests compile a fixed set of .proto files.",
  [GEN, "src/protoc-plugin/cpp_lexical_emitter.cpp", "src/protoc-plugin/protoc-gen-hpp.cpp"],
  [("name resolution and keyword escaping", GEN), ("message ordering and dependency-cycle breaking", GEN)],
  ["generated headers", "plugin exit status and output"])

p("P21", "Embedded descriptors equal the schema they were generated from",
  "The file descriptor set embedded in generated code for a .proto file contains, for that file and each of its dependencies exactly once and dependencies available, a descriptor equal to the one protoc produced, string escaping included (up to fields explicitly set to the default value they would have anyway, and source information, which is left out). Loading it in the runtime factory yields a working reflection of exactly those types.",
  ["programs"],
  "all schemas, in particular ones with hostile string literals, options, defaults and many dependencies",
  "Tests compare the descriptor set of one or two files.",
  [GEN, INC + "file_descriptor_pb.hpp", "src/protoc-plugin/cpp_lexical_emitter.cpp"],
  [("descriptor emission as string literal", GEN)],
  ["*.desc.hpp file_descriptors"])

p("P22", "gRPC payloads are exactly the message encoding",
  "Serializing a message for gRPC gives a byte buffer whose concatenated slices are the message's protobuf encoding, with slice reference counts balanced and no slice written after being handed over. Deserializing a byte buffer made of any number of slices of any sizes gives the same message and status as parsing the concatenated bytes, malformed payloads give a failing status, and a buffer without payload reads as an empty message.",
  ["inputs", "configurations"],
  "all messages and byte strings, all slicings, all serialization modes",
  "Tests transfer one small message in one slice.",
  [INC + "grpc/serialization.hpp"],
  [("slice sink and slice range source", INC + "grpc/serialization.hpp")],
  ["serialize/deserialize of grpc::ByteBuffer"])

p("P23", "gRPC calls deliver each message once, in order, and finish once",
  "Over unary, client-streaming, server-streaming and bidirectional calls between this library's clients and servers, every message written is delivered exactly once, in order and unaltered, and the final status and response seen by the client are those the handler finished with. Cancellation, early finish, undecodable or unserializable messages, missing handlers' optional callbacks and handler errors end the call once with the right status (CANCELLED, DEADLINE_EXCEEDED, INTERNAL, or the handler's), each handler and client reactor is told of its end exactly once and released, and nothing aborts, leaks, hangs or uses freed memory.",
  ["schedules", "inputs", "fault_sequences"],
  "all interleavings of concurrent calls, stream lengths, cancel and finish points",
  "The greeter test performs one happy-path call per method.",
  [INC + "grpc/client.hpp", INC + "grpc/server.hpp"],
  [("reactor adaptors", INC + "grpc/server.hpp"), ("call data lifetimes", INC + "grpc/client.hpp")],
  ["client and server event logs"])

p("P24", "Canonical text codecs for bytes, timestamps, durations and field masks",
  "Encoding bytes as padded standard base64, timestamps as RFC 3339 text in UTC ending in Z, durations as decimal seconds ending in s, and field masks as their paths joined with commas follows the protobuf JSON form for every value in range, decoding inverts encoding exactly, and the encoder never writes more than the size it announced. Out-of-range values fail to encode. Decoding any other string yields the value that form assigns to it or fails, without undefined behaviour (field mask paths are kept verbatim, without case conversion; base64 in another alphabet, unpadded or with non-zero trailing bits may be accepted or rejected).",
  ["inputs"],
  "all byte strings, all seconds/nanos pairs and their boundary neighbourhood, all candidate strings including mutated valid ones",
  "Tests check a few values of each.",
  [INC + "json/base64.hpp", INC + "json/timestamp_codec.hpp", INC + "json/duration_codec.hpp", INC + "json/field_mask_codec.hpp"],
  [("encode/decode with max_encode_size", INC + "json/base64.hpp")],
  ["codec encode/decode"])

p("P25", "Concurrent readers of shared immutable state are race free",
  "Threads that concurrently create messages from one shared const factory, and read, compare, copy or serialize shared const messages - generated or dynamic - while working on their own mutable ones, get the results a single thread gets, without data races. The same holds for concurrent first use of generated descriptors.",
  ["schedules"],
  "all interleavings of reader threads over shared factories, descriptors and messages",
  "All existing tests are single threaded.",
  [DM + "factory.hpp", "src/dynamic_message/factory.cpp", INC + "descriptor_pool.hpp", S],
  [("immutable pool after construction", "src/dynamic_message/factory.cpp")],
  ["ThreadSanitizer reports", "per-thread results"])

p("P26", "Compile-time serialization equals run-time serialization",
  "A message serialized or parsed during constant evaluation gives the same bytes, the same value and the same accept/reject outcome as at run time.",
  ["inputs"],
  "all message values and encodings usable in constant expressions, across every code path that distinguishes constant evaluation",
  "Tests evaluate a few static_asserts on fixed messages.",
  [S, D, V, B],
  [("if consteval branches", V), ("consteval write_binpb(lambda)", B)],
  ["constant-evaluated write_binpb/read_binpb"])

p("P27", "JSON text conversion follows the protobuf JSON mapping",
  "Writing any message as JSON gives text that denotes the message under the protobuf JSON mapping, and reading it back gives an equal message; malformed JSON is rejected without undefined behaviour.",
  ["inputs", "programs"],
  "all messages and JSON texts",
  "Tests check fixed texts.",
  [INC + "json.hpp", INC + "json/util.hpp", INC + "json/field_wrappers.hpp", DM + "json.hpp"],
  [("glaze-based reader and writer", INC + "json.hpp")],
  ["read_json", "write_json"])

for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    n = x["statement"].count(". ") + 1
    if n > 3: print("long statement", x["id"], n)
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
open(out, "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P), "properties")
