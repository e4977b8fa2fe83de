#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to keep the statements readable)."""
import json, os
JS="ser-write-json/src/ser.rs"; JD="ser-write-json/src/de.rs"; B64="ser-write-json/src/base64.rs"
MS="ser-write-msgpack/src/ser.rs"; MD="ser-write-msgpack/src/de.rs"; ML="ser-write-msgpack/src/lib.rs"; JL="ser-write-json/src/lib.rs"
SW="src/lib.rs"; FO="src/foreign.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("J01","JSON round trip returns the serialized value",
  "Every value of a serde type the JSON serializer accepts (integers up to 64 bits, floats, chars, strings, bytes, options, newtypes, sequences, tuples, maps, structs, all enum variant kinds, arbitrarily nested) is restored by the JSON deserializer into an equal value of the same type when the matching byte-string mode is used on both sides. The only allowed differences are those JSON itself imposes: a NaN or infinite float comes back as NaN and the sign of a floating point zero may be lost.",
  ["inputs","programs"],"all data-model shapes (types) and all values of those types, all byte-string modes",
  "Tests round-trip a handful of hand-written structs; the type/value space (nesting x contents x escapes x numeric extremes) is unbounded.",
  [JS,JD],[("Serializer impl for every serde type",JS),("Deserializer impl for every serde type",JD)],observe=["to_writer*/to_string*","from_mut_slice*"])
p("J02","JSON output is well-formed, compact, and denotes the value",
  "Whenever JSON serialization succeeds (without pass-through bytes) the output is exactly one valid UTF-8 RFC 8259 JSON text with no insignificant whitespace, no unescaped control characters, and nothing before or after it. An independent JSON parser reads from it the documented image of the value: exact decimal integers, numbers that parse back to the same float, null for non-finite floats, structs and maps as objects with members in order, sequences as arrays, unit variants as strings and other variants as one-member objects.",
  ["inputs","programs"],"all serializable values and types, all non-pass-through byte modes",
  "Tests compare a few literal strings; commas, nesting closers, escapes and number formatting must be right in every combination.",
  [JS,JL],[("escape table and formatting of strings",JS),("integer formatting into fixed buffers",JS),("comma/bracket emission in compound serializers",JS)],observe=["bytes given to the writer"])
p("J03","JSON reads any valid document however it is formatted",
  "For every value of a supported type, every valid JSON rendering of it is deserialized to that same value: any insignificant whitespace, any choice of escape sequences for the characters of strings, chars, text keys and names (short escapes, \\u escapes in either hex case, UTF-16 surrogate pairs, escaped solidus), any member order, unknown members in between, structs given as objects or as arrays, any decimal or exponent spelling of floats. The same holds when the document is read in a self-describing way.",
  ["inputs"],"all values x all spellings of the JSON text",
  "Tests use one or two spellings per value; the escape/whitespace/order combinations and their in-place unescaping interactions are unbounded.",
  [JD],[("in-place string unescaping",JD),("whitespace skipping and comma handling",JD),("struct from map or seq",JD)],observe=["from_mut_slice*"])
p("J04","Malformed JSON is rejected",
  "A text that is not structurally JSON is never deserialized successfully, into any type: truncated documents, unbalanced or mismatched brackets, missing, doubled, leading or trailing commas, missing colons, non-string keys, misspelt literals, unterminated strings, raw control characters in strings, and non-whitespace after the value are all errors. Where a string's or number's content is actually decoded, invalid escapes, unpaired surrogates, invalid UTF-8 and number lexemes that are not numbers are errors too, as is, for ignored and generic values, a beginning no JSON value has.",
  ["inputs"],"all byte strings that are not JSON documents, all target types",
  "Tests try a few dozen malformed inputs; every position of every document can be corrupted.",
  [JD],[("sequence/map comma state",JD),("end-of-input check",JD),("escape and UTF-8 validation",JD)],observe=["Result of from_mut_slice*"])
p("J05","JSON integers are decoded exactly or rejected",
  "Deserializing a JSON number (as a value, as a map key, or self-described) into any 8 to 64 bit integer type yields exactly the written number or an error; out-of-range, fractional or otherwise non-integer lexemes never produce a wrapped, truncated, saturated or partially read value. Every integer in the type's range, including both extremes, is accepted in plain decimal notation.",
  ["inputs"],"all integer types x all decimal lexemes",
  "Tests check a few constants per type; range edges, digit counts and overflow points need systematic coverage.",
  [JD],[("checked positive/negative accumulation",JD),("numeric map keys",JD)],observe=["integers produced by the deserializer"])
p("J06","JSON decoding is total and memory-safe on arbitrary bytes",
  "For any input bytes and any target type, JSON deserialization returns a value or an error after finitely many steps: it never panics, crashes or hangs, never has undefined behaviour, and never reads or writes outside the buffer it was given. Every string slice it hands out is valid UTF-8, and its own memory use does not grow with anything but the input size.",
  ["inputs","configurations"],"all byte buffers, all target types and byte decoders, debug and release builds",
  "Tests are a finite list of well-chosen inputs; unsafe code (buffer splitting, unchecked UTF-8, unchecked writes) must be right for all of them, and differs between debug and release.",
  [JD,B64],[("buffer splitting with raw parts",JD),("unchecked in-place byte writes",JD),("unchecked base64 decode cells",B64)],observe=["panics, sanitizer reports, guard bytes around the buffer, allocator counters"])
p("J07","Borrowed JSON data is stable, disjoint and inside the input",
  "Every string or byte slice that JSON deserialization lends to the caller lies within the caller's input buffer, overlaps no other lent slice, and still holds exactly the decoded content after the whole document (including later in-place unescaping and decoding) has been processed.",
  ["inputs","histories"],"all documents with any number of borrowed strings and byte strings, all byte decoders",
  "A later in-place write clobbering an earlier slice needs particular sequences of escapes, arrays and encoded strings that unit tests do not combine.",
  [JD,B64],[("split of parsed prefix from the remaining input",JD),("in-place decode of strings/arrays",JD)],state=[("input/index","remaining buffer and cursor",JD)],observe=["slices passed to visitors: address, length, content over time"])
p("J08","JSON byte-string codecs are exact inverses and validate input",
  "Bytes serialized as a number array, hex string or base64 string decode back to the same bytes with the matching reader, and the encoded text is the documented one (numbers 0-255, two upper-case hex digits per byte, RFC 4648 base64 without padding); pass-through bytes appear verbatim. The hex and base64 readers accept the standard spellings (either hex case, optional padding), decode in place to exactly the RFC result, and reject characters outside the alphabet, odd hex digit counts and unterminated strings.",
  ["inputs"],"all byte strings of all lengths, all encoded texts",
  "Tests check fixed vectors; the chunk/remainder paths depend on length mod 2/3/4, the position of the terminator and of bad characters.",
  [JS,JD,B64],[("base64 encode/decode",B64),("hex encode/decode",JS+", "+JD),("array-of-numbers bytes",JD)],observe=["encoder output", "decoder output and returned lengths"])
p("J09","JSON map keys survive as strings; unsupported keys are refused",
  "Maps keyed by integers, bools, chars, strings, unit enum variants, or newtypes and text-formatted values of these serialize to objects whose keys are JSON strings, and deserialize back to the same keys and values. Serializing any other key type (floats, bytes, options, unit, sequences, maps, structs, data-carrying variants) fails with the invalid-key error instead of producing a malformed object, and a key text that is not exactly one such key (leading whitespace aside) is rejected on input.",
  ["inputs","programs"],"all key types and key values, map contents and positions",
  "Tests cover a few key types with one value each.",
  [JS,JD],[("object key serializer",JS),("object key deserializer",JD)],observe=["serialized text", "decoded maps"])
p("J10","Skipping unknown JSON values consumes exactly those values",
  "When the target type ignores part of a document (unknown members, ignored elements), each ignored value of any kind and nesting is consumed exactly, so that everything after it is decoded as if the ignored value had been anything else. Ignoring never changes the bytes of, or the result for, data that is kept.",
  ["inputs"],"all ignored values (strings ending in any backslash run, numbers, nested containers) in all positions",
  "Tests skip a couple of simple members.",
  [JD],[("string skipping by backslash parity",JD),("number skipping",JD),("ignored containers",JD)],observe=["values decoded after an ignored one"])
p("J11","One JSON deserializer reads successive values exactly",
  "A JSON deserializer object that has decoded or ignored one value stands directly behind that value, so a text of several values (separated by whitespace, or by nothing after a string, array or object) is read back value by value through the same object, each as any type, as a generic tree or ignored, exactly as if it stood alone. What was lent from earlier values stays intact while later ones are decoded, and finishing succeeds exactly when only JSON whitespace is left (where reading on reports the end of input), reporting trailing characters otherwise; reading on where no value begins is an error.",
  ["histories","inputs"],"all sequences of values, target types, separators, byte modes and trailing texts",
  "Tests decode one document per deserializer; the cursor left behind each kind of value, after in-place unescaping has shortened the input, only matters when something follows.",
  [JD],[("cursor after each kind of value",JD),("input shortened by lending",JD),("end-of-input check",JD)],state=[("input, index","the unread rest of the text and the cursor in it",JD)],observe=["values, remaining length, next byte and end() of one deserializer"])
p("M01","MessagePack round trip returns the serialized value",
  "Every value of a serde type that a MessagePack serializer accepts, in each of the three layouts (compact arrays, index-keyed maps, name-keyed maps) whose field and variant identifiers the type recognizes (derived types recognize both), is restored by the deserializer to an equal value of the same type, bit-exactly for floats. The deserializer reports exactly the number of bytes the serializer produced.",
  ["inputs","programs"],"all data-model shapes and values x three layouts",
  "Tests round-trip selected structs; size classes, nesting and layout interplay are unbounded.",
  [MS,MD],[("three serializer flavours",MS),("deserializer",MD)],observe=["to_writer*/to_vec*","from_slice"])
p("M02","MessagePack output is spec-conformant and minimal",
  "Successful serialization emits exactly one MessagePack object that an independent decoder of the specification reads as the documented image of the value for the chosen layout (arrays vs. index-keyed vs. name-keyed maps, variant indexes vs. names, single-entry map for data-carrying variants, big-endian payloads). Every integer, string, binary, array and map header uses the shortest encoding the specification allows for it.",
  ["inputs","programs"],"all values x three layouts, every length and integer size class and boundary",
  "Tests check sample constants; an off-by-one at any size-class boundary or in any width-specific path corrupts the stream.",
  [MS,ML],[("integer narrowing",MS),("length headers",MS),("struct/variant layouts",MS)],observe=["bytes given to the writer"])
p("M03","MessagePack reads every valid encoding and converts numbers safely",
  "A value is decoded identically from every encoding the specification allows for it: non-minimal integer and length forms, signed or unsigned integer families, 32 or 64 bit floats (only identifiers are restricted to the documented forms: strings or unsigned integers of up to 32 bits, and fixmap for the wrapper of a data-carrying variant). Integers of any wire type convert to any integer type exactly or fail; floats accept any numeric wire type (nil as NaN); a value of an incompatible wire type is an error, never a misread.",
  ["inputs"],"all values x all wire representations x all requested types",
  "Tests exercise minimal encodings and a few widened ones.",
  [MD],[("marker dispatch",MD),("checked integer conversion",MD)],observe=["from_slice results"])
p("M04","MessagePack message boundaries are exact",
  "Decoding a message from a longer buffer consumes exactly that message and returns the exact remaining tail, whatever follows it, so concatenated messages are read back one by one. Skipping a message without decoding (including extension types and any nesting) consumes the same bytes as decoding it, and every proper prefix of a message yields the unexpected-end error from the skipper and an error from the decoder.",
  ["inputs","histories"],"all messages, all tails, all cut points, streams of any number of messages",
  "Tests cut a few messages at a few places.",
  [MD],[("length computation in the skipper",MD),("tail computation",MD)],observe=["consumed length, tail, errors"])
p("M05","MessagePack decoding is total on arbitrary bytes",
  "For any input bytes and any target type, MessagePack deserialization and message skipping return a value or an error after finitely many steps, never panicking, crashing, hanging or overflowing arithmetic, on 32-bit as well as 64-bit targets. Strings handed out are valid UTF-8, lent slices lie inside the input, and no memory is allocated in proportion to lengths merely claimed by the input.",
  ["inputs","configurations"],"all byte buffers, all target types, 32/64-bit, debug/release",
  "Tests are a finite list of inputs run on one 64-bit host.",
  [MD],[("checked slicing",MD),("length arithmetic",MD)],observe=["panics, sanitizer/interpreter reports, allocator counters, lent slices"])
p("M06","MessagePack announced lengths always match emitted elements",
  "If serialization into MessagePack succeeds, every container holds exactly the number of elements its header announces: unknown lengths, too few or too many elements or complete entries, and fields skipped where the layout cannot express it are reported as errors, never as a successful corrupt message. Legitimately skipped struct fields (any in map layouts, trailing ones in the compact layout) leave the other fields decodable to their own values.",
  ["programs","inputs"],"all (possibly misbehaving) serialize implementations, all skip patterns, three layouts",
  "Tests try a few mismatches per container kind.",
  [MS],[("remaining-length counters",MS),("field skipping rules",MS)],observe=["Ok/Err and bytes of each serialization"])
p("M07","MessagePack structs and enums decode from every documented layout",
  "Structs decode identically from arrays and from maps whose keys are field names, field indexes, or a mixture, in any order and with unknown fields (any value, including extensions) skipped; enum variants decode from names or indexes of any unsigned encoding up to 32 bits. Wrong element counts, unknown variants, missing or duplicate fields and payloads of the wrong kind are errors rather than silently accepted.",
  ["inputs"],"all struct/enum types, all layouts, orders, key encodings and unknown-field payloads",
  "Tests cover a few layouts of small types.",
  [MD],[("struct from map or array",MD),("identifier decoding",MD),("trailing element detection",MD)],observe=["from_slice results"])
p("S01","Provided sinks append exactly the written bytes or fail cleanly",
  "For every provided output sink (slice writer, vectors, deques, cursors, fixed-capacity and small vectors, references to them), after any sequence of successful writes its content is the previous content followed by exactly the written bytes in order. A write that does not fit fails with the buffer-full error without panicking or touching memory outside the sink, and leaves the previously written bytes intact; writes that fit never fail.",
  ["histories","inputs","configurations"],"all operation sequences (write, write_byte, write_str, clear, split), capacities and sizes, all sinks",
  "Tests perform one or two writes per sink.",
  [SW,FO],[("slice writer cursor arithmetic",SW),("foreign sink impls",FO)],state=[("buf/len","populated prefix",SW)],observe=["sink content, Ok/Err of each operation"])
p("S02","Writer failures always surface and never corrupt what was written",
  "For every value, serializer and byte mode, if the sink fails at any write the serialization returns the sink's own error (the formatting error, where the value's own text formatting was interrupted) and the bytes accepted so far are a prefix of the output a never-failing sink would have received; if the sink never fails the result does not depend on the sink or on how it stores data. In particular serialization into a buffer of n bytes succeeds exactly when the complete output fits in n bytes, and an allocation failure in a growing vector or deque is an error, not an abort.",
  ["fault_sequences","inputs"],"every write call index at which the sink can fail, every capacity from 0 to the full output length, all values and serializers",
  "Tests truncate the buffer for a few values; dropping one error result in one branch is invisible to them.",
  [JS,MS,SW,FO],[("? propagation on every write",JS+", "+MS)],observe=["write log, Ok/Err"])
p("S03","Text-formatted values serialize as one correct string",
  "A value serialized through its text formatting (collected string), whatever fragments it formats into, whether as a value or a map key, produces the same bytes as serializing the complete text as a string, in JSON and MessagePack, with and without heap support. If the formatting fails, the result is an error; if it yields different text when formatted again, the result is an error or a well-formed string. A corrupt message is never reported as success.",
  ["inputs","programs","configurations"],"all fragmentations and contents, all string size classes, failing and unstable formatters, std/alloc/no_std",
  "Tests format a couple of short values; the two-pass no-heap path and escapes at fragment edges are barely exercised.",
  [JS,MS],[("streaming string collector",JS),("two-pass length counting collector",MS)],observe=["bytes given to the writer, Ok/Err"])
p("S04","A serializer keeps no memory of the values it has written",
  "A serializer used for several values one after another, with bytes written directly to its sink in between, with byte encoders of the user's own, and after values that failed (refused by their own implementation, keys of invalid types, wrong lengths, a full sink), writes for every value exactly the bytes and returns exactly the result of a fresh serializer. The sink seen through it, and given back at the end, is always the given one with exactly these bytes in order; the raw hexadecimal and text operations append their output and nothing else.",
  ["histories","inputs"],"all sequences of values, failures, direct writes and raw operations on one serializer of every kind, all sinks",
  "Tests serialize one value per serializer; depth, first-element or key state left behind by a failure shows only in the next value.",
  [JS,MS],[("serializer objects and compound serializers",JS+", "+MS),("ByteEncoder implementations and raw operations",JS)],state=[("output","the sink",JS+", "+MS)],observe=["bytes and result after every operation"])
p("X01","All build configurations and platforms behave the same",
  "Serialized bytes, decoded values and success or failure of every operation (for types whose text formatting is deterministic) are the same with std, alloc only, and neither, in debug and release builds, and on 32-bit and big-endian targets; only the wording and detail of error values may differ.",
  ["configurations","inputs"],"std/alloc/no_std x debug/release x 64-bit/32-bit/big-endian, all inputs",
  "Each configuration runs the same few tests in isolation on one host; nothing compares them on common inputs.",
  [JS,JD,MS,MD,SW,FO],[("cfg-dependent code",JS+", "+JD+", "+MS+", "+MD)],observe=["digest of results per configuration"])
p("X02","Self-describing decoding preserves structure in both formats",
  "Types that need a self-describing format (untagged, internally and adjacently tagged enums, flattened structs, generic value trees) decode from both formats to the value that was serialized, and decoding a document into a generic tree yields the same structure an independent parser sees (integers exact when they fit 64 bits, other numbers as the nearest float, of 32-bit precision when that option is enabled for JSON). Handed on element by element to a serializer of either format, a value of unknown type comes out as the same value.",
  ["inputs","programs"],"all documents and all such types",
  "Tests decode a few any-typed values and two or three tagged types.",
  [JD,MD],[("type dispatch on the next token",JD),("marker dispatch",MD)],observe=["visitor events of self-describing decoding"])
p("X03","Low-level cursor operations follow their documented contract",
  "In any sequence of the public low-level parsing operations of either deserializer (peek, advance, remaining length, skip whitespace, read token, number, string, split input, fetch, skip message, finish), each operation returns what a simple model over the buffer and a cursor predicts, including with the cursor at or beyond the end, where the documented end-of-input error (or zero remaining) is returned instead of a crash.",
  ["histories","inputs"],"all operation sequences over all buffers",
  "Tests call a few of these in one fixed order.",
  [JD,MD],[("cursor helpers",JD+", "+MD)],state=[("index","cursor, may exceed the input length",JD+", "+MD)],observe=["results of each call, remaining input"])
p("X04","Cut-off input is told apart from invalid input",
  "Decoding (as any type, as a generic tree, or ignoring) a proper prefix of a valid document, as the type the whole document decodes to, fails with the end-of-input error in both formats, so that a caller knows that more bytes can help; a JSON text cut inside a number or inside an escaped surrogate pair, or that is itself complete, is exempt, and so are generic trees of documents they refuse. Conversely decoding a complete valid document never gives the end-of-input error, whatever type it is decoded as.",
  ["inputs","crash_points"],"every cut position of every valid document or message, all target types",
  "Tests cut a few documents at a few places; every branch that reads another byte has its own way to run out of input.",
  [JD,MD],[("end-of-input errors of every read",JD+", "+MD)],observe=["the error value"])
p("X05","The formats allocate nothing; text and bytes are lent",
  "Reading allocates no heap memory of its own: decoding either format into types that do not allocate, ignoring and skipping perform no allocation (apart from the message of an error raised by the target type), and every string or byte array asked for as borrowed or read generically is lent out of the input rather than copied, escapes and byte encodings included. Writing into a fixed buffer allocates nothing either, whether it fits or not; only text formatted by the value itself may be buffered by the MessagePack serializer when heap support is on.",
  ["inputs","configurations"],"all documents, valid or damaged, all types and byte modes, with and without heap support",
  "Tests run with std and look at values only; a temporary buffer somewhere on a rarely used path changes no result.",
  [JS,JD,MS,MD],[("in-place decoding",JD),("slices of the input",MD),("writing through the sink only",JS+", "+MS)],observe=["allocator calls, addresses of lent slices"])
p("X06","Time grows in proportion to the data",
  "The processor time for decoding, ignoring, skipping and serializing grows in proportion to the number of bytes read or written, in both formats and for every provided sink: there is no input, however escaped, padded, nested (within the stack), long or cut off, and no value for which it grows with the square of the size.",
  ["inputs"],"all families of growing documents, messages, values and write sequences",
  "Test inputs are too short for superlinear work (scanning again, moving the rest again, growing a buffer by a constant) to show.",
  [JS,JD,MS,MD,FO],[("string scanning and in-place moves",JD),("message skipping",MD),("buffer growth",FO)],observe=["processor time of single calls"])
p("X07","What the user's own code refuses is final",
  "When a Serialize or Deserialize implementation, a visitor, a seed or a text formatting of the user's fails, at any callback, in either format, the operation stops there: that error (with its message, where messages are kept) is the result, no further callback is made and nothing more is written; a panic passes through in the same way. What was written before is a prefix of the complete output, what was lent before stays as it was, memory outside the buffers is untouched, and a borrowed input buffer is still the caller's.",
  ["fault_sequences","inputs"],"every callback of every value and document, errors and unwinding panics, both formats, with and without heap support",
  "Tests let no implementation fail in the middle; an error swallowed, replaced, retried or answered with closing brackets in one of some hundred places shows only when exactly that callback fails.",
  [JS,JD,MS,MD],[("error propagation from visitors and seeds",JD+", "+MD),("error propagation from values and formatters",JS+", "+MS)],observe=["error values, callbacks and writes after the failure"])
p("X08","Human-readability is reported alike everywhere",
  "JSON says to be human readable and MessagePack says not to be, at every place where a user's implementation can ask: values, keys, elements, fields, variants and their contents, serializing and deserializing; so that types with two representations (addresses and the like) are written and read in the same one everywhere, and round-trip.",
  ["inputs","programs"],"all positions in all values and documents",
  "Tests serialize no type that asks; one helper (de)serializer with the default answer breaks such types in one position only.",
  [JS,JD,MS,MD],[("is_human_readable of each (de)serializer",JS+", "+JD+", "+MS+", "+MD)],observe=["answers given to every callback, bytes"])
p("X09","Errors name the cause their documentation gives",
  "When a document, message or value is refused, the error is the one whose documentation describes what is wrong with it: one mistake of a known kind, anywhere in otherwise correct input, gives that error - a leading, trailing, doubled or missing comma in an array or object, a wrong closing bracket, a missing colon, a control character, a bad escape, surrogate or byte in a string, a value of another kind than the target asks for, a number outside its type, a key that is no string, too many or too few elements, text behind the value, a reserved or extension code, a length the format cannot hold. The target's own errors (missing or repeated field, unknown variant) arrive as such, and every error has a text.",
  ["inputs"],"all correct documents, messages and values, all positions and kinds of a single mistake, all target types",
  "Tests look at one example per error, mostly at the top level; there are some hundred branches that produce one, each reached only by its own mistake at its own place.",
  [JD,MD,JS,MS],[("errors of every parsing branch",JD+", "+MD),("errors of the serializers",JS+", "+MS)],observe=["the error value"])
p("X10","Containers can be taken apart at the visitor's own pace",
  "A visitor may take a container as it likes - under any fitting request (any, sequence, tuple, tuple struct, struct, map, enum, option, newtype), keys and values together or apart, elements kept, ignored or handed to further visitors and adaptors, with or without asking for the end, or asking again after it - and always gets the same elements in order, then nothing, again and again; a remaining count, where one is given, is exact at every step, and the reader stands behind the value afterwards. A visitor that leaves elements unread, or takes a variant for one of another kind, makes the whole operation fail with the documented error, at whatever depth.",
  ["inputs","histories"],"all documents and messages, all interleavings of requests a visitor may make within serde's contract",
  "Tests use derived types, which ask in one fixed order; hand-written visitors, adaptors and partial readers make other histories of calls, and bookkeeping (remaining counts, first-element flags, end checks) is wrong only for some of them.",
  [JD,MD],[("sequence, map and variant access",JD+", "+MD)],observe=["elements, hints and errors seen by visitors", "remaining length"])
p("X11","Uses of the crates do not affect each other",
  "What a use of the crates gives - bytes, value, lent slices, error, and what it leaves in the caller's buffer - depends only on its own input: not on other uses running in other threads at the same time, nor on uses started inside its callbacks (a Serialize or Deserialize implementation, a Display, a writer) at whatever depth, nor on other serializers or deserializers that are open and advanced in turn, nor on what ran before and whether that failed. There is no data race.",
  ["schedules","inputs","histories"],"all sets of uses of both formats, all interleavings of their callbacks on one thread, all schedules on several threads",
  "Tests make one use at a time; shared state (a static buffer, a cached setting, a flag left by a failed use) gives right results until another use runs between two particular steps of the first.",
  [JS,JD,MS,MD,SW],[("buffers of the serializers for text, byte and float output",JS+", "+MS),("state of the deserializers",JD+", "+MD),("writers",SW)],observe=["bytes, values, errors of each use", "data race reports"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
