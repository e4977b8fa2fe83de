#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json and /verif/tools/levels.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = {}
COMMON = ["the harness' own references (JSON and MessagePack readers, writers and documented images) are right where they agree with the code on the unchanged tree",
          "serde, serde_derive and the buffer crates behave as documented"]
def c(id, technique, note, rule, extra=(), level="exploration"):
    C[id] = dict(technique=technique, note=note, rule=rule, assumptions=COMMON + list(extra), level=level)
MON = "Runtime monitoring of the real crates, debug+std and release+no_std builds: "
c("J01", "runtime monitoring: online round-trip oracle over random serde types and values",
  MON + "every value of randomly built serde types is written and read back and compared bit by bit where JSON can carry it; all 16-bit integers and all chars exhaustively, all 2^32 f32 values in the thorough tier.",
  "A case is a random type (schema of all serde kinds) and a value of it, or one of the enumerated scalars, written in one byte mode and read back; it counts as distinct by the JSON text produced.")
c("J02", "runtime monitoring: independent strict JSON parser as oracle over serializer output",
  MON + "each output is parsed by an independent RFC 8259 parser that rejects whitespace and must equal the documented image of the value.",
  "A case is a random type and value or a scripted Serialize implementation; distinct by output text.")
c("J03", "runtime monitoring: reference renderer spells values freely, decoded value compared",
  MON + "values rendered by a reference writer with random whitespace, escapes, member order, unknown members and number spellings must decode to the same value, typed and self-described.",
  "A case is one random spelling of one random value; distinct by document text.")
c("J04", "runtime monitoring: three-valued reference decoder judges acceptance of damaged JSON",
  MON + "damaged and token-soup documents: what the reference says is not JSON must be an error into every type tried.",
  "A case is a document damaged by a random edit, a token string, or an exhaustive short token sequence; distinct by document text.")
c("J05", "runtime monitoring: exact big-integer oracle for decoded number lexemes",
  MON + "number lexemes around every boundary and random ones, into every integer type, as value, key and self-described; all 16-bit values and all short lexemes over the number alphabet.",
  "A case is one number lexeme read as one integer type in one position; distinct by lexeme.")
c("J06", "Miri and AddressSanitizer, guard pages and canaries, allocation monitor over hostile inputs",
  MON + "hostile bytes before an inaccessible page and between canaries; panics, aborts, hangs (processor-time limit on replay), allocations and lent slices monitored; the same under Miri, and under AddressSanitizer, Tree Borrows and 32-bit Miri in the thorough tier. Known finding: unbounded recursion on deeply nested input.",
  "A case is a hostile byte string (random bytes, token soup, damaged renderings, all short strings over an alphabet) read as a random type, a tree, ignored and as derived types; distinct by bytes.",
  ["undefined behaviour without a visible effect is only seen by the Miri and AddressSanitizer passes"])
c("J07", "Miri aliasing checks and an online monitor of every lent slice",
  MON + "a monitoring visitor records address and content of every lent slice and re-reads them after the whole document; Miri checks the aliasing rules.",
  "A case is a document decoded into a borrowing type; distinct by document text.")
c("J08", "runtime monitoring: independent codecs as oracle, exhaustive short contents, Miri",
  MON + "independent hex/base64 codecs; every quantum of the alphabet exhaustively for short contents; damaged contents must be rejected.",
  "A case is a byte string or an encoded content in one mode; distinct by text.")
c("J09", "runtime monitoring: reference verdict on key texts and key types",
  MON + "all key kinds round trip; unsupported kinds must give the invalid-key error; damaged key texts are judged by the reference.",
  "A case is a map with random keys of a random kind or one key text read as one key type; distinct by text.")
c("J10", "runtime monitoring: differential decoding with injected ignored values",
  MON + "random ignored values are injected at every position a type ignores; the kept data must be unchanged.",
  "A case is a document with ignored parts replaced by random values; distinct by text.")
c("J11", "runtime monitoring: cursor and value oracle over streams of values off one deserializer",
  MON + "streams of rendered values with random separators and trailing text are read off one deserializer with random targets; value, bytes left, next byte, lent slices and end() are checked at every step.",
  "A case is a text of several values with a target for each; distinct by text.")
c("M01", "runtime monitoring: online round-trip oracle over random serde types and values",
  MON + "every value of random types in each layout is written and read back bit-exactly, with the exact length; 16-bit integers, chars and size classes exhaustively, all 2^32 f32 in the thorough tier.",
  "A case is a random type and value in one layout; distinct by message bytes.")
c("M02", "runtime monitoring: independent MessagePack decoder with minimality check as oracle",
  MON + "an independent decoder reads each message, checks that each header is the shortest and compares with the documented image.",
  "A case is a random type and value or container of a boundary size; distinct by message bytes.")
c("M03", "runtime monitoring: reference encoder chooses any wire form, typed reference decoder judges",
  MON + "values encoded with randomly chosen wire forms must decode to the same value; every wire number into every number type is judged by exact arithmetic.",
  "A case is one encoding of one value read as one type; distinct by bytes and type.")
c("M04", "runtime monitoring: boundary monitor over concatenated and truncated messages",
  MON + "messages followed by arbitrary bytes, streams of messages, every proper prefix, skipping against decoding.",
  "A case is a message with a tail or one of its prefixes; distinct by bytes.")
c("M05", "Miri (32-bit target), guard pages, allocation monitor over hostile inputs",
  MON + "hostile messages before an inaccessible page; panics, aborts, hangs, allocations and lent slices monitored; the same under Miri for a 32-bit target, and AddressSanitizer in the thorough tier. Known finding: unbounded recursion of self-described decoding on deeply nested input.",
  "A case is a hostile byte string (random, damaged, huge claimed lengths) read as a random type, a tree, ignored and skipped; distinct by bytes.")
c("M06", "runtime monitoring: conservation monitor, announced against emitted elements",
  MON + "scripted Serialize implementations announce wrong, missing and right lengths at every nesting; a success must parse with matching counts.",
  "A case is a script of serializer calls with length hints; distinct by script outcome and bytes.")
c("M07", "runtime monitoring: reference encoder of every documented layout",
  MON + "structs and enums encoded in every mixture of names, indexes, arrays, order, unknown and damaged fields.",
  "A case is one encoding of a struct or enum value; distinct by bytes.")
c("S01", "Miri, canaries and an independent model of every sink over operation sequences",
  MON + "random write sequences on every sink against a model, with canaries around memory, under Miri and (thorough) AddressSanitizer.",
  "A case is a sequence of writes into one sink kind and capacity; distinct by sink and sequence.")
c("S02", "fault injection at every write of the sink, prefix and determinism monitor",
  MON + "the sink is made to fail at every write boundary and every byte capacity of an output; result and accepted prefix are compared with the never-failing run, in every sink kind; allocation failures are injected.",
  "A case is one value, serializer and failure point; distinct by output and point.",
  ["Display and Serialize implementations pass on the errors they are given"], "fault_enumeration")
c("S03", "runtime monitoring: collected strings against whole strings, failing and changing formatters",
  MON + "random fragmentations around every length class, as value and key; formatters that fail or change between formattings.",
  "A case is a fragmented text in one serializer and position; distinct by text.")
c("S04", "runtime monitoring: model of one serializer used many times",
  MON + "sequences of values, failing and refusing values, direct writes and raw operations go through one serializer; after each, sink and result are compared with a fresh serializer's; user-defined byte encoders are compared with the same value spelled as text.",
  "A case is a sequence of operations on one serializer; distinct by bytes written and number of failures.")
c("X01", "offline comparison of recorded behaviour logs between builds and interpreted targets",
  "The same seeded cases run in debug/release, std/alloc/no_std and under Miri for a 32-bit and a big-endian target (and the 64-bit host in the thorough tier); per-case digests of every observed output must be equal.",
  "A case is a seeded workload step whose observed bytes, values, lengths and success are logged in every configuration; distinct by input or output bytes.")
c("X02", "runtime monitoring: round trips through serde's buffering, trees against reference parsers",
  MON + "untagged, tagged, flattened and borrowing types through both formats and other spellings; generic trees against the reference parsers; values streamed from a deserializer into a serializer; also with the 32-bit float option.",
  "A case is a value of a self-describing type or a document read as a tree; distinct by document.")
c("X03", "runtime monitoring: model-based monitor over operation sequences of the cursors",
  MON + "random sequences of the public low-level operations against a model of buffer and cursor, with canaries around the buffer.",
  "A case is an operation sequence over a text; distinct by text and operation kinds.")
c("X04", "runtime monitoring: error classification monitor over cut and complete documents",
  MON + "valid documents are cut at many places and must give the end-of-input error; complete ones read as random and slightly different types must not.",
  "A case is a document with its cuts, or a complete document read as several other types; distinct by document.")
c("X05", "runtime monitoring: instrumented allocator and lent-address monitor",
  MON + "a walker that keeps nothing reads valid and damaged documents under a counting allocator; lent addresses are checked to lie in the input, and a digest of what was seen against the value. Serialization into fixed buffers likewise.",
  "A case is a document or a value; distinct by bytes.")
c("X06", "runtime monitoring: processor-time monitor over growing inputs",
  MON + "22 families of JSON texts, 10 of messages, 6 of values, streams and sinks grow by factors of eight from 4 kB to 2 MB; processor time per call must not grow five times faster than the size, measured again before it is reported.",
  "A case is a family with its parameters measured at four sizes; distinct by family, target and mode.")
c("X07", "fault injection at every callback into user code, propagation monitor",
  MON + "every callback of schema-driven values, visitors and seeds is made to refuse with a message of its own and to panic; the result must be that error or panic, with no callback or write after it, a prefix in the sink, and intact buffers.",
  "A case is a value or document with its refused callbacks; distinct by bytes.",
  ["panics unwind"], "fault_enumeration")
c("X08", "runtime monitoring: every position of every value asks for human readability",
  MON + "schema-driven values and visitors ask at every callback; addresses are compared as text in JSON and numbers in MessagePack in every position and round-tripped.",
  "A case is a value and its document; distinct by bytes.")
c("X09", "fault injection into correct input, error-kind monitor",
  MON + "one mistake of one of some hundred known kinds is put at a random node of a correct document, message or tree of the schema's; the error must be of the kind its documentation gives for that mistake. Wrong lengths and inexpressible fields likewise when serializing.",
  "A case is a damaged document or message with its target; distinct by bytes; the evidence counts each kind of mistake.")
c("X10", "runtime monitoring: visitors with random plans, compared with the reference parse",
  MON + "walkers with a random plan for every container (request, order, ignoring, adaptors, leaving early, asking again) go through random documents and messages; every element, key, hint, end and final position is compared with the independent parse, and an incomplete walk must be refused with the documented error.",
  "A case is one to three documents or messages in one buffer with a plan; distinct by bytes; the evidence counts elements, hints, ends and refused early exits.")
c("X11", "runtime monitoring: interference monitor over nested, threaded and interleaved uses; race detector",
  MON + "a use of either format is run alone, then with other uses inside its callbacks (and inside theirs), on several threads with random switches, and in turn with other open serializers or deserializers; everything it gives must be what it gave alone. Miri's race detector watches in the quick tier, ThreadSanitizer (with an instrumented standard library) in the thorough one.",
  "A case is a set of uses with a schedule; distinct by the results of the uses; the evidence counts nested uses, concurrent uses and changes between open ones.")
json.dump({k: {"rule": v["rule"], "assumptions": v["assumptions"], "level": v["level"]} for k, v in C.items()}, open(os.path.join(V, "tools", "levels.json"), "w"), indent=1)
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "checks": [{"property": k, "quick_cmd": "python3 run.py %s quick" % k, "thorough_cmd": "python3 run.py %s thorough" % k, "evidence_file": "evidence/%s.json" % k,
                 "technique": v["technique"], "level": v["level"], "level_note": v["note"] + " Assurance is that of the executions observed, not of all executions."} for k, v in C.items()],
     "not_applicable": [],
     "notes": "No hooks in /repo: everything observed is public (see DESIGN.md). Genuine defects repaired or recorded are listed in known-findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
