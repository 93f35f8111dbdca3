DFS = "Exhaustive depth-first enumeration of bounded documents through the real code, against an independent reference encoding"
N = ("Complete within the stated bounds: every document (or blob) is run through the real headers from /repo under AddressSanitizer with exact-size heap buffers. "
     "Trusted: compiler, the reference encoder/decoder in the harness.")
P("C17", "Compact binary documents are read back exactly as written",
  "Every document of fields, raw data and nested objects written by the imperative writer, the span serializer or the streaming serializer is the same byte sequence, of exactly the length the measuring pass announces. "
  "Reading it back by key finds, at every nesting level, exactly the first entry with that key: value, raw bytes and size as written, a typed value only if its size matches, and nothing for absent keys.",
  ["inputs", "programs"],
  "All documents of up to 3-7 entries (thorough 4-9) over entry kinds, 1-3 keys (including textual keys that are prefixes of each other), nesting and 8 combinations of key and size type.",
  "The tests check a few dozen hand-written documents.",
  ["util/compact_binary_parser.hh", "util/compact_binary_serializer.hh", "util/compact_binary_writer.hh"],
  [("two-pass object size measurement", "util/compact_binary_serializer.hh object"), ("size back-patching", "util/compact_binary_writer.hh end_object"), ("skip by stored size", "util/compact_binary_parser.hh get_size_and_offset")],
  DFS, "model_checking", N, "One execution = one document. Non-trivial: non-empty document.",
  [dict(name="c17", src="c17_roundtrip.cc"), dict(name="c17big", src="big.cc", flags=["-DBIG=17"]), dict(name="c17pair", src="pairs.cc", flags=["-DPAIR=17"])], ["Little-endian host; entries and objects fit the chosen size type."])
P("C18", "Parsing any bytes stays in bounds and finds exactly the first matching entry",
  "For any byte sequence, complete, truncated or corrupt, key lookups terminate, never read outside the given bytes, and return the first well-formed entry with that key: the exact bytes if they lie inside the data and no value or an empty view if the entry is absent or its stored size runs past the end. "
  "This holds for all key kinds and all integer size types, including sizes near the type's limits.",
  ["inputs"],
  "All blobs of up to 6-10 bytes (thorough 8-13) over small byte alphabets for 5 key/size type combinations; all sequences of up to 2 (3) entries whose size fields take boundary values for 8 size types, cut at every length.",
  "The tests parse a few well-formed blobs.",
  ["util/compact_binary_parser.hh"], [("bounds-checked advance", "util/compact_binary_parser.hh advance"), ("stored size compared with what is left", "util/compact_binary_parser.hh get/get_node")],
  "Exhaustive enumeration of blobs through the real parser against a reference decoder", "exploration", N,
  "One evaluation = one blob with every lookup key. Non-trivial: at least one key is found.",
  [dict(name="c18", src="c18_parser.cc")], ["A zero-length entry that ends the data may be reported as absent or as empty."])
P("C19", "Writers never leave their buffer and always report the size needed",
  "Writing any document into a buffer of any size, including zero, changes no byte outside the buffer; the bytes inside equal the corresponding prefix of the complete document, bytes after the document stay untouched, and the reported size is that of the complete document. "
  "Ending an object that was never begun has no effect, and nesting deeper than supported disturbs nothing but the sizes of the too-deep objects.",
  ["inputs", "programs"],
  "All documents of up to 3-6 entries, each written into every buffer size from 0 to two beyond its length, for 8 configurations incl. nesting limits 1, 2 and 8.",
  "The tests check one or two overflow cases.",
  ["util/compact_binary_writer.hh", "util/compact_binary_serializer.hh"], [("position compared with buffer size before each byte", "emit"), ("bounded back-patching and nesting stack", "util/compact_binary_writer.hh begin_object/end_object")],
  DFS, "model_checking", N, "One execution = one document, written into every buffer size. Non-trivial: non-empty document.",
  [dict(name="c19", src="c19_bounds.cc"), dict(name="c19big", src="big.cc", flags=["-DBIG=19"])])
