PROPS = [
dict(id="P01", title="Binary span context codec round-trips and rejects cleanly",
 statement="Encoding any non-zero span context gives the 29-byte version-0 document and decoding it gives back the same trace ID, span ID and all option bits; the zero context encodes to nothing. Decoding any byte string succeeds exactly when it is version 0 and starts with a complete trace-ID field, takes the span-ID and option fields when they follow in order, leaves absent fields zero, ignores the rest, and never panics; a failed decode yields the zero context.",
 over=["inputs"], quant="every span context and every byte string",
 why="The tests decode nine fixed buffers and encode four contexts.",
 files=["trace/propagation/propagation.go"], mech=[("fixed field layout and length guards","trace/propagation/propagation.go Binary, FromBinary")],
 observe=["propagation.Binary","propagation.FromBinary"],
 tech="round-trip and differential fuzzing against a reference codec", note="Structured mutation of the 29-byte layout plus raw bytes, decided by a reference decoder."),
dict(id="P02", title="B3 headers round-trip and parse per the hex grammar",
 statement="Writing a span context as B3 headers and reading them back preserves the trace ID, span ID and sampled bit. Reading any B3 headers succeeds exactly when both IDs are non-empty even-length hex strings of at most 16 and 8 bytes, right-aligned in the result (64-bit trace IDs in the low half), sampled only for the values 1 and true; the parsers of the single headers agree; the headers read are not modified and a rejected request yields the zero context.",
 over=["inputs"], quant="every span context and every combination of B3 header values",
 why="A dozen fixed headers are tested; odd lengths, short IDs, over-long IDs and every padding offset are not.",
 files=["plugin/ochttp/propagation/b3/b3.go"], mech=[("length and hex checks, right alignment","plugin/ochttp/propagation/b3/b3.go ParseTraceID, ParseSpanID")],
 observe=["B3 HTTPFormat on http.Request headers"],
 tech="round-trip and differential property-based testing", note="Header strings of every length with case and character corruption against a reference parser."),
dict(id="P03", title="W3C trace-context headers round-trip and parse per the grammar",
 statement="Writing a span context with non-zero IDs as trace-context headers and reading it back preserves the IDs, option byte and tracestate entries in order, whatever such headers the request had before, the tracestate being omitted when it exceeds 512 characters. A single traceparent in lower case is accepted exactly when it has a supported version, well-formed sections (exactly four for version 0) and non-zero IDs. A tracestate (possibly over several headers, optional white space around members) that is malformed, has duplicates, more than 32 members or more than 512 characters is dropped as a whole without affecting the rest.",
 over=["inputs"], quant="every span context with any tracestate, and every traceparent/tracestate header set",
 why="About thirty fixed headers are tested; the grammar, its limits and their interplay are not enumerable by hand.",
 files=["plugin/ochttp/propagation/tracecontext/propagation.go","trace/tracestate/tracestate.go"], mech=[("section checks","plugin/ochttp/propagation/tracecontext/propagation.go SpanContextFromHeaders"),("tracestate limits","plugin/ochttp/propagation/tracecontext/propagation.go tracestateFromHeader, tracestateToHeader")],
 observe=["trace-context HTTPFormat on http.Request headers and header pairs"],
 tech="grammar-based fuzzing against a reference parser, plus round trip", note="Upper-case hex, option fields longer than one byte and several traceparent headers are left unspecified and not judged."),
dict(id="P04", title="Cloud-trace header round-trips and rejects malformed values",
 statement="Writing any span context as the cloud trace header and reading it back gives the same trace ID, span ID and options. A header is rejected, yielding the zero context, when it is empty, longer than 200 characters, lacks the slash, has a non-hexadecimal trace ID, a span ID that is not a decimal 64-bit number, or a malformed option value; otherwise a 16-byte trace ID is read with the span ID and the optional options field.",
 over=["inputs"], quant="every span context and every header value",
 why="Six fixed headers are tested; numeric extremes and every malformed position are not.",
 files=["exporter/stackdriver/propagation/http.go"], mech=[("field splitting and number parsing","exporter/stackdriver/propagation/http.go SpanContextFromRequest")],
 observe=["HTTPFormat on http.Request headers"],
 tech="round-trip and differential fuzzing", note="Trace IDs of other lengths are accepted today and not judged."),
dict(id="P05", title="Tracestate derivation keeps order, uniqueness, limits and immutability",
 statement="Deriving a tracestate from a parent and new entries yields the new entries in their order followed by the parent's entries whose keys were not replaced; it is rejected, with no result, exactly when an entry is invalid, the new entries repeat a key, or the result would exceed 32 entries. A tracestate never changes once made: neither later derivations nor the caller reusing the slice it passed or changing the entries it read affect it, and the caller's slice is not modified.",
 over=["inputs","histories"], quant="every derivation history over valid and invalid entries, and every aliasing of caller slices",
 why="Tests check single derivations with fresh slices; aliasing and chains of derivations are never combined.",
 files=["trace/tracestate/tracestate.go"], mech=[("validation, de-duplication, copy of parent and entries","trace/tracestate/tracestate.go New, add, remove")],
 observe=["tracestate.New, Entries"],
 tech="stateful property-based testing against a list model", note="Histories with shared and clobbered caller slices; every tracestate re-read after every step."),
dict(id="R01", title="Resource labels survive their text form and environment detection",
 statement="Encoding a set of labels (ASCII keys without surrounding white space, ASCII values whose quoted form fits the limit) is deterministic, and decoding it, in any order and with white space between labels, gives exactly the same labels; detecting a resource from an environment holding that text and a type gives that type and those labels. Decoding arbitrary text either fails with no labels or gives labels that round-trip.",
 over=["inputs"], quant="every label set in the text domain, every order and spacing, and every text offered to the decoder",
 why="Three labels are tested; values holding quotes, backslashes and separators are the unbounded part.",
 files=["resource/resource.go"], mech=[("quoting","resource/resource.go EncodeLabels"),("label grammar","resource/resource.go DecodeLabels")],
 observe=["resource.EncodeLabels, DecodeLabels, FromEnv"],
 tech="round-trip property-based testing", note="Non-ASCII values are outside the text form (the existing tests require their rejection)."),
dict(id="R02", title="Detectors run in order, earlier resources win, errors abort",
 statement="A chain of detectors calls each in order until one fails; a failure is returned with no resource and later detectors are not called. Otherwise the result has the first non-empty type and, for each label key, the value of the first detector that supplies it; absent resources are skipped and the resources the detectors returned are never modified.",
 over=["inputs","fault_sequences"], quant="every list (possibly nested) of detectors with overlapping labels, nil results and failures at any position",
 why="One two-detector list is tested.",
 files=["resource/resource.go"], mech=[("pairwise merge with precedence","resource/resource.go merge, detectAll")],
 observe=["resource.MultiDetector result and call order"],
 tech="property-based testing with injected failures against a merge model", note="Random nested detector lists; every detector call is recorded."),
dict(id="N01", title="Texts of identifiers, tag maps and kinds tell them apart",
 statement="The text of a trace ID or span ID is its bytes in lower-case hexadecimal, two digits each, leading zeros kept. The text of a tag map depends on its tags alone, not on how or in what order they were set, and shows each key and its value in the order of the keys. Metric types are shown by their names (any other number as Type(number)) and aggregation types as None, Count, Sum, Distribution or LastValue.",
 over=["inputs","histories"], quant="every identifier, every tag map of up to 12 tags built by different lists of mutations in different orders, every kind",
 why="Single examples are tested; that the text does not depend on map order or history needs many maps.",
 files=["trace/basetypes.go","tag/map.go","metric/metricdata/type_string.go","stats/view/aggregation.go"], mech=[("hexadecimal texts","trace/basetypes.go TraceID.String, SpanID.String"),("sorted text","tag/map.go Map.String")],
 observe=["the String methods"],
 tech="metamorphic property-based testing (two ways to build one map) and a reference text", note="Two ways of building each map; texts against hex encoding and the names of the kinds."),
dict(id="N02", title="Sanitized names hold only letters, digits and underscores",
 statement="Sanitizing any string takes its first 100 bytes, keeps letters and digits, turns every other character (and every invalid byte) into an underscore, and puts key_ before a leading ASCII digit and key before a leading underscore; the empty string stays empty and nothing panics.",
 over=["inputs"], quant="every string, valid UTF-8 or not, of any length",
 why="A few ASCII examples are tested; cut or invalid UTF-8 and non-ASCII letters are not.",
 files=["internal/sanitize.go"], mech=[("mapping of runes after the cut","internal/sanitize.go Sanitize, sanitizeRune")],
 observe=["internal.Sanitize"],
 tech="property-based testing against a reference model", note="Strings built from awkward characters around the limit."),
dict(id="N03", title="Tag values written to a row key are read back as they were",
 statement="Values of up to 255 bytes written one after another to a tag-encoding buffer, whatever its initial size and content, give the document of their lengths and bytes, and are read back from it in order, byte for byte, an empty value as absent, also when they are read in between; neither what was passed in nor what was read refers to the buffer.",
 over=["inputs","histories"], quant="every list of values and every initial buffer",
 why="The tests write a handful of values to a buffer that is large enough.",
 files=["internal/tagencoding/tagencoding.go","stats/view/collector.go"], mech=[("length-prefixed values in a growing buffer","internal/tagencoding/tagencoding.go WriteValue, ReadValue, growIfRequired")],
 observe=["tagencoding.Values WriteValue, ReadValue, Bytes"],
 tech="round-trip property-based testing", note="Up to 12 values; buffers that must grow several times."),
]
