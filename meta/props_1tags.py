PROPS = [
dict(id="T01", title="Deriving a tag map applies its mutations in order, all or nothing",
 statement="Deriving a context with a list of tag mutations yields a tag map equal to applying them one after another to the parent's tags: insert only adds absent keys, update only changes present ones, upsert always sets, delete removes, and the last propagation setting of a mutation decides whether the tag propagates (unlimited by default). If any mutation is invalid (its value is not printable ASCII of at most 255 characters, or a custom mutation fails) the whole derivation fails and the given context is returned unchanged. No derivation ever changes a previously obtained context or map.",
 over=["inputs","histories"], quant="every tree of derived contexts, every mutation list (valid or not), every metadata list",
 why="The unit tests apply a dozen fixed mutation lists to one parent; they never derive trees of contexts and re-read the ancestors, nor fail at every position of a list.",
 files=["tag/map.go","tag/context.go","tag/validate.go","tag/metadata.go"],
 mech=[("New copies the parent's map before mutating","tag/map.go New"),("value validation inside each mutator","tag/map.go Insert/Update/Upsert"),("createMetadatas folds metadata","tag/map.go createMetadatas")],
 observe=["tag.New result and error","tag.FromContext(ctx).Value","tag.Encode(tag.FromContext(ctx))"],
 tech="stateful property-based testing against a reference map", note="Explores random derivation trees against an independent map model; trusts the harness's own wire parser to observe propagation."),
dict(id="T02", title="Tag encoding carries exactly the propagable tags and round-trips",
 statement="Encoding a tag map produces a version-0 binary document with exactly one entry per tag whose propagation is unlimited, keys and values byte for byte, and nothing for the other tags. Decoding that document yields exactly those tags, which propagate again on the next hop, and encoding never changes its source; an absent map encodes to nothing.",
 over=["inputs"], quant="every tag map: any number of tags, any valid key and value (length 0 to 255), any mix of propagation settings",
 why="Tests round-trip three small maps with one-byte lengths; varint length boundaries, buffer growth and mixed metadata are unsampled.",
 files=["tag/map_codec.go","tag/metadata.go"],
 mech=[("TTL filter while encoding","tag/map_codec.go Encode"),("buffer growth","tag/map_codec.go growIfRequired"),("decoding with unlimited TTL","tag/map_codec.go DecodeEach")],
 observe=["tag.Encode bytes","tag.Decode map"],
 tech="round-trip and differential property-based testing with a reference codec", note="Random maps with forced boundary lengths; the reference codec is independent of the repository's."),
dict(id="T03", title="Decoding tags from any bytes is total and all-or-nothing",
 statement="For every byte string, decoding tags either returns an error and no map, or a map holding exactly the entries of the document with later duplicates winning; it never panics, reads outside its input, or keeps referring to the input buffer. It succeeds exactly when the input is empty or is a version-0 document made only of complete string entries whose key is a valid non-empty name and whose value is valid. A key name is accepted (by NewKey, and by MustNewKey, which panics otherwise) exactly when it is 1 to 255 printable ASCII characters.",
 over=["inputs"], quant="every byte string, well formed or corrupted, and every string offered as a key name",
 why="Tests decode a handful of malformed buffers; lengths that overflow, truncation at every point and invalid contents are an unbounded space.",
 files=["tag/map_codec.go","tag/validate.go","tag/key.go"],
 mech=[("length check before slicing","tag/map_codec.go readBytesWithVarintLen"),("no partial result on error","tag/map_codec.go Decode"),("key and value validation","tag/validate.go")],
 observe=["tag.Decode result","tag.NewKey result"],
 tech="grammar-based fuzzing with a reference decoder (differential)", note="Grammar-aware corruption of the wire format plus raw bytes, decided by an independent decoder."),
dict(id="T04", title="Running under tags labels the profiler and calls the function once",
 statement="Running a function under a context's tags calls it exactly once, with the context's tag map visible and profiler labels equal to the labels already present overlaid with every tag, whether or not the context carries a tag map. The caller's own labels are untouched afterwards, also when the function panics.",
 over=["inputs","schedules"], quant="every tag map (or none), every outer label set, callbacks that return or panic, concurrent callers",
 why="One test checks one map with two tags.",
 files=["tag/profile_19.go","tag/map.go"],
 mech=[("labels built from the tag map","tag/profile_19.go do")],
 observe=["runtime/pprof labels of the callback's context"],
 tech="property-based testing against the expected label overlay", note="Random tag maps and outer labels; labels are observed on the context handed to the callback."),
]
