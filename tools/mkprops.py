#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

ALLP = ["src/lib.rs", "src/cursor_ext.rs", "src/properties/mod.rs", "src/properties/int_property.rs",
        "src/properties/struct_property.rs", "src/properties/array_property.rs",
        "src/properties/map_property.rs", "src/properties/set_property.rs",
        "src/properties/text_property.rs"]
FIX = "The existing tests read about twenty fixture saves and compare them with stored expectations"

prop("C01", "Reading a well-formed save yields exactly what the file stores",
 "Reading any well-formed save (with the hints it needs) succeeds and returns exactly the stored header, property names, order, types and values, bit for bit including every float. This holds for every property kind, every container and element combination, every text kind, both header versions, plain and Palworld files, and structs nested in each other, directly or through arrays, or texts nested in texts, up to fifty levels.",
 ["inputs", "configurations"],
 "All well-formed files: any header, any tree of properties of any kind, any strings (ASCII, non-ASCII, empty, null, up to the length limit), any float bit pattern, any custom versions.",
 FIX + "; most property kinds appear with one or two values, most container/element combinations and text kinds never.",
 ALLP + ["src/properties/delegate_property.rs", "src/properties/field_path_property.rs", "src/properties/name_property.rs", "src/engine_version.rs", "src/custom_version.rs"],
 [("dispatch on the stored type name", "src/properties/mod.rs Property::new"), ("per-kind body readers", "src/properties/*.rs read_body"), ("header reader", "src/lib.rs GvasHeader::read")],
 [("properties", "ordered property tree of the file", "src/lib.rs GvasFile"), ("custom_versions", "version table that selects layouts", "src/lib.rs GvasHeader")],
 ["GvasFile::read", "GvasFile::read_with_hints"])

prop("C02", "Saving an unmodified file reproduces it byte for byte",
 "Reading a save written in the engine's own encoding and writing it back without changes produces exactly the same bytes. For a compressed Palworld save the decompressed contents are the same bytes.",
 ["inputs", "configurations"],
 "All well-formed files whose strings use the engine's encoding (narrow for ASCII, wide otherwise), every property kind, nesting and version table.",
 FIX + "; a field that no fixture exercises can be dropped or reordered on save without any test noticing.",
 ALLP, [("header writer", "src/lib.rs GvasHeader::write"), ("property writers and length prefixes", "src/properties/mod.rs impl_write!"), ("end marker and padding", "src/lib.rs GvasFile::write")],
 [], ["GvasFile::read_with_hints", "GvasFile::write"])

prop("C03", "Anything built through the API survives a save and a load",
 "A file, single property (with or without its header) or text assembled from representable values through the public constructors can be written, and reading the written bytes back yields an equal value with the same order and the same float bits, consuming exactly the bytes written.",
 ["inputs", "programs"],
 "All representable values of all public property, struct, container and text types, in header and header-less position, under all version tables.",
 "The existing tests build a handful of values per type; the space of values, nestings and version tables is unbounded.",
 ALLP, [("paired read/write implementations", "src/properties/*.rs"), ("specialising constructors", "src/properties/array_property.rs ArrayProperty::new, src/properties/map_property.rs MapProperty::new")],
 [], ["GvasFile::write", "PropertyTrait::write", "Property::new", "FText::read", "FText::write"])

prop("C04", "Alternative string encodings and trailing bytes do not change the contents",
 "A file whose strings use the other permitted encoding (wide strings for ASCII text, narrow UTF-8 for non-ASCII text), or that carries any bytes after its end marker, reads as the same contents as the normal form. Saving it gives the normal form, and saving again changes nothing.",
 ["inputs"],
 "All well-formed files times all choices of string encoding per string times all trailing byte sequences.",
 "Fixtures use one encoding per string; no test re-encodes a file or appends bytes.",
 ["src/cursor_ext.rs", "src/lib.rs"], [("string decoder for both encodings", "src/cursor_ext.rs read_fstring"), ("encoding choice on write", "src/cursor_ext.rs write_string"), ("end marker", "src/lib.rs read_with_hints")],
 [], ["GvasFile::read_with_hints", "GvasFile::write"])

prop("C05", "No input can crash the reader",
 "Reading any byte sequence as a plain save, Palworld save, header, single property or text, or parsing any string as a GUID or JSON save, returns either a value or an error: it never panics, aborts or exhausts a default-sized thread stack. A value that was accepted can also be printed, compared, cloned, hashed and written without crashing.",
 ["inputs"],
 "All byte sequences (damaged saves, deeply nested saves, arbitrary bytes), all hints, all property types with or without header and size suggestion.",
 "Tests feed valid files and a few handwritten bad ones; crashes hide in combinations of damaged counts, sizes and markers.",
 ALLP + ["src/properties/unknown_property.rs", "src/types.rs"], [("error returns instead of assertions", "src/properties/*.rs"), ("nesting limit", "src/properties/mod.rs Property::new, src/properties/text_property.rs")],
 [("properties_stack", "current path, bounds nesting", "src/properties/mod.rs PropertyOptions")],
 ["GvasFile::read_with_hints", "GvasHeader::read", "Property::new", "FText::read", "Guid::from_str"])

prop("C06", "Memory use is bounded by the size of the input",
 "While reading a file, peak memory stays within a fixed multiple (1000) of the input size plus one megabyte, whatever counts, lengths and sizes the file claims. For a compressed Palworld save the input size is that of the file plus the declared decompressed length actually delivered.",
 ["inputs"],
 "All damaged files: any count, string length, size or decompressed length field set to any value; compressed streams that expand beyond their declared length.",
 "No test measures memory; a claimed count of four billion in a 200-byte file is outside what fixtures contain.",
 ["src/cursor_ext.rs", "src/lib.rs", "src/properties/array_property.rs", "src/properties/map_property.rs", "src/properties/set_property.rs", "src/properties/unknown_property.rs", "src/properties/delegate_property.rs", "src/properties/text_property.rs"],
 [("string length limit", "src/cursor_ext.rs read_fstring"), ("growth by elements actually read", "src/properties/*.rs"), ("decompression limit", "src/lib.rs read_with_hints")],
 [], ["GvasFile::read_with_hints", "GvasHeader::read"])

prop("C07", "A truncated save is never accepted",
 "Every proper prefix of a well-formed save that ends before its end marker is complete is rejected with an error, wherever the cut falls. The same holds for a header and for a single property read on its own.",
 ["inputs", "crash_points"],
 "All well-formed files times all cut points (what a crash or full disk during a save leaves behind).",
 "Tests contain no truncated files; a reader that treats a missing tail as empty would pass them all.",
 ALLP + ["src/properties/unknown_property.rs"], [("exact reads", "src/cursor_ext.rs, byteorder read_exact"), ("end marker required", "src/lib.rs read_with_hints, src/properties/struct_property.rs read_custom")],
 [], ["GvasFile::read_with_hints", "GvasHeader::read", "Property::new"])

prop("C08", "A property whose declared size is wrong is rejected",
 "If the size declared for any property of a known type (at any depth, including the inner size of struct arrays) differs from the size its value actually occupies, reading fails. This holds whether the size field itself was changed or bytes were added to or removed from the value.",
 ["inputs"],
 "All well-formed files times every size field times every wrong value, and times consistent insertions or deletions with the enclosing sizes adjusted.",
 "Only a few kinds have a handwritten bad-size test; the check is repeated per property kind and can be lost in any of them.",
 ["src/properties/mod.rs", "src/properties/int_property.rs", "src/properties/struct_property.rs", "src/properties/array_property.rs"],
 [("size comparison after each body", "src/properties/mod.rs impl_read_header!"), ("literal size check of numbers", "src/properties/int_property.rs check_size!"), ("struct array inner size", "src/properties/array_property.rs read_body")],
 [], ["GvasFile::read_with_hints", "Property::new"])

prop("C09", "Exactly the well-formed files are accepted",
 "A file is accepted if and only if it follows the format: separators and array indexes are zero where required, booleans are 0 or 1, enumerations are in range, strings have valid lengths, terminators and text encoding, counts are not negative, required strings are present, and sizes match. Whatever is accepted is read with the meaning the format gives it.",
 ["inputs"],
 "All byte sequences near well-formed files: field-aware damage at every kind of field, byte flips, insertions, deletions, splices.",
 "Tests contain few malformed files; each marker is validated in several places that can diverge.",
 ALLP + ["src/properties/unknown_property.rs", "src/properties/delegate_property.rs", "src/properties/field_path_property.rs"],
 [("marker validation", "src/properties/mod.rs impl_read_header!, src/properties/int_property.rs"), ("string validation", "src/cursor_ext.rs"), ("enum validation", "src/cursor_ext.rs read_enum")],
 [], ["GvasFile::read_with_hints"])

prop("C10", "Only supported headers are accepted and they are read completely",
 "A header is accepted exactly when its magic, save version (2 or 3), package version (0x205 to 0x20D), UE5 package version (1000 to 1009, version 3 only) and custom version format (3) are supported; otherwise an invalid-header error is returned. Reading a header consumes exactly the header, returns every field unchanged, and writing it gives the same bytes.",
 ["inputs", "configurations"],
 "All values of all header fields, all version tables, all branch and class names.",
 "Fixtures hold a dozen version combinations; the boundaries and the rejection of everything else are not covered.",
 ["src/lib.rs", "src/engine_version.rs", "src/custom_version.rs", "src/object_version.rs", "src/savegame_version.rs", "src/ord_ext.rs"],
 [("range checks", "src/lib.rs GvasHeader::read"), ("engine and custom version codecs", "src/engine_version.rs, src/custom_version.rs")],
 [], ["GvasHeader::read", "GvasHeader::write", "GvasFile::read"])

prop("C11", "The version table alone decides version-dependent layouts",
 "Vectors, rotators and quaternions are doubles exactly from large-world-coordinates version 28 on; text integer arguments are 64 bit exactly from release-stream version 12 on; empty texts carry a culture-invariant flag exactly from editor version 32 on; a missing entry counts as version 0. Reading and writing follow the same thresholds, and no other table entry has any influence.",
 ["configurations", "inputs"],
 "All version tables (absent, below, at and above each threshold, unrelated entries, any order) times all values of the affected types.",
 "Fixtures hold a few real version tables, none adjacent to the thresholds.",
 ["src/properties/struct_property.rs", "src/properties/text_property.rs", "src/properties/mod.rs", "src/custom_version.rs"],
 [("version query", "src/properties/mod.rs PropertyOptions::supports_version"), ("layout switches", "src/properties/struct_property.rs read_*, src/properties/text_property.rs FormatArgumentValue")],
 [("custom_versions", "guid to version table", "src/lib.rs GvasHeader")], ["GvasFile::read_with_hints", "GvasFile::write", "PropertyOptions::supports_version"])

prop("C12", "Values that cannot be stored are refused and the output stays untouched",
 "Writing a file that contains, anywhere in its tree, a value its format or version table cannot store (wrong-precision vector, wrong-width text argument, culture-invariant text without support, property named None, over-long string, enum or byte property without its type name, bare struct value where a header is needed) returns an error. Nothing is written to the destination in that case, and the same file without that value is written successfully.",
 ["inputs", "programs"],
 "All files times every kind of unstorable value times every place in the tree.",
 "Tests check two or three refusals at top level; silently storing or dropping such a value corrupts the save.",
 ["src/lib.rs", "src/cursor_ext.rs", "src/properties/struct_property.rs", "src/properties/text_property.rs", "src/properties/enum_property.rs", "src/properties/int_property.rs"],
 [("validation before writing", "src/properties/struct_property.rs validate!, src/properties/text_property.rs"), ("buffering of the whole file", "src/lib.rs GvasFile::write")],
 [], ["GvasFile::write"])

prop("C13", "Hints are requested by exact path and supplying them resolves the file",
 "When a header-less struct has no hint, reading fails with a missing-hint error naming the exact path and the byte position of the struct. Adding a hint for each reported path in turn ends in a successful read with the right contents, hints for other paths change nothing, and a hint is used only at its own path.",
 ["inputs", "histories"],
 "All files with structs in sets and map keys and values at any depth, all subsets of the needed hints, all irrelevant hints.",
 "Tests use fixed hint tables for a few files; path bookkeeping errors appear only with nesting, siblings and earlier containers.",
 ["src/properties/mod.rs", "src/properties/map_property.rs", "src/properties/struct_property.rs", "src/scoped_stack_entry.rs", "src/lib.rs"],
 [("path stack", "src/scoped_stack_entry.rs ScopedStackEntry"), ("hint lookup", "src/properties/mod.rs Property::new")],
 [("properties_stack", "current path", "src/properties/mod.rs PropertyOptions")], ["GvasFile::read_with_hints", "DeserializeError::MissingHint"])

prop("C14", "Palworld saves carry the same contents under every compression",
 "Writing the same contents as a Palworld save with no, single or double compression always reads back as the same file with that compression recorded. The written container has the right magic, compression byte, decompressed length and first-pass compressed length, and its payload decompresses to exactly the plain save; payloads compressed at any level by another encoder are read the same.",
 ["inputs", "configurations"],
 "All files, all three compressions, all payload sizes, all zlib levels of a foreign encoder.",
 "Two Palworld fixtures exist; they fix one payload and one compression each.",
 ["src/lib.rs", "src/game_version.rs"], [("container reader and writer", "src/lib.rs read_with_hints, write, zlib_compress")],
 [("deserialized_game_version", "container and compression of the file", "src/lib.rs GvasFile")], ["GvasFile::read_with_hints", "GvasFile::write"])

prop("C15", "A failing or partial output device never yields a silent bad save",
 "When the destination reports an error at any byte, writing returns that error and what was delivered is a prefix of the correct output. When the destination accepts data in arbitrary small pieces or with interruptions, the delivered bytes are identical to a normal save.",
 ["fault_sequences", "crash_points", "inputs"],
 "All files times every failing byte offset and error kind times all short-write and interruption patterns.",
 "Tests write to memory buffers that never fail or accept less than offered.",
 ["src/lib.rs", "src/cursor_ext.rs", "src/properties/mod.rs", "src/properties/unknown_property.rs"],
 [("complete writes and error propagation", "src/cursor_ext.rs WriteExt, src/lib.rs GvasFile::write")],
 [], ["GvasFile::write", "GvasHeader::write", "PropertyTrait::write"])

prop("C16", "Input device faults are reported and short reads change nothing",
 "When the source reports an error at any byte, reading returns that error and never a file; a source that cannot tell its position yields that error or the normal result. When the source delivers data in arbitrary small pieces, with interruptions, or starts at any offset, the result is the same as reading the bytes at once.",
 ["fault_sequences", "inputs"],
 "All files (plain and Palworld), headers and single properties times every failing byte offset times all short-read and interruption patterns and start offsets.",
 "Tests read from memory cursors that always deliver everything.",
 ["src/lib.rs", "src/cursor_ext.rs", "src/properties/unknown_property.rs"],
 [("exact reads and error propagation", "src/cursor_ext.rs ReadExt, src/lib.rs read_with_hints")],
 [], ["GvasFile::read_with_hints", "GvasHeader::read", "Property::new"])

prop("C17", "Every string within the limit is encoded and decoded losslessly",
 "Writing any string (or the null string) and reading it back gives the same string and consumes exactly the bytes written; ASCII text is stored narrow and other text wide, with length and terminator included. Strings of more than 131072 stored units are refused on both sides, and invalid lengths, terminators, UTF-8 or UTF-16 are rejected; booleans, enums and GUIDs have the same exactness.",
 ["inputs"],
 "All strings of all lengths including embedded NULs, surrogate pairs and boundary lengths; all length fields; all damaged encodings.",
 "Tests use a few short strings; boundaries, astral characters and embedded NULs are not reached.",
 ["src/cursor_ext.rs"], [("string codec", "src/cursor_ext.rs read_fstring, write_string"), ("bool, enum and guid codec", "src/cursor_ext.rs")],
 [], ["ReadExt", "WriteExt"])

prop("C18", "GUID conversions agree and the text form is unambiguous",
 "Byte, word, 128-bit and text forms of a GUID convert into each other without loss, and equal GUIDs are exactly those with equal bytes. Parsing accepts exactly 32 hexadecimal digits of either case (or a single 0), optionally hyphenated, braced and surrounded by blanks, and rejects everything else.",
 ["inputs"],
 "All 128-bit values, all strings.",
 "Tests check a few GUIDs and a few bad strings.",
 ["src/types.rs"], [("conversions", "src/types.rs Guid"), ("parser", "src/types.rs FromStr for Guid"), ("printer", "src/types.rs Display for Guid")],
 [], ["Guid"])

prop("C19", "The JSON form is lossless",
 "Converting any file with finite numbers to JSON (compact, pretty or as a value tree) and back yields an equal file with the same order and float bits, which saves to the same bytes.",
 ["inputs", "configurations"],
 "All files of all property kinds, text kinds and container forms, all strings and integers of the full range.",
 "Serde tests compare a few values per type; untagged and flattened forms can be confused with each other only for particular shapes.",
 ["src/lib.rs", "src/types.rs", "src/game_version.rs", "src/properties/array_property.rs", "src/properties/map_property.rs", "src/properties/struct_property.rs", "src/properties/text_property.rs", "src/properties/int_property.rs", "src/properties/name_property.rs"],
 [("serde attributes (tag, untagged, flatten, skip, default, hex)", "src/properties/*.rs"), ("ordered map serialization", "src/types.rs serde_seq")],
 [], ["serde::Serialize", "serde::Deserialize"])

prop("C20", "Compact and general container forms are interchangeable",
 "Building an array or map from a list of elements keeps every element, key, value and flag in order, whichever compact form is chosen. The compact and the general form of the same container are stored as the same bytes, and both read back as the same value; a description of structs is refused for anything but structs.",
 ["inputs"],
 "All element type combinations of arrays and maps, all element values including null strings, typed enums, indexed names and non-zero flags, all sizes.",
 "Tests build a few of the twenty compact forms, mostly with matching elements.",
 ["src/properties/array_property.rs", "src/properties/map_property.rs"],
 [("specialisation", "src/properties/array_property.rs ArrayProperty::new, src/properties/map_property.rs MapProperty::new"), ("per-form writers", "src/properties/array_property.rs write_body, src/properties/map_property.rs write_body")],
 [], ["ArrayProperty::new", "MapProperty::new", "PropertyTrait::write"])

prop("C21", "Equality and hashing are coherent and follow the contents",
 "Two values of the same form are equal exactly when they hold the same contents (key-value collections compare without regard to order, floats by value with all NaNs equal), and equal values always hash equally. A clone is equal to its original, and any property can be used as a map key and found again.",
 ["inputs"],
 "All pairs of properties, structs, texts and GUIDs, including reordered maps, signed zeros and NaNs, and pairs differing in one place.",
 "Tests never hash properties and compare only values built the same way.",
 ["src/types.rs", "src/properties/mod.rs", "src/properties/struct_types.rs", "src/properties/map_property.rs"],
 [("order-independent map hash", "src/types.rs Hash for HashableIndexMap"), ("derived equality and hash", "src/properties/*.rs")],
 [], ["PartialEq", "Hash", "Clone"])

prop("C22", "Edits change exactly what was edited, through any history of saves",
 "After any sequence of edits (adding, removing, replacing and renaming properties, changing values, elements, fields and texts in place) interleaved with saves and reloads, the saved bytes are those of the edited contents and reloading yields those contents. Properties that were not edited keep their values, order and bytes.",
 ["histories", "inputs"],
 "All sequences of edit, save and reload operations on all files.",
 "Tests save only unmodified or freshly built files.",
 ALLP, [("mutable accessors", "src/properties/mod.rs make_matcher!"), ("writers recompute sizes and counts", "src/properties/*.rs write_body")],
 [("properties", "ordered property tree", "src/lib.rs GvasFile")], ["Property::get_*_mut", "GvasFile::write", "GvasFile::read_with_hints"])

prop("C23", "Properties of unknown types pass through untouched",
 "A property of a type the library does not know, at top level, in a struct or as array or set elements, is kept as its type name and raw bytes and written back identically; everything around it is read and written as if it were not there.",
 ["inputs"],
 "All unknown type names, all raw contents and sizes (including empty and content that looks like markers), all positions.",
 "One fixture holds unknown properties; contents that imitate markers and positions inside containers are not covered.",
 ["src/properties/unknown_property.rs", "src/properties/mod.rs", "src/properties/array_property.rs", "src/properties/set_property.rs"],
 [("raw capture", "src/properties/unknown_property.rs"), ("fallback dispatch", "src/properties/mod.rs Property::new")],
 [], ["GvasFile::read_with_hints", "GvasFile::write", "UnknownProperty::new"])

prop("C24", "Write functions report exactly the number of bytes they emit",
 "Every write function that returns a size (header, property with and without header, property body, text, text argument, number format, string) returns exactly the number of bytes it passed to the destination. Every size stored in the output equals the size of the value that follows it.",
 ["inputs"],
 "All values of all property kinds in all positions under all version tables.",
 "Tests ignore returned sizes; the stored sizes are only compared for fixtures.",
 ["src/lib.rs", "src/cursor_ext.rs", "src/properties/mod.rs", "src/properties/struct_property.rs", "src/properties/text_property.rs", "src/properties/array_property.rs", "src/properties/map_property.rs", "src/engine_version.rs"],
 [("length accounting", "src/properties/*.rs write_body"), ("length prefix from the buffered body", "src/properties/mod.rs impl_write!")],
 [], ["PropertyTrait::write", "PropertyTrait::write_body", "GvasHeader::write", "FText::write", "WriteExt"])

prop("C25", "Typed accessors and conversions return exactly the value held",
 "For every property and struct value, the accessor of its own type returns the held value and every other accessor returns nothing; a change through the mutable accessor is what is seen afterwards and what is saved. Converting a concrete value into a property or struct value and constructing values from parts keeps every part unchanged, and engine version numbers map to the matching engine release or to unknown.",
 ["inputs", "programs"],
 "All property and struct kinds, all values, all accessor kinds, all engine version numbers.",
 "Tests call a few accessors on a few fixtures.",
 ["src/properties/mod.rs", "src/properties/struct_property.rs", "src/properties/struct_types.rs", "src/properties/text_property.rs", "src/properties/name_property.rs", "src/engine_version.rs"],
 [("generated accessors", "src/properties/mod.rs make_matcher!"), ("From implementations", "src/properties/struct_property.rs, enum_dispatch"), ("engine version table", "src/engine_version.rs get_version")],
 [], ["Property::get_*", "StructPropertyValue::get_*", "FEngineVersion::get_version"])

prop("C26", "Errors name the offending value and where it is",
 "When a single field of an otherwise well-formed file is damaged, the error is of the kind for that field (terminator, array index, boolean, enum, string length, string terminator, text encoding, size, header), and reports the offending value, also when printed. Its position is the start of the field for terminators, array indices and string lengths, the start of the string for a wrong text encoding, the field or the start of the value for a wrong size, and otherwise lies within the damaged field or at its end.",
 ["inputs"],
 "All well-formed files times every marker field times every invalid value.",
 "Tests check a few error values; positions are computed separately in each reader.",
 ["src/error.rs", "src/cursor_ext.rs", "src/properties/mod.rs", "src/properties/int_property.rs", "src/properties/struct_property.rs", "src/properties/array_property.rs", "src/properties/unknown_property.rs"],
 [("error construction with position", "src/properties/mod.rs impl_read_header!, src/cursor_ext.rs, src/error.rs")],
 [], ["DeserializeError"])

prop("C27", "The result of a read depends only on its input",
 "Reading the same bytes with the same hints gives the same result whatever was read before with the same reader state, whether earlier reads succeeded or failed, and whatever other threads are reading at the same time. After any read of a single property, successful or not, the path held by the caller's options is what it was before.",
 ["histories", "schedules", "inputs"],
 "All sequences of successful and failing reads that share options, all groups of concurrent reads.",
 "Tests perform one read per test with fresh state.",
 ["src/properties/mod.rs", "src/scoped_stack_entry.rs", "src/properties/map_property.rs", "src/properties/struct_property.rs", "src/lib.rs"],
 [("scoped path entries", "src/scoped_stack_entry.rs ScopedStackEntry drop")],
 [("properties_stack", "path shared between reads", "src/properties/mod.rs PropertyOptions")], ["Property::new", "GvasFile::read_with_hints"])

prop("C28", "A damaged Palworld container is rejected or reads as the original",
 "If any byte of a compressed Palworld save is changed, removed or cut off, reading either fails or returns exactly the original contents (the compressed-length field and unused trailing bytes carry no contents). A decompressed length other than that of the compressed payload, or beyond the end of an uncompressed payload, a wrong magic or an unknown compression byte is always rejected, and so is a plain save read as a Palworld save or the reverse.",
 ["inputs", "crash_points"],
 "All compressed Palworld saves times every damaged byte, every cut point, every header field value.",
 "Both Palworld fixtures are intact.",
 ["src/lib.rs", "src/game_version.rs"], [("container validation", "src/lib.rs read_with_hints"), ("zlib checksum verification by reading to the stream end", "src/lib.rs read_with_hints")],
 [], ["GvasFile::read_with_hints"])

prop("C29", "Every entry point reads and writes a value the same way",
 "A property gives the same result (the same value and the same number of bytes consumed, or a refusal) whether it is read by the reader of its own type, by the general property reader or as part of a file; a file gives the same result read with or without an empty set of hints and plain or from a Palworld container, and its header is the one the header reader returns. Writing a property, the concrete value in it, or its body alone emits the same bytes, and a file or struct is written as the concatenation of its separately written parts.",
 ["inputs", "programs"],
 "All properties with and without header, intact or damaged, at any path and under any version table; all files, intact or damaged, in every container.",
 "Each test uses one entry point; none compares two entry points on the same bytes.",
 ["src/lib.rs", "src/properties/mod.rs", "src/properties/struct_property.rs", "src/properties/text_property.rs", "src/properties/array_property.rs", "src/properties/set_property.rs", "src/properties/map_property.rs"],
 [("dispatch by type name", "src/properties/mod.rs Property::new"), ("generated read, read_header and write", "src/properties/mod.rs impl_read!, impl_read_header!, impl_write!")],
 [], ["Property::new", "StrProperty::read", "ArrayProperty::read_header", "FText::read", "GvasHeader::read", "GvasFile::read", "GvasFile::read_with_hints", "PropertyTrait::write", "PropertyTrait::write_body"])

prop("C30", "Saving is repeatable and writes exactly its own range",
 "Saving the same file, header, property or text any number of times gives the same bytes each time and leaves the value unchanged. Wherever the destination stands and whatever it already holds, a save replaces exactly the bytes from that position on that it is long, keeps everything before and after, and leaves the destination positioned at its end, so that saves can be written one after the other.",
 ["histories", "inputs"],
 "All sequences of saves and seeks on one destination, all initial contents and positions, buffered or not, plain and Palworld.",
 "Tests write once into an empty destination.",
 ["src/lib.rs", "src/properties/mod.rs", "src/properties/text_property.rs"],
 [("container header written before the payload", "src/lib.rs GvasFile::write")],
 [], ["GvasFile::write", "GvasHeader::write", "PropertyTrait::write", "FText::write"])

prop("C31", "Reading does work in proportion to the size of the input",
 "Whatever counts, lengths and sizes a file claims, the number of calls a read makes to its source, the number of requests it makes to the allocator and the bytes these add up to stay within a constant factor of the size of the input (for Palworld saves: of the input and the decompressed data within the declared length).",
 ["inputs"],
 "All inputs, in particular well-formed files in which counts, lengths or sizes were raised, nested files and containers that expand.",
 "Tests read small well-formed fixtures; a loop driven by a claimed count ends early in all of them.",
 ["src/lib.rs", "src/cursor_ext.rs", "src/properties/mod.rs", "src/properties/array_property.rs", "src/properties/set_property.rs", "src/properties/map_property.rs", "src/properties/text_property.rs", "src/properties/delegate_property.rs", "src/properties/field_path_property.rs", "src/properties/struct_property.rs"],
 [("element loops that stop at the first failed read", "src/properties/array_property.rs, set_property.rs, map_property.rs read_body"), ("bounded decompression", "src/lib.rs read_with_hints")],
 [], ["GvasFile::read_with_hints", "Property::new"])

prop("C32", "Printed values show everything they hold",
 "Two properties, struct values, texts, headers or files that are not equal print differently, both in the short and in the indented debug form, and a copy prints like its original; a printed file contains every property name and every custom version. A struct of numbers prints each of its fields by name with a number that parses back to the same bits, and an engine version prints as major.minor.patch-changelist+++branch.",
 ["inputs"],
 "All pairs of values that differ in one place, all files that differ in one header field, all numbers.",
 "Printing is not compared anywhere in the tests; users rely on it to find out why two saves differ.",
 ["src/properties/int_property.rs", "src/properties/struct_types.rs", "src/engine_version.rs", "src/types.rs", "src/lib.rs", "src/properties/mod.rs"],
 [("hand-written and derived printing", "src/properties/int_property.rs impl Debug, src/properties/struct_types.rs make_struct!, src/engine_version.rs impl Display, src/types.rs impl Debug for Guid")],
 [], ["Debug and Display of Property, StructPropertyValue, FText, GvasFile, GvasHeader, FEngineVersion and the struct types"])

prop("C33", "JSON reformatted by another tool still means the same value",
 "JSON written for a file, header, property or text reads back as an equal value after another tool has reordered the members of its objects, changed the white space, escaped characters of its strings or written whole floating point numbers without a fraction; written again it is the same JSON but for the order of members. This holds whether the JSON is read from a string, a slice, a stream or a tree of values.",
 ["inputs", "programs"],
 "All values with finite floats, every order of members at every level, every escaping of every string, all ways to read JSON.",
 "Tests read back only the text the library wrote itself, with its own order of members and escapes.",
 ["src/lib.rs", "src/types.rs", "src/properties/mod.rs", "src/properties/array_property.rs", "src/properties/map_property.rs", "src/properties/struct_property.rs", "src/properties/text_property.rs", "src/properties/int_property.rs"],
 [("tagged and untagged representations", "serde attributes in src/lib.rs, src/properties/*.rs"), ("identifiers as strings", "src/types.rs")],
 [], ["serde Serialize and Deserialize of GvasFile, GvasHeader, Property, FText"])

prop("C34", "The build configuration does not change what the library does",
 "Built without optional features, overflow checks and debug assertions, the library gives the same answer as built with all of them: for every file, header, property, text or identifier text, well-formed or damaged, the same value and written bytes and the same bytes consumed, or the same error.",
 ["inputs", "configurations"],
 "All inputs, with and without the serde feature, overflow checks and debug assertions, at two optimisation levels.",
 "The tests run in one configuration; arithmetic that wraps, assertions with effects and code behind a feature behave alike there.",
 ["src/lib.rs", "src/cursor_ext.rs", "src/properties/mod.rs", "src/properties/array_property.rs", "src/properties/map_property.rs", "src/properties/set_property.rs", "src/properties/struct_property.rs", "src/properties/text_property.rs", "src/types.rs", "Cargo.toml"],
 [("size arithmetic", "src/properties/*.rs read_body"), ("conditional compilation", "cfg_attr(feature = \"serde\") in src/")],
 [], ["GvasFile::read_with_hints", "GvasFile::write", "GvasHeader::read", "Property::new", "PropertyTrait::write", "FText::read", "Guid::from_str"])

prop("C35", "JSON documents keep one fixed shape",
 "The JSON of a file, header, property or text has exactly the members that name its fields and kind, with the values it holds: a property or header carries its kind in \"type\" and a text in \"history\", identifiers are strings, arrays of bytes are hexadecimal strings, maps with text keys are objects and other maps lists of pairs. Parts at their default (no value, zero identifier, index or flags, not a Palworld file) are left out, and a document that writes them out reads as the same value.",
 ["inputs"],
 "All values with finite floats, every choice of default parts written out, JSON as text and as a tree of values.",
 "Tests compare a few documents with stored texts; round trips do not notice a shape that changed on both sides, which makes existing documents unreadable.",
 ["src/lib.rs", "src/types.rs", "src/engine_version.rs", "src/game_version.rs", "src/properties/mod.rs", "src/properties/array_property.rs", "src/properties/map_property.rs", "src/properties/struct_property.rs", "src/properties/text_property.rs", "src/properties/int_property.rs", "src/properties/name_property.rs"],
 [("member names, tags and omitted members", "serde attributes in src/lib.rs, src/properties/*.rs")],
 [], ["serde Serialize and Deserialize of GvasFile, GvasHeader, Property, FText"])

prop("C36", "Saving does work in proportion to the size of the output",
 "However deep the properties of a file or property are nested and however many elements its containers hold, the number of requests a save makes to the allocator and of calls to its destination stay within a constant factor of the number of bytes saved. The memory it requests in all and holds at once stay within a constant factor of these bytes counted once for each property that encloses them.",
 ["inputs"],
 "All files and properties, nested up to fifty levels and with up to tens of thousands of elements, plain and Palworld.",
 "Tests save shallow fixtures, in which a save that repeats work at every level still ends at once.",
 ["src/lib.rs", "src/cursor_ext.rs", "src/properties/mod.rs", "src/properties/array_property.rs", "src/properties/set_property.rs", "src/properties/map_property.rs", "src/properties/struct_property.rs", "src/properties/text_property.rs"],
 [("bodies buffered to learn their size", "src/properties/mod.rs impl_write!, src/properties/array_property.rs, src/properties/struct_property.rs")],
 [], ["GvasFile::write", "PropertyTrait::write"])

prop("C37", "No use of the library has undefined behaviour",
 "Reading, copying, comparing, hashing, printing, saving and turning into JSON and back never has undefined behaviour in safe code that uses the library: no access outside an allocation, to memory that is freed, not aligned or not initialised, no value that its type does not allow, no reference used after another one has superseded it. This holds for well-formed and damaged data alike, when the device stops in the middle with an error or a panic, and for any way memory is laid out.",
 ["inputs", "faults"],
 "All small files, headers, properties, texts and identifiers, well formed or damaged, all points at which a device stops, several layouts of memory.",
 "Undefined behaviour usually goes unnoticed in a native test run: the compiled code does what was meant until a compiler, an optimisation level or an allocator changes.",
 ["src/scoped_stack_entry.rs", "src/types.rs", "src/cursor_ext.rs", "src/lib.rs", "src/properties/mod.rs", "src/properties/struct_property.rs", "src/properties/map_property.rs", "src/properties/text_property.rs"],
 [("the path of names of enclosing properties", "src/scoped_stack_entry.rs"), ("identifiers as bytes and as numbers", "src/types.rs transmute_4u32_16u8, transmute_16u8_4u32")],
  [], ["GvasFile::read", "GvasFile::write", "GvasHeader::read", "Property::new", "FText::read", "Guid::from_str"])

prop("C38", "The kind of machine does not change what the library does",
 "On a machine with 32-bit addresses and the other byte order, every read accepts or refuses the same bytes as on a 64-bit little endian machine, with the same value or error and the same number of bytes consumed, and every save produces the same bytes. Identifiers convert to and from numbers in the same way.",
 ["inputs"],
 "All small files, headers, properties, texts and identifiers, well formed or damaged.",
 "Tests run on one kind of machine only; a byte order taken from the machine or a 64-bit number cut to the size of an address goes unnoticed there.",
 ["src/types.rs", "src/cursor_ext.rs", "src/lib.rs", "src/properties/mod.rs", "src/properties/int_property.rs", "src/properties/array_property.rs", "src/properties/unknown_property.rs", "src/properties/text_property.rs"],
 [("sizes and counts read as 32 and 64 bit numbers", "src/properties"), ("identifiers as bytes and as numbers", "src/types.rs")],
 [], ["GvasFile::read", "GvasFile::write", "GvasHeader::read", "Property::new", "FText::read", "Guid::from_str"])

prop("C39", "A save that succeeds can be read again",
 "However a file was put together, also from a JSON document edited by hand so that its versions, declared types and values contradict each other, saving it either fails and leaves the destination as it was, or gives a file that can be read again. What is read has the same contents as what was saved and saves to the same bytes; only details that elements of containers have no room for (such as the type of an enum or the index of a name) and names of a struct without any property may be missing.",
 ["inputs"],
 "All files up to two edits away from a consistent one: versions of the header, declared types, names, values and elements changed, removed, doubled, renamed or taken from elsewhere in the document; hints that fit the edited file.",
 "Tests save values that are consistent; the number of ways in which a value can contradict itself is not bounded.",
 ["src/lib.rs", "src/properties/mod.rs", "src/properties/array_property.rs", "src/properties/set_property.rs", "src/properties/map_property.rs", "src/properties/struct_property.rs", "src/properties/unknown_property.rs", "src/properties/int_property.rs", "src/properties/enum_property.rs", "src/properties/text_property.rs"],
 [("values that contradict their declared type or the versions are refused", "src/properties"), ("supported versions", "src/lib.rs")],
 [], ["GvasFile::write", "GvasFile::read", "serde_json::from_str"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
