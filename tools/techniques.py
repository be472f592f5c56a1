B = "Generated-input search with a fixed number of cases per run; trusts the reference encoder and decoder in harness/src (written from the format, sharing no code with gvas). "
T = {
 "C01": ("property-based testing: reference encoder vs. reader", B + "Shows the property on the files generated, not on all files."),
 "C02": ("property-based testing: byte-exact round trip of reference-encoded files", B + "Shows the property on the files generated, not on all files."),
 "C03": ("property-based testing: model-built values written and read back", B + "Values come from the public constructors."),
 "C04": ("property-based testing: metamorphic relation between encodings", B + "Alternative encodings are chosen per string."),
 "C05": ("fuzzing with structure-aware mutation on threads with a default stack; crash and panic oracle", B + "Aborts and stack overflows are confirmed in a child process."),
 "C06": ("fuzzing with structure-aware mutation; measured-allocation oracle", B + "Memory is counted by the allocator of the harness, per reading thread."),
 "C07": ("fault enumeration: every cut point of generated files, headers and properties", B + "Cut points are enumerated for data up to 500 bytes and sampled beyond."),
 "C08": ("property-based testing: damaged sizes judged by a strict reference decoder", B + "Shows the property on the sizes and damage generated."),
 "C09": ("differential fuzzing of damaged files against a strict reference decoder", B + "Shows the property on the damaged files generated."),
 "C10": ("property-based testing: generated and damaged headers against an independent header codec", B + "Shows the property on the headers generated."),
 "C11": ("property-based testing: layouts on both sides of every version threshold; differential against the reference codec", B + "Thresholds are those of the format; other entries of the table are random."),
 "C12": ("property-based testing: a writable file beside the same file with one part that cannot be stored", B + "Covers the kinds of unwritable parts the statement names."),
 "C13": ("property-based testing: hints supplied one at a time against the paths the reference encoder recorded", B + "Shows the property on the files and hints generated."),
 "C14": ("property-based testing: containers written, taken apart by another zlib user and read back; foreign encoders", B + "Trusts flate2 for compression on both sides."),
 "C15": ("fault injection: a failing, interrupting or slow destination at every byte of generated outputs", B + "Every byte for outputs up to 160 bytes (2000 in the thorough tier), sampled beyond."),
 "C16": ("fault injection: a failing, interrupting or slow source at every byte of generated inputs", B + "Every byte for inputs up to 160 bytes (2000 in the thorough tier), sampled beyond."),
 "C17": ("property-based testing: string, flag, enum and GUID codec against an independent one", B + "Stored forms are generated both valid and invalid."),
 "C18": ("property-based testing: GUID conversions and a three-way oracle for the text parser", B + "Texts the statement leaves open may be refused but not misread."),
 "C19": ("property-based testing: JSON round trip in five ways against the model and the original bytes", B + "Floats that JSON cannot hold are left out."),
 "C20": ("property-based testing: containers built in every form against the bytes of the reference encoder", B + "Shows the property on the containers generated."),
 "C21": ("property-based testing: pairs of values equal, reordered or different in one place; coherence of equality and hash", B + "Equality is judged by the model's own canonical form."),
 "C22": ("stateful model-based testing: histories of edits, copies, saves and reloads against a model file", B + "Histories have up to 14 steps."),
 "C23": ("property-based testing: metamorphic relation between a file with and without properties of unknown types", B + "Shows the property on the contents generated."),
 "C24": ("property-based testing: reported lengths against the bytes written and the sizes stored in them", B + "Shows the property on the values generated."),
 "C25": ("property-based testing: every accessor and conversion against the type and contents of the model value", B + "The list of accessors is that of the current interface."),
 "C26": ("property-based testing: one field broken at a known place, the error judged for kind, value and position", B + "Positions are judged against the spans of the reference encoder."),
 "C27": ("stateful testing: histories of reads over shared options, one read inside another, and threads, against each read alone", B + "The order in which threads run is not controlled; reads nested at a chosen call are."),
 "C28": ("fuzzing of Palworld containers: damaged, shortened and extended containers against the original contents", B + "Checksums of 32 bits are taken to detect every damage."),
 "C29": ("differential property-based testing: every pair of entry points on the same bytes or value", B + "The list of entry points is that of the current interface."),
 "C30": ("stateful model-based testing: histories of saves and seeks on one destination against a byte model", B + "Histories have up to six steps."),
 "C31": ("fuzzing with structure-aware mutation; oracle on counted source calls and allocator requests", B + "Work inside the library between calls and requests is not counted."),
 "C32": ("property-based testing of pairs that differ in one place: printed forms must differ, numbers must parse back", B + "Values that are equal but built differently may print either way."),
 "C33": ("metamorphic testing: generated JSON is reordered, re-escaped and reformatted and must mean the same value", B + "Numbers are rewritten only where their value is kept exactly."),
 "C34": ("differential fuzzing of two builds of the library over the same generated inputs", B + "Two configurations are compared, not all combinations."),
 "C35": ("property-based testing: documents against an independent reference serialiser; default parts written out at random", B + "The order of members is left open."),
 "C36": ("property-based testing of deep and large values; oracle on counted destination calls and allocator requests", B + "Work inside the library between calls and requests is not counted."),
 "C37": ("property-based testing in an interpreter that reports undefined behaviour (Miri, Tree Borrows), with injected device faults", B + "Inputs are small because interpretation is slow. Undefined behaviour that Miri does not model is not seen."),
 "C38": ("differential property-based testing against an interpreted machine with 32 bits and the other byte order (Miri, powerpc)", B + "Inputs are small because interpretation is slow. Two kinds of machine are compared."),
 "C39": ("property-based testing with edits of JSON documents that may contradict themselves", B + "Documents are up to two edits away from a consistent one."),
}
