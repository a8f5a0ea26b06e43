# Executed by properties.py; see there.
# ruff: noqa: F821

prop(
    "P11", "Exact loads reject every trailing byte, others ignore them all",
    "Loading exactly one record or field from bytes fails with the extraneous-data error if"
    " there's as much as one byte more than it takes, whatever the declaration and the"
    " bytes, and never otherwise; if told not to be exact it ignores whatever follows."
    " Reading from a stream takes exactly the record's bytes and no more, so two peers can"
    " exchange records of different declarations over one connection, in whatever pieces"
    " it delivers, without ever losing synchronization; a lost connection is reported.",
    ["inputs", "programs", "schedules", "fault_sequences"],
    "All declarations, values, trailing bytes, conversations, deliveries and breakdowns.",
    "The tests try one struct with a few trailing bytes, and nothing reads from anything"
    " that delivers in pieces.",
    [S, FB, FS, FC, H],
    [("Struct.from_bytes, from_stream", S), ("Field.from_bytes", FB),
     ("StringZ._do_load, _read_exact_size", FS)],
    ["exception class", "values", "what's left in the stream"],
    "conversations of two peers over breaking wires, and trailing bytes",
    "Two simulated peers converse over wires that deliver drawn pieces and may break;"
    " otherwise drawn records are parsed with drawn trailing bytes." + COMMON,
)
prop(
    "P12", "Damaged data is rejected or loads as what it says; no check is skipped",
    "Loading arbitrarily damaged data either fails with the kind of error the damage"
    " calls for (end of data, invalid data, failed validation), in bounded time and"
    " memory, or returns exactly the values these bytes stand for. Constants, validators"
    " of fields and structs, also in arrays, unions, and nested structs, are checked on"
    " every load. What was loaded can be dumped and loaded again without changing.",
    ["inputs", "programs", "fault_sequences"],
    "All damage (flipped bits, lost, inserted, zeroed, misdirected bytes) to all files.",
    "A few invalid inputs per field type are tested.",
    [S, FB, FN, FS, FC, V],
    [("every _do_load", "binobj/fields/"), ("validate_contents", S),
     ("const and validators in Field.from_stream", FB)],
    ["exception class", "loaded values", "redumped bytes"],
    "storage corruption of files of drawn records",
    "Files are damaged in drawn ways, each record is then loaded and compared with an"
    " independent reference decoder; what's accepted is dumped and loaded again." + COMMON,
)
prop(
    "P13", "Reported sizes and offsets are true",
    "The length of a struct is exactly the number of bytes its dump writes, also after"
    " changes, so it fits in storage of that size and not in less. The size of a class is"
    " the size of all its dumps or unknown, and a field's offset, if known, is where the"
    " field's bytes are in each dump: overwriting them there changes this field and no"
    " other.",
    ["inputs", "programs", "histories", "crash_points"],
    "All declarations, values, changes, and in-place patches, also torn ones.",
    "The tests check the sizes of about ten fixed structs and offsets of one.",
    [S, FB, FC, FS, P], [("Struct.__len__, get_size", S), ("Field.offset", FB),
                         ("get_expected_size", FB), ("collect_assigned_fields", S)],
    ["bytes in the simulated file", "ENOSPC", "loaded values"],
    "disks with exactly the reported room, and crashing in-place patches",
    "Structs are dumped to disks with exactly as much, or one byte less, room than they"
    " report to need; records are patched in place by the reported offsets and sizes with"
    " torn writes and crashes, then loaded." + COMMON,
)
prop(
    "P14", "Timestamps keep their instant wherever and whenever they're handled",
    "A timestamp field stores the instant it's given in its resolution, and loading"
    " gives that very instant back (a stamp between two microseconds the microsecond it is in), for every value it can hold (before the epoch, sub-"
    "second, around changes of daylight saving time, at the limits), independently of the"
    " host's time zone at writing and of later changes to it. Time-zone-aware fields give"
    " aware values in UTC, others naive local time. Giving the other sort of datetime is"
    " reported as deprecated, and nothing else is. What doesn't fit is refused, not"
    " wrapped around.",
    ["inputs", "histories", "schedules"],
    "All instants, resolutions, sizes and time zones, and all movements of the host.",
    "The tests use a handful of instants in the time zone the tests run in.",
    [FN], [("Timestamp._do_dump/_do_load", FN)],
    ["stored integers", "loaded datetimes"],
    "histories of dumps and loads on a host whose time zone keeps moving",
    "The host's time zone (TZ and tzset) is moved between writing and reading, to fixed"
    " offsets and to zones with DST, with instants drawn around its changes; compared with"
    " integer arithmetic." + COMMON,
)
prop(
    "P15", "Values made by factories are drawn once per dump and all agree on them",
    "Each dump of a struct with unset fields that have factories draws each such value"
    " once, and everything in this dump that depends on it (computed fields, sizes,"
    " counts, validators, conditions) sees the value which is written. Dumping doesn't"
    " store it in the struct; a new dump draws anew, an explicit value suppresses it, and"
    " an error of the factory reaches the caller and leaves nothing behind. This also"
    " holds with other threads dumping at the same time.",
    ["schedules", "histories", "fault_sequences"],
    "All histories, clocks, random sources, their failures, and interleavings.",
    "The factories in the tests return a constant or the field is dumped by itself.",
    [S, FB], [("Struct._with_factory_defaults", S), ("Field.default", FB)],
    ["written bytes", "draws of the simulated sources", "contents"],
    "simulated clocks, counters and random sources with jumps, failures and threads",
    "Factories read a simulated clock, counter, or random source, which jump and fail;"
    " each dump's bytes are compared with what was drawn for it." + COMMON,
)
prop(
    "P16", "Callbacks see the truth, and what they raise reaches the caller",
    "Each callback (validators, struct validators, computed fields, conditions, array halt"
    " checks, union deciders, factories) is shown the context the caller passed, the"
    " values of the fields before it (all fields when dumping or validating) under their"
    " names, the value in question, and (when loading) the stream at the place where the"
    " field or element begins. What it raises, whatever the class, reaches the"
    " caller as that very exception; no operation hides, replaces, or misinterprets it,"
    " and the struct is as before.",
    ["inputs", "programs", "fault_sequences"],
    "All declarations, operations, callbacks and exception classes.",
    "The tests' callbacks look at one value each and hardly ever raise.",
    [S, FB, FC], [("present, compute", FB), ("halt_check", FC),
                  ("load_decider, dump_decider", FC), ("validators", S)],
    ["arguments of callbacks", "exceptions"],
    "operations with a callback failing at a drawn call, with 15 classes of errors",
    "Every callback of a drawn declaration checks what it's shown against the model, and"
    " one drawn call raises a drawn kind of exception." + COMMON,
)
prop(
    "P17", "An array takes exactly as many elements as it declares",
    "Dumping an array writes exactly the declared number of elements, in order, from"
    " whatever feeds it (lists, tuples, generators, endless iterators), or fails: a source"
    " with too few or too many elements is an error and never silently cut or padded. An"
    " endless source doesn't hang it, and errors of the source or the stream reach the"
    " caller with only whole elements before it written.",
    ["inputs", "programs", "fault_sequences"],
    "All array declarations, sources and failures of sources and streams.",
    "The tests dump a few lists and one generator.",
    [FC], [("Array._do_dump, get_final_element_count", FC)],
    ["written bytes", "elements taken from the source", "exceptions"],
    "live element sources which fail, run dry or never end",
    "Drawn sources feed drawn arrays on streams which may fail; bytes compared with the"
    " model, and read back." + COMMON,
)
prop(
    "P18", "Fields and integer codecs by themselves are exact and total",
    "Each field (also one of the application's own, which pads or sizes its values or"
    " extends a built-in one) used by itself, each variable-length integer encoding, and the integer"
    " helpers write exactly the encoding of each value they accept, read it back from any"
    " chopped stream taking exactly its bytes, refuse what they can't represent, report"
    " truncated input as the end of data, and let I/O errors through. A scalar value that"
    " is refused writes nothing.",
    ["inputs", "programs", "fault_sequences"],
    "All values of all fields and codecs, all cuts, chops and I/O errors.",
    "Each codec is tested with about ten values.",
    [V, H, FB, FN, FS, FC], [("encode_integer_*/decode_integer_*", V),
                             ("write_int, read_int, iter_bytes", H),
                             ("Field.to_bytes/from_bytes/from_stream", FB)],
    ["bytes", "values", "exceptions", "stream position"],
    "logs of values written and read through faulty streams",
    "A log of drawn values is written by drawn fields and codecs to a stream with drawn"
    " faults and read back, whole and cut." + COMMON,
)
prop(
    "P19", "Declaring further classes never changes the existing ones",
    "A struct class that extends another has the inherited fields first, at the same"
    " places, then its own, and applies inherited and own validators. Extending a class,"
    " in either declaration style, with fields, validators for inherited fields, and Meta"
    " options of its own, or failing to, changes nothing about the class extended, its"
    " other descendants, instances made earlier, or the options it was given. The error of a declaration that's"
    " refused names the struct being declared and the field that's wrong with it.",
    ["histories", "programs"],
    "All histories of declarations (also failing ones) and uses of trees of classes.",
    "The tests extend a class once and look at the derived class only.",
    [S, P, D, FB], [("StructMetadata.from_class", S), ("dataclass", P),
                    ("bind_to_container", FB)],
    ["dumps and loads of all classes", "sizes and offsets"],
    "histories of succeeding and failing declarations interleaved with uses",
    "A growing tree of classes is declared, partly unsuccessfully, and each class and old"
    " instances are used in between and compared with the model." + COMMON,
)
prop(
    "P20", "An interrupted operation leaves classes and instances usable",
    "If an operation is interrupted at an arbitrary point (as by Ctrl-C, a signal"
    " handler's timeout, or task cancellation, also in callbacks), the interruption"
    " reaches the caller; the struct holds what it held, except that an interrupted"
    " assignment or deletion may or may not have happened; a dump wrote a prefix; and all"
    " later operations, in this and other threads, give what they always do. A declaration"
    " that was interrupted can be repeated.",
    ["schedules", "fault_sequences", "histories", "programs"],
    "All library lines at which an operation can be interrupted, all operations.",
    "No test interrupts anything.",
    [S, FB, FC, FS, P], [("state kept on classes, fields and instances", "binobj/")],
    ["exceptions", "contents", "results of later operations"],
    "asynchronous interruptions at drawn library lines, also with other threads",
    "Operations are interrupted at a drawn library line or callback and repeated"
    " undisturbed, alone and with threads under the seeded scheduler. Interruptions inside"
    " generators and C functions aren't delivered there but at the next line." + COMMON,
)
prop(
    "P21", "Values given when loading take precedence and change nothing else",
    "Loading with values given for some fields gives these values instead of the stored"
    " ones, also to fields whose size, count, presence or type depends on them, still"
    " consumes the stored bytes, and validates the result. Additional arguments reach the"
    " constructor of the struct. The caller's arguments are never changed, neither by"
    " loading, whether or not it fails, nor by changing the loaded struct, and other"
    " structs loaded with them are independent.",
    ["inputs", "programs", "histories", "fault_sequences"],
    "All declarations, given values, records read with the same arguments, I/O errors.",
    "The tests pass one additional argument in one load, and override nothing.",
    [S], [("Struct.from_stream, from_bytes (init_kwargs)", S)],
    ["loaded values", "stream position", "the caller's arguments"],
    "files read with the same arguments from failing streams, with changes in between",
    "Drawn files are read record by record with drawn given values, retried after read"
    " errors, loaded structs are changed in place in between; compared with the model."
    + COMMON,
)

na(
    "P22", "Contradictory declarations are refused with a configuration error",
    "A declaration that can't work (a default and a factory, an undefined size without a"
    " reference, a redefined field, fields in both styles, a validator without field"
    " names, an array of unions without deciders, and so on) is refused when it's"
    " declared, with an error naming the field, and never accepted and misinterpreted"
    " later.",
    ["programs"], "All declarations.",
    "There are more combinations of options than tests.",
    [FB, FC, FN, FS, S, P, D], [("constructors of fields", "binobj/fields/"),
                                ("dataclass", P), ("validates", D)],
    "A pure function of the declaration: no schedule, I/O, clock, crash, or history takes"
    " part in it, so simulating them decides nothing. (That failing declarations leave"
    " nothing behind is part of P19.)",
)
prop(
    "P23", "Failures name the field, value, and offset they're really about",
    "When loading cut or damaged data fails, or dumping values that can't be dumped, the"
    " error raised carries the field that failed (or one it's nested in), the value that"
    " was refused, the offset at which the data ended or the excess began with the size"
    " that didn't fit, the number of elements expected and given, or the unknown names;"
    " never those of another field, record, earlier failure, or other thread.",
    ["inputs", "programs", "schedules", "fault_sequences"],
    "All failures of all operations on all damaged files and invalid values.",
    "The tests check that errors are raised, hardly what they say.",
    ["binobj/errors.py", FB, FC, FN, FS, S, H],
    [("constructors of the errors", "binobj/errors.py"),
     ("err.field in Field.from_stream, _read_exact_size", FB),
     ("ArraySizeError in Array._do_dump", FC), ("ExtraneousDataError in from_bytes", S)],
    ["attributes of the exceptions"],
    "failing operations on cut and damaged files, also from several threads",
    "Drawn files are cut and damaged; the attributes of the errors of drawn loads and"
    " dumps are compared with the place where the reference decoder fails." + COMMON,
)
na(
    "P24", "Typing information agrees with run-time behaviour",
    "The annotations shipped (py.typed) accept what works at run time and reject what"
    " doesn't, for fields, structs and decorators.",
    ["programs"], "All programs using the library.",
    "Tests are run, not type-checked.",
    ["binobj/typedefs.py", FB, S, "binobj/py.typed"],
    [("type annotations", "binobj/typedefs.py")],
    "Decided by a static type checker; there is no execution to simulate.",
)
