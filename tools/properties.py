"""Source of properties.jsonl and MANIFEST.json: run it after editing it."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

S = "binobj/structures.py"
M = "binobj/serialization.py"
FB = "binobj/fields/base.py"
FN = "binobj/fields/numeric.py"
FS = "binobj/fields/stringlike.py"
FC = "binobj/fields/containers.py"
H = "binobj/helpers.py"
V = "binobj/varints.py"
P = "binobj/pep526.py"
D = "binobj/decorators.py"

TECH = "deterministic simulation: seeded search over "

PROPS = []
NA = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique,
         note, level="exploration"):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier={"over": over, "text": text}, why_tests_cant=why,
        anchors={
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": observe, "hook_needed": None,
        },
        technique=TECH + technique, note=note, level=level,
    ))


def na(id, title, statement, over, text, why, files, mechanism, reason):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier={"over": over, "text": text}, why_tests_cant=why,
        anchors={"files": files,
                 "mechanism": [{"name": n, "where": w} for n, w in mechanism]},
    ))
    NA.append({"property": id, "reason": reason})


COMMON = (
    " Seeded search, not exhaustive; trusts the reference model in sim/model.py and"
    " sim/schema.py, CPython's codecs and struct module, and the simulated streams."
)

prop(
    "P01", "Stored records come back byte for byte whatever the I/O slicing",
    "Dumping any valid struct writes exactly the bytes its declaration prescribes (field"
    " order, sizes, byte order, padding, encodings, null representations, computed values,"
    " and leaving out absent fields), through every dumping entry point and however the"
    " stream splits writes. Loading those bytes, from any offset and however the stream"
    " splits reads, gives the declared values back and consumes exactly the bytes of that"
    " record, so that back-to-back records can be read one after the other. Dumping"
    " changes neither the struct nor anything outside the record's bytes.",
    ["inputs", "programs", "schedules"],
    "All declarations expressible with the built-in field types, all their values, all"
    " sequences of records in one stream, all ways a stream can split reads and writes.",
    "The tests dump and load a few dozen hand-written structs through io.BytesIO, which"
    " never returns short; combinations of options (nullable inside arrays inside nested"
    " structs, conditional plus sized-by-field, and so on) are not covered.",
    [S, M, FB, FN, FS, FC, V, H],
    [("Struct.to_stream/from_stream", S), ("Field.to_stream/from_stream", FB),
     ("every _do_dump/_do_load", "binobj/fields/"), ("iter_bytes, write_bytes", H)],
    ["bytes in the simulated file", "values of the loaded struct", "stream position"],
    "declarations, values and I/O slicings against an executable reference model",
    "Random declarations over all built-in fields, dumped to and loaded from simulated"
    " streams with short reads/writes and buffering; bytes, values and positions compared"
    " with an independent executable model." + COMMON,
)
prop(
    "P02", "A record cut short by a crash is reported as cut short, never made up",
    "If only the first n bytes of what was being written survive, for any n, then loading"
    " a record which isn't complete fails, with the unexpected-end-of-file error if it's"
    " only the missing bytes that are wrong, and never returns a struct with made-up or"
    " truncated values. Records that were complete before the cut load as if nothing had"
    " happened.",
    ["crash_points", "inputs", "programs"],
    "All byte offsets at which the writing process can die, all declarations and values.",
    "The tests truncate a handful of fixed inputs at one offset each.",
    [S, FB, FN, FS, FC, V],
    [("_read_exact_size", FB), ("Struct.from_stream", S), ("varint decoders", V),
     ("StringZ._do_load", FS), ("Array._do_load", FC)],
    ["exception class", "loaded values", "stream position"],
    "crash points of a simulated writer, reader restarted on the surviving bytes",
    "Simulated process death at a drawn byte of a drawn multi-record file; the durable"
    " prefix is loaded record by record and compared with the model." + COMMON,
)
prop(
    "P03", "Partial loads recover exactly what is complete; tailing loses nothing",
    "A partial load of truncated data returns every leading field which is complete, with"
    " the value a full load would give it, nothing else, and leaves the stream where that"
    " data ends; asking for a specific last field which isn't complete is an error, and so"
    " are data that are all there but invalid. A"
    " reader polling a stream to which a writer appends in arbitrary pieces gets each"
    " record exactly once, in order, unmodified, and as soon as its last byte is there.",
    ["crash_points", "schedules", "inputs", "programs"],
    "All truncation offsets, all interleavings of appends and polls, all declarations.",
    "One or two fixed structs are partially loaded in the tests; nothing tails a file.",
    [S, FB], [("Struct.partial_load", S), ("Field.from_stream", FB)],
    ["loaded fields", "stream position", "exceptions"],
    "truncations and writer/reader interleavings",
    "Drawn cuts and drawn append/poll schedules over multi-record files, compared with the"
    " model; progress is required on the first poll after a record is complete." + COMMON,
)
prop(
    "P04", "Reading a single field agrees with a full load and restores the stream",
    "Reading one field of a struct from a stream gives exactly the value a full load of"
    " the struct at that position gives the field, whether or not the field's offset is"
    " fixed and whatever fields it depends on. The stream is always left where it was,"
    " also if the field is cut off, invalid, or the read fails with an I/O error.",
    ["inputs", "programs", "fault_sequences"],
    "All declarations, fields, record positions, truncations and unreadable bytes.",
    "The tests read a few fields of three fixed structs from an intact io.BytesIO.",
    [S, FB], [("Struct.get_field", S), ("Field.offset", FB)],
    ["returned value", "stream position", "exception class"],
    "look-up sequences, truncations and unreadable bytes",
    "Drawn look-ups over drawn files, with truncation, read errors and short reads,"
    " compared with the model's full load." + COMMON,
)
prop(
    "P05", "Partial dumps write exactly the leading fields",
    "A partial dump writes exactly the bytes of the leading fields that have a value"
    " (explicit, default, constant, computed, or from a factory), up to the requested last"
    " field or the first field without one, identically to the beginning of the complete"
    " dump. If a last field is requested and a value up to it is missing, it fails.",
    ["inputs", "programs", "histories"],
    "All declarations, all subsets of fields with a value, all last fields.",
    "The tests partially dump one struct of plain fields.",
    [S], [("Struct.partial_dump", S)],
    ["bytes in the simulated file", "exception class"],
    "fill-in histories with a partial dump after each step",
    "Instances are filled in field by field in drawn order; each partial dump is compared"
    " with the model and with the complete dump." + COMMON,
)
prop(
    "P06", "A failed dump leaves only a clean prefix and can be retried",
    "If a dump fails for whatever reason (I/O error, full disk, crash, a callback raising,"
    " an unserializable value), the error reaches the caller, what was written is the"
    " beginning of what a successful dump writes, and nothing outside the record's extent"
    " has been touched. A struct that is invalid or incomplete when the dump starts writes"
    " nothing. The struct itself is unchanged, and repeating the dump on a healthy stream"
    " gives the same bytes as if nothing had happened.",
    ["fault_sequences", "crash_points", "inputs", "programs"],
    "All fault positions and kinds, all declarations and values, all callbacks.",
    "No test injects a write error, a short write or a failing callback in mid-dump.",
    [S, FB, FC, H], [("Struct.to_stream", S), ("validate_contents", S), ("write_bytes", H)],
    ["bytes in the simulated file", "exceptions", "contents of the struct"],
    "write-fault sequences, crashes and callback failures",
    "Drawn faults at drawn byte offsets (errors, ENOSPC, torn and short writes, crashes)"
    " and drawn callback invocations; the file is compared with the model." + COMMON,
)
prop(
    "P07", "I/O errors while loading surface unchanged and leave no trace",
    "An I/O error during any loading operation reaches the caller as that very error; it"
    " is never swallowed, reported as the end of the data, or turned into a value. It"
    " leaves no trace: repeating the operation when the error is gone gives what an"
    " undisturbed load gives, and structs loaded earlier are unaffected.",
    ["fault_sequences", "inputs", "programs"],
    "All positions of unreadable bytes and failing seeks, all declarations and entry"
    " points.",
    "No test makes a stream fail.",
    [S, FB, FC, FS, V], [("Field.from_stream", FB), ("Struct.from_stream", S),
                         ("Struct.partial_load", S), ("Struct.get_field", S)],
    ["exceptions", "loaded values"],
    "read-fault sequences with retries",
    "Drawn read errors, seek errors and short reads over drawn files, retried until the"
    " error is gone, compared with the model." + COMMON,
)
prop(
    "P08", "Threads working on their own data do not notice each other",
    "Threads that share struct classes but no instances or streams get exactly the"
    " results they would get alone, for loading, dumping, single-field reads, partial"
    " loads and dumps, and lengths, whatever the interleaving. This includes the very"
    " first uses of a class, and classes declared while other threads work.",
    ["schedules", "inputs", "programs"],
    "All interleavings of threads at the granularity of Python byte code.",
    "No test uses threads.",
    [S, M, FB, FC], [("state kept on classes and fields", "binobj/")],
    ["results of each thread"],
    "thread interleavings at line and byte-code granularity",
    "Real threads run one at a time under a seeded scheduler which switches at library"
    " lines or byte code instructions; each result is compared with the model." + COMMON
    + " Interleavings inside C functions aren't explored.",
)
prop(
    "P09", "Reading from a struct never changes it",
    "Dumping, converting, measuring, comparing, validating, copying, printing and"
    " looking at a struct never changes what it holds or what a later operation gives,"
    " whether or not the operation succeeds. Any number of threads can do so at the same"
    " time and each gets what it would get alone.",
    ["schedules", "histories", "inputs", "programs"],
    "All sequences and interleavings of reading operations on one instance.",
    "The tests look at results, not at the struct afterwards, and use one thread.",
    [S, M], [("to_dict, __len__, __eq__, to_stream", S), ("computed fields", FB)],
    ["contents of the struct", "results"],
    "operation histories and thread interleavings on one shared instance",
    "Drawn reading operations, first in sequence with a snapshot after each, then from"
    " threads under the seeded scheduler." + COMMON,
)
prop(
    "P10", "A struct holds exactly what was put into it",
    "After any history of construction, loading, assignments, deletions, reads,"
    " conversions and failed operations, each struct holds exactly the values put into"
    " it: rejected assignments (invalid values, constants, computed fields, unknown names)"
    " change nothing, deletions restore defaults and computed values, and other instances"
    " of the class are unaffected. Reads, conversions to dictionaries, comparisons, dumps"
    " and lengths all agree with that content.",
    ["histories", "inputs", "programs"],
    "All histories of operations on several instances of all declarations.",
    "The tests perform one or two operations on fixed structs.",
    [S, FB], [("Struct.__init__/__setitem__/__getitem__/__delitem__", S),
              ("Field.__get__/__set__", FB), ("to_dict, __eq__", S)],
    ["contents of all instances after each step"],
    "operation histories with failing callbacks, against a model of the contents",
    "Histories of up to 30 operations on up to three instances, with callbacks failing at"
    " drawn moments; contents are compared after each step." + COMMON,
)

exec(open(os.path.join(HERE, "tools", "properties_more.py")).read())  # noqa: S102


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fp:
        for p in PROPS:
            d = {k: v for k, v in p.items() if k not in ("technique", "note", "level")}
            assert len(d["title"]) <= 80, d["title"]
            fp.write(json.dumps(d) + "\n")
    checks = []
    for p in PROPS:
        if "technique" not in p:
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.py {p['id']}",
            "technique": p["technique"],
            "level": p["level"],
            "level_note": p["note"],
        })
    manifest = {
        "version": 1,
        "setup_cmd": "./check.py --selftest",
        "checks": checks,
        "not_applicable": NA,
        "notes": (
            "Everything is decided by deterministic simulation; see DESIGN.md. No hooks in"
            " /repo are needed: streams, callbacks, clocks and time zones are passed in or"
            " set through the library's public interface, and threads are scheduled through"
            " sys.monitoring. Replay: ./check.py --replay FILE. Known findings and fixes:"
            " known_findings.txt."
        ),
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
        json.dump(manifest, fp, indent=1)
        fp.write("\n")


main()
