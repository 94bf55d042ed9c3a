#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

LOADERS = ["src/load_msh.cpp", "src/load_msh_nodes.cpp", "src/load_msh_elements.cpp", "src/load_msh_entities.cpp",
           "src/load_msh_data.cpp", "src/load_msh_physical_groups.cpp", "src/load_msh_format.cpp", "src/load_msh_post_process.cpp"]
SAVERS = ["src/save_msh.cpp", "src/save_msh_nodes.cpp", "src/save_msh_elements.cpp", "src/save_msh_entities.cpp",
          "src/save_msh_data.cpp", "src/save_msh_physical_groups.cpp", "src/save_msh_format.cpp"]
API = ["include/mshio/mshio.h"]

prop("C01", "MSH 4.1 save then load reproduces the spec exactly",
 "Saving a valid spec as MSH 4.1 (ASCII or binary, to a stream or a file) and loading the result yields a spec equal to the original in the mesh format, nodes, elements, entities, physical groups and node, element and element-node data: every integer, string and floating-point value is exactly preserved (a NaN stays a NaN) and the order of everything is kept. Files include those that cannot seek, such as pipes. A value the chosen encoding has no room for makes the save fail with an exception rather than be stored as a different value. This holds however the underlying stream or file splits, shortens, interrupts or delays the individual transfers.",
 ["inputs", "schedules", "configurations"],
 "All valid specs (every element type 1-31, parametric blocks, sparse 64-bit tags, any number of blocks, entities and data views, arbitrary strings and doubles) x all transfer schedules (chunk sizes down to one byte, short reads/writes, EINTR) x ASCII/binary x stream/file.",
 "The tests round-trip nine tiny specs whose coordinates are 0, 1 or 2 through one in-memory stringstream, never compare entities or physical groups, and never deliver a document in pieces.",
 LOADERS + SAVERS, [("v41 ascii/binary writers and readers", "src/save_msh_*.cpp, src/load_msh_*.cpp")],
 ["save_msh(std::ostream&, spec)", "save_msh(filename, spec)", "load_msh(std::istream&)", "load_msh(filename)"])

prop("C02", "MSH 2.2 save then load preserves the mesh and its data",
 "Saving a valid spec as MSH 2.2 (ASCII or binary) and loading it back keeps the sequence of nodes (tag and coordinates), the sequence of elements (tag, type, entity tag and node list), the physical groups and all node, element and element-node data exactly and in order; neighbouring blocks may be merged or split, each node may be reassigned to the entity of any element using it, and entity descriptions and parametric coordinates, which 2.2 cannot hold, are dropped. All counts and the minimum and maximum tags of the loaded spec describe its contents exactly, and tags need not be dense. A value too large for the encoding makes the save fail with an exception; transfer splitting never changes the result.",
 ["inputs", "schedules", "configurations"],
 "All valid specs, including empty blocks and sparse tags up to the encoding's limit x transfer schedules x ASCII/binary x stream/file.",
 "Tests only use block layouts that happen to survive the 2.2 regrouping unchanged; sparse tags, empty blocks, several entities per type and shared nodes are never exercised.",
 ["src/save_msh_nodes.cpp", "src/save_msh_elements.cpp", "src/load_msh_nodes.cpp", "src/load_msh_elements.cpp", "src/load_msh_post_process.cpp", "src/load_msh_data.cpp", "src/save_msh_data.cpp"],
 [("regrouping of nodes and elements into blocks", "src/load_msh_post_process.cpp"), ("v22 writers/readers", "src/*_nodes.cpp, src/*_elements.cpp")],
 API)

prop("C03", "Documents from other MSH producers load as the format defines",
 "Loading any well-formed MSH 2.2 or 4.1 document, written by any producer and starting at the stream's current position, yields exactly the content the document describes: any white-space layout between ASCII tokens, any valid spelling of numbers, sections in any order after the header, blank lines and stray words between sections (words that do not begin with '$'), comment and other unknown sections (all skipped, whatever text or bytes they hold), elements of mixed types in 2.2 binary groups, several tags per element. For 2.2 elements with a physical and an elementary tag the loaded spec has, per dimension, one entity per distinct elementary tag listing its distinct physical tags in increasing order. The loaded spec is internally consistent and accepted by the library's own validation when the document's tags are within their declared ranges, and the way the stream delivers the bytes does not matter; documents loaded by name may be in files that may only be read or that cannot seek, such as pipes.",
 ["inputs", "schedules"],
 "All well-formed documents produced by an encoder written from the format description independently of the library x delivery schedules.",
 "Only four small sample files are loaded, from disk in one gulp, and only two counters are checked for each.",
 LOADERS + ["src/validate_spec.cpp", "src/io_utils.cpp", "src/element_utils.cpp"],
 [("section dispatch and skipping", "src/load_msh.cpp"), ("white-space handling before binary payloads", "src/io_utils.cpp"), ("element size/dimension tables", "src/element_utils.cpp")],
 ["load_msh", "validate_spec"])

prop("C04", "Saved output is one well-formed MSH document",
 "A successful save appends exactly one well-formed MSH document of the requested version and encoding at the stream's current position: properly delimited sections starting at the beginning of a line, no duplicated section other than the data views, counts matching what follows, sections without content omitted. An independent reader following the format description recovers exactly the spec's content from it, and saving the same spec again yields the same bytes however the sink accepts them.",
 ["inputs", "schedules", "configurations"],
 "All valid specs x 2.2/4.1 x ASCII/binary x acceptance schedules of the sink (partial acceptance, one byte at a time, different buffer sizes).",
 "The tests only feed output back to the same library, so errors made symmetrically by writer and reader, or ignored by the reader, pass unseen.",
 SAVERS, [("section writers", "src/save_msh_*.cpp")], ["bytes accepted by the sink of save_msh"])

prop("C05", "A torn document is never mistaken for a complete one",
 "If a document is cut short at any byte (a crash while it was being written, an interrupted copy), or its tail after that byte was lost and reads as zeros, loading it either fails with an exception or, when the cut lies between two sections, returns exactly the sections before the cut. A section that is only partly there is never returned as data, and the load always terminates.",
 ["crash_points", "inputs", "configurations"],
 "Every document (library-written or foreign; 2.2/4.1, ASCII/binary) x every cut position x truncated or zero-filled tail x stream or file, including crashes at each individual write of a save to a file.",
 "No test loads an incomplete document; the number of (document, cut) pairs is unbounded.",
 ["src/load_msh.cpp"] + LOADERS[1:], [("stream state checks and search for the end tag", "src/load_msh.cpp, src/load_msh_*.cpp")],
 ["load_msh"])

prop("C06", "Read failures are reported, never taken for end of file",
 "If the source reports an error while a document is being loaded (the stream buffer throws or the operating system returns an I/O error, once or persistently, at any byte, or the file cannot be opened), the load fails with an exception instead of returning a spec. It never loops or hangs, and later loads from healthy sources are unaffected.",
 ["fault_sequences", "inputs", "schedules"],
 "All documents x every byte offset at which a read can fail (including the read that would have found the end of file) x error kinds (throwing buffer, EIO, EISDIR, open failure, transient or sticky) x delivery schedules.",
 "No test has a failing source; the position of the failure is what matters.",
 ["src/load_msh.cpp"], [("stream state checks after each section and after the loop", "src/load_msh.cpp")], ["load_msh"])

prop("C07", "Corrupted documents are handled safely",
 "Loading a document whose stored bytes were damaged in any way (flipped bits, overwritten, lost, duplicated or reordered ranges, wrong counts) terminates within a bounded amount of work relative to its declared and actual size, and touches no memory outside its objects. It either throws a standard exception or returns a spec in which every array has the length its counts promise, so that it can be walked and saved safely. The outcome is a function of the bytes only: not of how they were delivered nor of the prior contents of memory.",
 ["fault_sequences", "inputs", "schedules"],
 "All documents x all sequences of storage faults applied to them, including faults aimed at counts, tags, types and delimiters x delivery schedules x memory fill patterns.",
 "The tests load four intact files; the space of damaged files is unbounded and includes values (negative, huge, overflowing) that no sample reaches.",
 LOADERS, [("count and range checks in the section readers", "src/load_msh_*.cpp"), ("regrouping by node tag", "src/load_msh_post_process.cpp")], ["load_msh", "validate_spec", "save_msh"])

prop("C08", "Write failures are reported; success means all bytes were stored",
 "If any write, flush or close needed to store a document fails (disk full, I/O error, sink that stops accepting or throws, file that cannot be opened), saving to a file throws, and saving to a stream throws or leaves the stream in a failed state. If neither happens, the sink or file holds the complete document; short or interrupted writes are completed without losing, repeating or reordering bytes, and in every failing case what reached the stream's sink is a prefix of the document, as is what a file whose writes keep failing holds (a file may also be left untouched or absent).",
 ["fault_sequences", "schedules", "inputs"],
 "All specs and formats x every byte offset and system call at which storing can fail (open, write, flush, close; ENOSPC, EIO, throwing buffer; sticky or transient) x short-write and EINTR schedules.",
 "No test has a failing sink and none saves to a file at all.",
 ["src/save_msh.cpp"] + SAVERS[1:], [("stream state check before returning", "src/save_msh.cpp")], ["save_msh", "std::ostream state", "file contents"])

prop("C09", "Out-of-memory fails cleanly and can be retried",
 "If any memory allocation fails during a load or a save, the operation either still completes with exactly the right result or ends with an exception (or, for a save to a stream, a failed stream); it never crashes, never returns partial or altered content as success, and never modifies the spec being saved. Once memory is available again, repeating the operation gives the normal result.",
 ["fault_sequences", "inputs"],
 "All documents and specs x every allocation index (single failure, or all from some point on, or all above a size) in load and save.",
 "The tests never run out of memory; each operation has dozens to thousands of allocation points.",
 LOADERS + SAVERS, [("exception propagation from containers and streams", "src/*.cpp")], ["load_msh", "save_msh"])

prop("C10", "Concurrent use behaves as if each call ran alone",
 "Threads may load and save at the same time, on distinct streams or files, sharing the same const spec or reading the same file: every call gives exactly the result it gives when run alone, whatever the interleaving, the global locale and the way files are named, and a call that fails (bad input, failing source or sink) does not affect the others. The calls are free of data races: no two of them access the same object, one of them writing, without synchronisation, and a shared const spec is only read.",
 ["schedules", "inputs", "fault_sequences"],
 "All sets of up to four concurrent load/save calls x all interleavings at basic-block, memory-access, stream-operation and allocation granularity x faults in some of them.",
 "The test program is single threaded.",
 LOADERS + SAVERS, [("absence of shared mutable state", "src/*.cpp")], ["load_msh", "save_msh"])

prop("C11", "Results depend only on the arguments, not on earlier calls",
 "In any history of loads, saves and format conversions, including calls that failed half-way and calls that a caller's stream makes while it serves another one, each call gives the result that it would give in a fresh process; a save leaves the spec it was given unchanged and saving it twice gives the same bytes. Converting back and forth between 4.1 ASCII, 4.1 binary, 2.2 ASCII and 2.2 binary any number of times loses nothing beyond what the formats involved cannot express, and re-saving a just loaded document that the library wrote, in its own format, and loading it again yields an equal spec.",
 ["histories", "fault_sequences", "inputs"],
 "All sequences of load, save, convert and overwrite operations on several documents, with failing operations (torn input, failing sink, no memory, unsupported content) in between.",
 "Each test performs one save and one load.",
 LOADERS + SAVERS, [("fresh spec per load, const spec per save", "src/load_msh.cpp, src/save_msh.cpp")], ["load_msh", "save_msh"])

prop("C12", "The ambient environment does not change the format",
 "The bytes a save produces and the spec a load returns do not depend on the global C or C++ locale, on the locale imbued in the caller's stream, on the formatting flags, precision, field width, fill or exception mask set on that stream, nor on the contents of uninitialised memory. After the call, successful or not, the caller's stream has the same locale, flags, precision, fill and exception mask as before and the global locales are unchanged, and so is everything else that belongs to the process: the working directory, the file mode mask, the floating-point environment, environment variables, signal handling, timers, resource limits, the standard descriptors, the thread's own locale, the state of the C library's random numbers, and the state of the standard streams and their coupling to stdio.",
 ["configurations", "inputs", "fault_sequences"],
 "All documents x locales with other decimal points and digit grouping (system and custom, global for C, for C++, or imbued) x stream flags (hex, oct, fixed, scientific, showpos, showbase, uppercase, noskipws, boolalpha), precision, fill, exception masks x heap fill patterns x fault-free and failing calls.",
 "The tests run in the C locale with default-formatted streams.",
 ["src/save_msh.cpp", "src/load_msh.cpp"], [("isolation from the caller's stream formatting", "src/save_msh.cpp, src/load_msh.cpp")], ["load_msh", "save_msh", "std::ios state"])

prop("C13", "NanoSpline extension sections round-trip or are skipped cleanly",
 "With the NanoSpline extension enabled, the extension version, curves and patches (all fields, weights, knots and data, exactly) survive a save and load in every version and encoding, next to unchanged standard sections. Without it, saving emits no extension section, and loading a document that contains them skips them and returns all standard sections, before and after them, intact.",
 ["inputs", "schedules", "configurations"],
 "All specs with curves and patches x both builds x four formats x transfer schedules x torn or failing sources.",
 "One spec with integer-valued control points is tested, patches are never compared, and the build without the extension never sees such a document.",
 ["src/load_msh_curves.cpp", "src/load_msh_patches.cpp", "src/save_msh_curves.cpp", "src/save_msh_patches.cpp", "src/load_msh_nanospline_format.h", "src/save_msh_nanospline_format.h", "include/mshio/MshSpecExt.h", "src/load_msh.cpp", "src/save_msh.cpp"],
 [("extension readers/writers", "src/*_curves.cpp, src/*_patches.cpp"), ("section skipping", "src/load_msh.cpp")], ["load_msh", "save_msh"])

prop("C14", "Unsupported content is refused, not misread",
 "A document whose header was damaged or written for something the library does not support is refused with an exception whichever section carries the problem: a version other than 2.2 or 4.1, a 4.1 data size other than 8, a binary byte-order mark other than native 1, an element type outside 1-31, an entities section in a 2.2 document, a data view with fewer than three integer tags. The refusal does not depend on delivery, encoding or what follows, and saving a spec whose version or element types are unsupported throws.",
 ["fault_sequences", "inputs", "schedules"],
 "All otherwise well-formed documents x every single damage of the listed kinds at every place it can occur x delivery schedules; and all specs with such content for saving.",
 "No test presents unsupported content.",
 ["src/load_msh_format.cpp", "src/load_msh_elements.cpp", "src/load_msh_entities.cpp", "src/load_msh_data.cpp", "src/element_utils.cpp", "src/save_msh_nodes.cpp", "src/save_msh_elements.cpp", "src/save_msh_entities.cpp", "src/save_msh.cpp", "src/save_msh_format.cpp"],
 [("version, data size and endianness checks", "src/load_msh_format.cpp"), ("element type check", "src/element_utils.cpp")], ["load_msh", "save_msh"])

prop("C15", "After a file save returns, a crash or restart finds the new document",
 "Once saving to a file has returned, the complete document is with the operating system: if the process dies immediately afterwards, loading the file gives the saved spec, with nothing left of a longer or shorter earlier file of that name. Saves to other files are not affected by it, and a process that dies during a save leaves a file whose load fails or returns only whole sections of the new document, or the complete earlier document.",
 ["crash_points", "histories", "inputs"],
 "All histories of saves over a few file names x a crash at every file-system call during and immediately after each save.",
 "No test saves to a file, overwrites one or restarts.",
 ["src/save_msh.cpp"], [("truncating open, buffered write, close before return", "src/save_msh.cpp")], ["file contents at the system-call boundary"])

prop("C16", "Every call releases what it acquired, however it ends",
 "A load or save that returns or throws, for whatever reason (success, malformed input, failing source or sink, failed allocation, unsupported content), leaves no open file descriptor, no mapped file, no leaked memory and no file but the one saved behind: repeating the same call any number of times does not increase resource use.",
 ["fault_sequences", "histories", "inputs"],
 "All operations x all fault kinds and positions, repeated.",
 "The tests check no resource use and never take an error path.",
 LOADERS + SAVERS, [("RAII ownership of buffers and file streams", "src/*.cpp")], ["open descriptors", "outstanding allocations"])

prop("C17", "Cost grows in proportion to the document",
 "The work a load or a save does, the memory it asks for and holds, the bytes it fetches from the source and the bytes it copies grow no faster than the document or spec in any dimension in which it can grow (nodes, elements, blocks, entities, lists, groups, names, views, entries, fields, tags, unknown sections and their size, white space), do not depend on how large or sparse the tags are, and the stack it uses does not grow at all. A call costs no more after many earlier calls than at first.",
 ["inputs", "histories"],
 "All documents and specs, scaled in each dimension by a factor of 32 or 100, under all deliveries; histories of calls.",
 "No test looks at time, memory or stack, and all test documents are small.",
 LOADERS + SAVERS + ["src/load_msh_post_process.cpp"], [("block growth while regrouping", "src/load_msh_post_process.cpp"), ("section loop and search for end tags", "src/load_msh.cpp")], ["executed basic blocks", "heap requests", "stack depth", "bytes moved"])

prop("C18", "Malformed text is rejected, not guessed at",
 "In a document that is well-formed but for one flaw in a section the library reads, where the flaw is that one number written as text is not a number of its kind (a word, a sign without digits or two signs, an exponent without digits, an unfinished 'nan' or 'inf', a value out of the range of its type), or that a section promises more entries than are there, or that a section's end tag is misspelt or missing and does not occur later, loading throws a standard exception: no value or entry is made up, and the rest of the document is not returned as if it were all. The same document without the flaw loads. This holds for ASCII documents and for the text parts of binary ones, however the bytes are delivered.",
 ["inputs", "fault_sequences", "schedules"],
 "All well-formed documents x every number written as text, entry count and end tag in them x flaws that nothing following can make good x delivery schedules.",
 "The tests load only intact files.",
 LOADERS + ["src/io_utils.cpp"], [("stream exceptions while parsing", "src/load_msh.cpp"), ("reading of floating-point words", "src/io_utils.cpp"), ("search for the end tag", "src/load_msh.cpp")], ["load_msh"])

prop("N01", "validate_spec accepts exactly the consistent specs",
 "The validation function accepts every spec whose counts, array sizes and tag ranges agree and throws a corrupt-data exception, without crashing, for every spec where they do not.",
 ["inputs"], "All specs, consistent or not.",
 "Tests only validate consistent specs.",
 ["src/validate_spec.cpp"], [("assertions over the spec", "src/validate_spec.cpp")], ["validate_spec"])
prop("N02", "Element catalogue matches the documentation",
 "For every element type id 1 to 31 the reported node count and dimension equal the documented ones, and every other id is refused with an exception.",
 ["inputs"], "All integer element type ids.",
 "Tests touch five of the 31 types.",
 ["src/element_utils.cpp", "README.md"], [("lookup tables", "src/element_utils.cpp")], ["nodes_per_element", "get_element_dim"])
prop("N03", "Python module exposes the same behaviour as the C++ library",
 "Every field and function the Python module exposes reads and writes the same spec as the C++ API, so that loading, editing and saving from Python equals doing so in C++.",
 ["inputs", "programs"], "All specs and all field accesses from Python.",
 "The Python binding has no tests.",
 ["python/pymshio.cpp", "python/mshio/__init__.py"], [("nanobind class bindings", "python/pymshio.cpp")], ["pymshio module"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
