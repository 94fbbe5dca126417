#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R, W = "src/io/read.rs", "src/io/write.rs"
T = "seeded deterministic simulation with fault injection; "
P = []
def p(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=T + technique, note=note, observe=observe or []))

DOM = " Documents are generated inside the domain written down in DESIGN.md; a seed is one exactly repeatable run."

p("C01", "Cells survive every history of edits, saves, crashes and loads",
  "After a save that reported success, loading the stored document gives back every cell exactly as it was: value of every type (including exact numbers, text with any character, rich text, dates, durations with fractions and sign, currency), formula, style, validation, spans, matrix spans, annotation and draw frames, at the same position, and no other cells. This holds for both formats, after any sequence of edits, overwrites, clears, reloads, earlier failed or crashed saves, and for documents that were loaded and edited before.",
  ["histories", "inputs", "crash_points", "fault_sequences"],
  "every history of cell edits, saves (ok, failed, crashed), crashes and loads over both formats",
  "Tests write one hand-made workbook and look at a few cells; they never combine repeats, spans, styles, rich text and several save/load generations, and never save after a failed save.",
  [R, W, "src/sheet_.rs", "src/cell_.rs", "src/value_.rs", "src/io/format.rs", "src/io/parse.rs"],
  [("write_table / write_cell", W), ("read_table_cell, set_value", R), ("repeat expansion in calc_cloned_sheet", R), ("duration/date formatting and parsing", "src/io/format.rs, src/io/parse.rs")],
  "cell-by-cell comparison with an executable reference model after every acknowledged save and reload",
  "Exploration of generated histories; the reference model of the public edit API is trusted.",
  ["WorkBook/Sheet accessors after a load"])
p("C02", "Sheet structure survives every history of edits, saves and loads",
  "After a save that reported success, loading gives back the same sheets in the same order with the same names, column and row styles, default cell styles, widths, heights and visibility, header rows and columns, row and column groups with their display state, print ranges, and sheet display settings. Changing one column, row or sheet never changes another one, before or after a save.",
  ["histories", "inputs", "fault_sequences", "crash_points"],
  "every history of sheet-structure edits, saves, crashes and loads over both formats",
  "Tests check single features of a fresh sheet; interactions of groups, headers, repeats and shared styles over several generations are not sampled.",
  [R, W, "src/sheet_.rs", "src/refs/format.rs"],
  [("calc_col_headers, calc_row_header_styles", W), ("write_start_row_groups / write_end_row_groups", W), ("read_table, read_table_columns, dedup_colheader", R)],
  "comparison of the sheet structure with an executable reference model after every acknowledged save and reload",
  "Exploration of generated histories; the reference model is trusted.")
p("C03", "Styles, formats, fonts, pages and validations survive every history",
  "After a save that reported success, loading gives back every named, automatic and default style of every family, value format with all its parts and conditions, font face, page style, master page with its headers and footers, and content validation with its messages, each with all its attributes and in the same place (common or automatic). Adding, replacing or removing one of them never changes another one.",
  ["histories", "inputs", "fault_sequences", "crash_points"],
  "every history of style edits, saves, crashes and loads over both formats (a flat document has a single place for automatic styles and fonts)",
  "Tests write a few styles once; they don't cover all families and places together or several generations of the same document.",
  [R, W, "src/style/mod.rs", "src/format/mod.rs", "src/validation.rs", "src/workbook_.rs"],
  [("write_office_styles / write_office_automatic_styles", W), ("read_styles_tag, read_style_style, read_value_format", R), ("style maps of the workbook", "src/workbook_.rs")],
  "comparison of all styles with an executable reference model after every acknowledged save and reload",
  "Exploration of generated histories; the reference model is trusted.")
p("C04", "Metadata, settings, scripts and event listeners survive every history",
  "After a save that reported success, loading gives back the document's metadata (titles, people, dates, editing duration and cycles, keywords, template, statistics, user-defined values with their types), workbook and sheet settings, scripts and event listeners as they were set. This holds over repeated generations of edits, saves and loads, in both formats.",
  ["histories", "inputs", "fault_sequences", "crash_points"],
  "every history of metadata and settings edits, saves, crashes and loads over both formats",
  "Tests check single metadata values on a fresh workbook; special characters, durations, and later generations are not sampled.",
  [R, W, "src/metadata.rs", "src/config.rs", "src/workbook_.rs"],
  [("write_office_meta, write_office_settings, write_office_scripts", W), ("read_office_meta, read_config_item_set, read_scripts", R), ("calc_metadata, calc_config", W)],
  "comparison with an executable reference model after every acknowledged save and reload",
  "Exploration of generated histories; the reference model is trusted.")
p("C05", "What the library doesn't interpret is carried through unchanged",
  "Package files the library doesn't know (with name, media type and every byte) and XML it keeps without interpreting it, at workbook, sheet and cell level, with the namespaces it needs, are still in the document after any number of loads, edits of other things and saves. Each appears once, in its place, with its attributes, text and nesting.",
  ["histories", "inputs", "fault_sequences"],
  "every history in which another program adds files and XML to a stored document between the library's saves",
  "Tests only re-save documents made by one program; they don't inject nested or same-named elements, mixed text, or extra files over several generations.",
  [R, W, "src/manifest.rs", "src/xmltree.rs", "src/workbook_.rs"],
  [("read_ods_extras / write_ods_extra", R + ", " + W), ("read_xml / write_xmltag", R + ", " + W), ("namespace map", "src/io/mod.rs")],
  "another program edits the stored document between saves; conservation of files and XML trees is checked with the simulator's own zip and XML reader",
  "Exploration; the simulator's own zip and XML code is trusted.")
p("C06", "Alternating between package and flat format loses nothing",
  "A workbook that is saved and loaded in any alternation of the package format and the flat format keeps all its cells, structure, styles, metadata and settings. Only what the flat format has no room for may change: extra files of the package, and which of the two places an automatic style or font is listed in.",
  ["histories", "configurations", "fault_sequences"],
  "every alternation of the two formats over edit/save/load histories",
  "Tests exercise each format alone and once; no test converts back and forth.",
  [R, W],
  [("write_fods_content", W), ("read_fods_impl", R), ("write_ods_impl", W)],
  "comparison of the whole workbook with an executable reference model over histories that change format",
  "Exploration of generated histories; the reference model is trusted.")
p("C07", "A save that reports success has delivered every byte",
  "When any of the saving functions returns success, every byte of the document has reached the file, writer or buffer given to it, and the document there loads back as the workbook that was saved. When the device rejects a write, a flush or a seek for good, or the file can't be created, the function returns an error.",
  ["fault_sequences", "inputs", "configurations"],
  "every error, short write, buffering and position at which the device can fail, for every saving function",
  "Tests only write to healthy disks; the failing call, the byte at which it fails and the buffering above it are all outside their reach.",
  [W, "src/io/xmlwriter.rs", "src/error.rs"],
  [("flush after the last byte", W), ("error propagation of XmlWriter and ZipWriter", "src/io/xmlwriter.rs, " + W)],
  "error injection at every simulated write/flush/seek/open position; acknowledged ⇒ delivered and readable",
  "Exploration of fault positions; the simulated device is trusted. Errors of close() can't be reported by the API and count as harmless.")
p("C08", "Saving leaves the workbook as it was and can be repeated",
  "Saving, whether it succeeds or fails, doesn't change what the workbook shows through its public interface, apart from what the library documents it fills in on save. After a failed save the same workbook can be saved again, and saving the same workbook twice gives two documents with the same content, in any mix of the two formats.",
  ["histories", "fault_sequences"],
  "every history of successful and failed saves, in both formats, at every failing position",
  "Tests save once and drop the workbook.",
  [W, "src/workbook_.rs", "src/sheet_.rs"],
  [("calculations() before writing", W), ("detach_sheet / attach_sheet", "src/workbook_.rs"), ("create_manifest", W)],
  "observation of the whole public state before and after each save, with injected failures in between",
  "Exploration; what the observation reads through the public API is what counts.")
p("C09", "A read error is never turned into a document",
  "When the device returns an error while a document is loaded, for any byte and any of the loading functions, the load returns an error or gives the complete workbook because the failing bytes weren't needed or the device recovered. It never returns a workbook with parts missing, never panics and always ends.",
  ["fault_sequences", "inputs"],
  "every read, seek and open error at every position, transient or permanent, for every loading function",
  "Tests never make a read fail.",
  [R, "src/error.rs"],
  [("error propagation from zip and quick-xml", R), ("optional package parts", R)],
  "error injection at every simulated read/seek/open position; the result must be an error or the full workbook",
  "Exploration of fault positions; the simulated device is trusted.")
p("C10", "An interrupted save is never taken for a complete document",
  "If a save fails or the process dies at any byte, or the file is cut short at any byte afterwards, loading what is left gives an error or the complete workbook of that save (or of an earlier save if the file wasn't touched). It never gives a workbook with parts missing, never panics and always ends.",
  ["crash_points", "fault_sequences", "inputs"],
  "every crash point, failing write and truncation, both formats, all loading functions",
  "Tests never interrupt a save or cut a file.",
  [R, W],
  [("end-of-document handling of all readers", R), ("order of the package parts and the directory at the end", W), ("abort of an incomplete part", W)],
  "crashes and torn files at seeded byte positions, restart with only durable state, then load",
  "Exploration of crash points. Lost sectors are injected for package documents only (a flat document has no checksum).")
p("C11", "A damaged stored document is never loaded as different data",
  "If bits inside the stored data of a package change, or sectors are lost or swapped, loading gives an error or exactly the workbook that was saved, never a different one. Whatever byte of a package or flat document is damaged, loading ends without a panic, endless loop or unbounded memory.",
  ["fault_sequences", "inputs"],
  "every position and kind of damage to the stored bytes",
  "Tests only read intact files.",
  [R],
  [("checksum of each package member", R), ("error propagation and bounds in the readers", R)],
  "bit flips, lost and swapped sectors at seeded positions between save and load",
  "Exploration. Header and directory damage and flat documents carry no checksum, there only termination without panic is required.")
p("C12", "I/O chunking, interruptions and the chosen function make no difference",
  "Which saving or loading function is used, the size of the pieces in which the device accepts or returns data, interrupted system calls and the buffer sizes of the caller make no difference to the saved document or the loaded workbook. An interruption is either retried or reported as an error, never dropped.",
  ["schedules", "configurations", "fault_sequences"],
  "every chunking, interruption and entry point",
  "Tests use whole-file I/O with one function each.",
  [R, W, "src/io/xmlwriter.rs"],
  [("write_all/read_to_end loops", "src/io/xmlwriter.rs, " + R), ("entry points read_ods/_from/_buf, write_ods/_to/_buf/_buf_uncompressed and the flat ones", R + ", " + W)],
  "metamorphic comparison of loads and saves under different chunkings, interruptions and entry points",
  "Exploration of chunkings; the undisturbed load through one function is the reference.")
p("C13", "Hash seeds and the clock don't influence the document",
  "The random seeds of the process, the wall clock at the time of the save or load, and jumps of that clock in any direction make no difference to what is saved or loaded, except for a date the library documents to set itself. No clock value makes a save or load fail or panic.",
  ["schedules", "configurations", "histories"],
  "every hash seed and every clock history",
  "Tests run under the real clock and one random seed per process and never compare two runs.",
  [W, R, "src/workbook_.rs", "src/metadata.rs"],
  [("HashMap iteration when writing", W), ("calc_metadata", W), ("zip time stamps", W)],
  "the same history is run in two worlds with different hash seeds and clocks and the observations are compared",
  "Exploration of seed pairs. Clock values for which the zip or time crates themselves panic (beyond year 9999) are outside the domain.")
p("C14", "Concurrent users of different workbooks don't influence each other",
  "Threads that create, edit, save and load their own workbooks at the same time, in any interleaving and with faults hitting only some of them, each get the same results as if they ran alone. No interleaving deadlocks.",
  ["schedules", "fault_sequences"],
  "every interleaving at the seeded preemption points (system calls and allocations)",
  "Tests run on free-running threads whose schedule they don't control and never compare with a solo run.",
  ["src/lib.rs", "src/workbook_.rs", R, W, "src/locale/mod.rs"],
  [("no shared mutable state besides lazily built locale tables", "src/locale/mod.rs"), ("thread-local counters and caches", "src")],
  "seeded cooperative scheduler over real client threads; each client's history is compared with its solo run",
  "Exploration of schedules; preemption happens at simulated system calls and allocations.")
p("C15", "Every successful save is a valid document",
  "Every document a successful save leaves behind is a well-formed package: zip structure and checksums agree, mimetype first and stored, a manifest that lists exactly the members, and in each part (or the flat file) well-formed XML with declared namespaces, unique attributes, no duplicate names, elements in an order and nesting the format allows.",
  ["inputs", "histories", "fault_sequences"],
  "every document reachable by edits, loads and saves, including saves after failures",
  "Tests only read their output back with the same library.",
  [W, "src/io/xmlwriter.rs", "src/manifest.rs"],
  [("write_ods_impl, create_manifest", W), ("escaping in XmlWriter", "src/io/xmlwriter.rs")],
  "an independent zip/XML/ODF structure checker judges every acknowledged save",
  "Exploration; the checker covers structure, not the complete ODF schema.")
p("C16", "Loading with options shows the same data as a full load",
  "Loading with any combination of content-only, repeat-instead-of-clone and ignore-empty-cells shows the same sheets and the same cells with value or formula as the full load, once repeat counts are expanded. Options only leave out what they document to leave out and never add or move anything.",
  ["configurations", "inputs", "histories"],
  "every combination of options on every document reachable by edits and saves",
  "Tests use one option on one sample file.",
  [R],
  [("OdsOptions", R), ("calc_repeat_sheet / calc_cloned_sheet, ignore_cell", R)],
  "metamorphic comparison of option loads with the full load of the same stored bytes",
  "Exploration; the full load, judged by C01 and C02, is the reference.")
p("C17", "Every way of reading a workbook agrees with the history of edits",
  "After every single edit, save or load, all ways of looking at a workbook show the same state, and it is the state the history of edits leads to: cell getters by value, reference and copy, typed getters, iteration over all cells, over row-major and column-major ranges of any kind of bounds in any mix of directions the iterators offer, look-ahead and size hints, grid size, lookup of sheets, styles, formats, fonts, pages, validations and scripts by name and by position, and existence tests. An edit changes what it names and nothing else.",
  ["histories", "inputs", "fault_sequences"],
  "every history of edits, saves and loads, looked at after each step through every accessor",
  "Tests look at a cell right after setting it; they don't compare the accessors with each other, nor after long histories.",
  ["src/sheet_.rs", "src/cell_.rs", "src/workbook_.rs", "src/value_.rs"],
  [("CellIter, IterRows, IterCols, Range", "src/sheet_.rs"), ("header splitting for columns and rows", "src/sheet_.rs"), ("style maps, sheet list", "src/workbook_.rs")],
  "the executable reference model is compared with every accessor after every step of a history",
  "Exploration of generated histories; the reference model of the public edit API is trusted.")
p("C18", "Another program finds in a stored document what the workbook shows",
  "Whatever a successful save stores, an independent reader that knows only the document format (not this library's reader) finds the same content in it: every cell with type, value, formula, text and style at its place, repeats, spans and covered cells, columns, rows, groups, headers, visibility, styles of all families, formats, pages, validations, metadata, settings and scripts. So the library's writer and reader can't agree on something other than the format.",
  ["histories", "inputs", "fault_sequences", "crash_points"],
  "every acknowledged save of every history, read by an independent reader",
  "Tests read back with the same library, so a mistake made in the same way by writer and reader stays invisible.",
  [W, "src/io/format.rs", "src/io/xmlwriter.rs", "src/refs/format.rs"],
  [("write_sheet, write_cell", W), ("write_office_styles, write_valuestyles", W), ("write_meta, write_settings", W), ("format_* functions", "src/io/format.rs")],
  "an independent ODF reader (own zip, XML and value parsers) compares every acknowledged save with the executable reference model",
  "Exploration; the independent reader and the reference model are trusted. It reads what the public interface can set; foreign content is C05.")
p("C19", "The same document written differently by another program loads the same",
  "Between two loads another program stores the document again, with the same content written in another way the formats allow: other order of attributes, members and declarations, other quotes, character references or CDATA sections, comments and processing instructions anywhere, white space where it means nothing, start and end tag or an empty tag, byte order mark, stored or deflated members, data descriptors and extra fields, split or joined repeats, trailing blank cells and rows, row wrappers, equivalent spellings of values. The workbook loaded afterwards shows the same.",
  ["histories", "inputs", "configurations"],
  "every stored document of every history and every combination of equivalent rewritings of it",
  "Tests read files of a few programs; each has one way of writing.",
  [R, "src/io/parse.rs", "src/xmltree.rs"],
  [("event loops of the reader", R), ("value parsers", "src/io/parse.rs")],
  "a simulated foreign program rewrites stored documents (seeded, 18 kinds of equivalent rewriting); metamorphic comparison of the loads",
  "Exploration; the rewriter is trusted to keep the meaning. Processing instructions and comments inside of text count as nothing.")
p("C20", "A malformed document is loaded or refused, never a panic or hang, and what was loaded can be saved",
  "Documents of another, buggy or hostile program, well-formed as a container or not, with missing, doubled, misplaced, unknown or mistyped elements, attributes and values, are either loaded or refused with an error: no panic, no endless loop, no runaway allocation from small numbers. A workbook that was loaded can be looked at and saved again, and the document stored that way loads and shows what the workbook showed.",
  ["inputs", "histories", "fault_sequences"],
  "every stored document of every history and every sequence of malformations",
  "Tests read valid files; malformed ones are a much larger space.",
  [R, "src/io/parse.rs", W, "src/config.rs"],
  [("attribute and value handling of the reader", R), ("calc_config, calc_metadata before a save", W)],
  "a simulated hostile program damages the structure of stored documents (seeded); panic/progress monitor on load, look, save; save/load idempotence",
  "Exploration. Repeat counts the machine's memory can't hold are outside; groups and headers of tables with contradicting structure and embedded text without position need not be stable.")

NA = [
 ("N01", "Cell references parse and format consistently", "Parsing a formatted cell, range, column or row reference gives the same reference, and formulas quote sheet names that need it.",
  ["src/refs.rs", "src/refs/parser.rs", "src/refs/format.rs", "src/refs_impl/parser.rs"], "pure functions of their arguments: no schedule, clock, I/O or fault changes their result. What is stored in documents through them is decided in C01/C02."),
 ("N02", "Formula and condition builders produce the documented syntax", "The formula and condition helpers produce exactly the text documented for their arguments.",
  ["src/formula.rs", "src/condition.rs"], "pure functions: nothing for a simulator to schedule or to fail."),
 ("N03", "Unit and locale helpers are consistent", "Lengths, angles and locale-specific default formats are rendered the same way for the same arguments.",
  ["src/style/units.rs", "src/locale/mod.rs"], "pure functions of their arguments; their use in documents is decided in C03, and lazily built tables shared between threads in C14."),
]

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({
                "id": q["id"], "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["text"]},
                "why_tests_cant": q["why"],
                "anchors": {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]],
                            "observe_at": q["observe"] or ["public API after load", "bytes in the simulated file"], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
        for i, t, s, files, why in NA:
            f.write(json.dumps({
                "id": i, "title": t, "statement": s,
                "quantifier": {"over": ["inputs"], "text": "every argument"},
                "why_tests_cant": "Tests sample a few arguments.",
                "anchors": {"files": files, "mechanism": [{"name": t, "where": ", ".join(files)}], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "bash check.sh build",
         "checks": [{"property": q["id"], "quick_cmd": f"bash check.sh {q['id']} quick", "thorough_cmd": f"bash check.sh {q['id']} thorough",
                     "technique": q["technique"], "level": "exploration", "level_note": q["note"] + DOM} for q in P],
         "not_applicable": [{"property": i, "reason": why} for i, t, s, files, why in NA]}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
main()
