"""Writes properties.jsonl and MANIFEST.json (run after editing: python3 tools/props.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NOTE = {}


def p(id, title, statement, over, text, why, files, mech, note, observe=()):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()), "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": list(observe)}})
    NOTE[id] = " ".join(note.split())


CP = "src/cparser.c"
AB = "src/abstraction.c"

p("C01", "Parsing splits text into the cells and rows of the dialect's grammar",
  """For every text and every dialect (delimiter, quote character and escape character each one character or absent), reading the text gives
  exactly the rows and cells of the documented grammar: records end at \\n, \\r or \\r\\n outside quotes, a cell that starts with the quote character
  extends to its closing quote, doubled quotes stand for one quote, the escape character makes the next character literal. The only error that is raised is
  the documented parser error, and only for input that the grammar does not allow. Asking for quoting flags does not change the cells.""",
  ["inputs", "configurations"], "all texts and all dialects, strict or not",
  "The parser tests compare a few dozen literal strings with fixed dialects; the state machine has many more transitions (quotes after text, escapes before line ends, "
  "carriage returns at the end of input) than they visit.",
  [CP, "clevercsv/cparser_util.py"],
  [("parse_process_char state machine", CP), ("parse_save_field", CP), ("parse_data, parse_string", "clevercsv/cparser_util.py")],
  """Symbolic execution of clang's LLVM IR of the parser and of the Python around it against an independent reference parser; every text up to 4 characters (6 thorough) for six
  dialects and up to 3 (4) for fully symbolic dialects.""")

p("C02", "Parsing does not depend on how the input is cut into pieces",
  """The rows read from an iterable of strings are those of the concatenated text whenever the pieces are whole lines, and any iterable of strings (list, generator, file) with
  the same items gives the same rows. Wherever the input is cut, reading gives the same cells as a reader that is fed the same pieces in any other kind of iterable, and never loses or repeats
  characters.""",
  ["inputs", "histories"], "all texts, all ways to cut them, all kinds of iterables, all dialects",
  "Tests feed whole strings or one list of lines; the pending state between two pieces (open quotes, escape at the end of a piece, a split \\r\\n) is only hit by particular cuts.",
  [CP, "clevercsv/cparser_util.py", "clevercsv/read.py"],
  [("Parser_iternext reads pieces and keeps the pending state", CP)],
  "Symbolic execution of the LLVM IR and Python; two pieces of up to 2 characters (three in thorough).")

p("C03", "Well-formed CSV is read back exactly",
  """A table of cells written according to RFC 4180 (any cell may be quoted, cells with special characters must be, quotes inside are doubled, records end in \\r\\n, \\n or \\r, the
  last line end may be missing) is read as exactly that table.""",
  ["inputs", "configurations"], "all tables, all choices of quoting and line ends, all delimiters and quote characters",
  "Tests sample a few literal files.", [CP], [("parse_process_char", CP), ("parse_save_field strips the surrounding quotes", CP)],
  "Symbolic execution over symbolic cells and symbolic delimiter/quote within small table shapes.")

p("C04", "Tables that are written are read back cell for cell",
  """Whatever table of strings the writer accepts for a dialect, the reader returns the same table for the text that was written with the same dialect. With a dialect that can
  represent every cell (it has a quote character or an escape character that can be used) the writer accepts every table without null characters.""",
  ["inputs", "configurations"], "all tables of strings within the shapes, all dialects given as name, csv.Dialect class or instance, or SimpleDialect",
  "Round trips in the tests use a handful of rows and the excel dialect; special characters interact (quote next to delimiter, escape before quote, lone empty cell).",
  ["clevercsv/write.py", "clevercsv/read.py", CP],
  [("writer converts the dialect", "clevercsv/write.py"), ("reader converts the dialect", "clevercsv/read.py")],
  "Symbolic execution of writer (over a model of CPython's _csv writer that is compared with the real one on sampled paths) and reader.")

p("C05", "Strict mode reports malformed quoting, and nothing else",
  """In strict mode reading raises the parser error exactly when a closing quote is followed by something other than a delimiter, a line end or the end of the cell, or when the
  input ends inside a quoted cell or after an escape character. For every other input strict mode gives the same rows as the default mode.""",
  ["inputs", "configurations"], "all texts and dialects", "There are only a few strict mode tests.",
  [CP], [("strict branches of parse_process_char and Parser_iternext", CP)],
  "Symbolic execution of the LLVM IR against the reference grammar; texts up to 4 (6) characters.")

p("C06", "The field size limit holds and is given back",
  """No cell longer than the current field size limit is returned: reading raises the parser error as soon as a cell would exceed it and accepts every cell that fits. Setting the
  limit returns the previous one and refuses values that are not integers; dialect detection leaves the limit as it was, also when it fails.""",
  ["inputs", "histories", "configurations"], "all texts, limits and sequences of setting the limit, reading and detecting",
  "The tests set the limit in two ways on one text.", [CP, "clevercsv/cparser_util.py", "clevercsv/consistency.py", "clevercsv/detect.py"],
  [("parse_add_char compares the length with the limit", CP), ("field_size_limit", "clevercsv/cparser_util.py"), ("detect raises and restores the limit", "clevercsv/detect.py")],
  "Symbolic execution; limits 0 to 3 with all short texts, and the default limit with cells of 131071 to 131073 characters.")

p("C07", "The C extensions are memory safe and leak nothing",
  """For every input, every argument and every order of calls, the C extensions read and write only memory they own, hand out and release every reference exactly once, and never
  crash. When memory runs out at any allocation, or an argument or the input iterator misbehaves, they raise an exception and leak nothing.""",
  ["inputs", "histories", "fault_sequences"], "all texts and dialects within the bounds, failure of every single allocation, all misuse of arguments and iterators",
  "Tests cannot see an overrun or a leak, never fail an allocation and never grow a buffer at its exact boundary.",
  [CP, AB], [("parse_grow_buff", CP), ("reference counting in cparser_parser, Parser_iternext, Parser_dealloc", CP), ("buffers of base_abstraction, merge_with_quotechar, fill_empties", AB)],
  """Symbolic execution of the LLVM IR on a byte-precise memory and reference count model with fault injection at every allocation; counterexamples are replayed under
  AddressSanitizer, valgrind or repeated-run leak measurement.""")

p("C08", "Cells and abstractions are ordinary Python strings",
  """Every string the parser or the abstraction returns is a well-formed str in its canonical representation: it compares, hashes, encodes and concatenates like a string with the same
  characters made by Python itself.""",
  ["inputs", "configurations"], "all texts, including characters of every width, and all dialects",
  "A string with the wrong internal width compares unequal only for particular mixes of wide and narrow characters, which the tests do not contain.",
  [CP, AB], [("PyUnicode_FromKindAndData in parse_save_field", CP)],
  "Symbolic execution of the LLVM IR; the model rejects a unicode object whose stored width is not the smallest one.")

p("C09", "The pattern score is the one defined for row patterns",
  """The abstraction of a text under a dialect is the defined sequence of cell, delimiter, row and quote marks, and the pattern score is the defined function of the
  number, the length and the kind of the distinct row patterns, with the given minimum for patterns of a single cell. It is positive for every text.""",
  ["inputs", "configurations"], "all texts and dialects; all sequences of abstraction marks",
  "The tests contain about fifty literal pairs.", ["clevercsv/detect_pattern.py", AB], [("base_abstraction", AB), ("merge, fill and strip steps", "clevercsv/detect_pattern.py"), ("pattern_score", "clevercsv/detect_pattern.py")],
  "Symbolic execution of C and Python against an independent definition; texts up to 5 (7) characters and mark sequences up to 6 (8).")

p("C10", "The candidate dialects are complete and well-founded",
  """The candidate dialects for a text are exactly the combinations of delimiter, quote and escape characters that the definition allows: delimiters are characters of the text of allowed
  categories that are not blocked, quote characters occur outside URLs, an escape character precedes a delimiter or a quote character, and each absent part is allowed as well.
  When the caller names delimiters only those are used. There are no duplicates.""",
  ["inputs", "configurations"], "all texts and all sets of allowed delimiters",
  "Tests list candidates for a few strings.", ["clevercsv/potential_dialects.py", "clevercsv/escape.py"],
  [("get_dialects", "clevercsv/potential_dialects.py"), ("is_potential_escapechar", "clevercsv/escape.py")],
  "Symbolic execution against an independent definition; texts up to 3 (4) characters.")

p("C11", "Detection always gives a valid dialect or no dialect",
  """For every text, detection by any method returns a dialect or None and raises nothing: the delimiter is empty or a character of the text (and one of the allowed ones when they are given), the
  quote character is empty or one of the known ones, the escape character is empty or a character of the text. The automatic method gives the normal form's answer when there is one
  and the consistency measure's otherwise, and all entry points agree.""",
  ["inputs", "configurations"], "all texts, methods, sets of delimiters and entry points",
  "Tests detect a few dozen samples; totality over all texts (unbalanced quotes, blank lines, control characters) is not sampled.",
  ["clevercsv/detect.py", "clevercsv/consistency.py", "clevercsv/normal_form.py", "clevercsv/wrappers.py"],
  [("Detector.detect", "clevercsv/detect.py"), ("detect_dialect_consistency", "clevercsv/consistency.py"), ("detect_dialect_normal", "clevercsv/normal_form.py")],
  "Symbolic execution of the whole detection pipeline (Python and C) on all texts up to 3 characters and on templates with unknown characters.")

p("C12", "Detection is a deterministic function of the text",
  """Detecting the same text again gives the same dialect whatever was detected or read before, in every process and for every hash seed. Detection changes no setting that other
  calls can see.""",
  ["inputs", "histories", "configurations"], "all texts, all histories of earlier calls, all iteration orders of sets",
  "Tests run one process with one hash seed, once per sample.",
  ["clevercsv/detect.py", "clevercsv/consistency.py", "clevercsv/break_ties.py", "clevercsv/potential_dialects.py"],
  [("sets and caches in candidate construction, scoring and tie breaking", "clevercsv/potential_dialects.py, clevercsv/consistency.py, clevercsv/break_ties.py")],
  "Symbolic execution under different iteration orders of every set, and with another text detected before; counterexamples are replayed with several hash seeds.")

p("C13", "Skipping low pattern scores does not change the result",
  """Leaving out type scores for dialects whose pattern score cannot win gives the same best dialects and the same detected dialect as computing all of them.""",
  ["inputs", "configurations"], "all texts and candidate dialects", "Tests compare the two modes on two samples.",
  ["clevercsv/consistency.py"], [("skip in compute_consistency_scores", "clevercsv/consistency.py")],
  "Symbolic execution of both modes on the same symbolic text.")

p("C14", "Breaking ties follows the rules and picks one of the tied dialects",
  """For every set of tied dialects the tie breaker returns one of them or None, independent of their order and of the hash seed. When two of them
  differ in only one part the documented rules decide: quote characters that change nothing are dropped, comma beats space and dash, escape characters are kept only when they escape something.""",
  ["inputs", "configurations"], "all texts and all sets of up to four tied dialects from a pool that covers every rule",
  "Tests have one sample for each rule.", ["clevercsv/break_ties.py"],
  [("tie_breaker, reduce_pairwise, break_ties_two/three/four", "clevercsv/break_ties.py")],
  "Symbolic execution over symbolic texts and chosen sets of dialects under different set orders.")

p("C15", "Normal forms are accepted exactly when the definition holds",
  """Normal form detection returns a dialect exactly when the text is in one of the documented normal forms for it (all cells quoted; all unquoted elementary cells; quoted and
  elementary cells mixed; quoted single column; elementary single column), in the documented order of preference and with equal numbers of cells in all rows where demanded.""",
  ["inputs", "configurations"], "all texts and sets of delimiters", "Tests contain a few accepted and rejected texts for each form.",
  ["clevercsv/normal_form.py"], [("is_form_1 to is_form_5", "clevercsv/normal_form.py"), ("split_row, split_file", "clevercsv/normal_form.py")],
  "Symbolic execution against an independent definition; all texts up to 3 (4) characters and templates with up to four unknown characters.")

p("C16", "Cell types are those of their definitions",
  """For every cell each type (number, date, time, date with time, URL, e-mail, IPv4 address, percentage, currency, path, JSON, not available, empty, alphanumeric text, byte array) is reported exactly when the
  cell is of the documented form, the first matching type in the documented order is given, surrounding white space does not matter, and no cell makes type detection fail.""",
  ["inputs"], "all cells", "Tests list a few dozen cells for some types.", ["clevercsv/detect_type.py"],
  [("TypeDetector and its patterns", "clevercsv/detect_type.py")],
  "Symbolic execution of the type tests (regular expressions are run symbolically) against hand-written recognisers; all cells up to 3 (4) characters and templates for longer forms.")

p("C17", "Dialect objects are values that validate and serialize faithfully",
  """Two dialects are equal exactly when their parts are equal, equal dialects hash alike, and the order is a strict total order. A dialect accepts exactly parts that are absent or a single
  character and equals the result of converting it to and from a dictionary or its serialized form.""",
  ["inputs", "configurations"], "all parts of dialects", "Tests use fixed dialects.", ["clevercsv/dialect.py"],
  [("SimpleDialect", "clevercsv/dialect.py")], "Symbolic execution with all parts symbolic (any character or absent).")

p("C18", "Conversion to and from the csv module keeps the dialect",
  """Converting a dialect to the csv module's form and back gives an equal dialect, the csv module accepts the converted dialect whenever it can express it, and converting a csv dialect keeps
  its delimiter, quote character (none when quoting is off), escape character and strictness.""",
  ["inputs", "configurations"], "all dialects and all csv.Dialect classes, instances and registered dialects", "Tests convert three fixed dialects.",
  ["clevercsv/dialect.py"], [("to_csv_dialect, from_csv_dialect", "clevercsv/dialect.py")], "Symbolic execution with all parts symbolic.")

p("C19", "The reader is an iterator that goes on where it was",
  """Any mixture of iterating, asking for the next row and reading the line number of a reader yields every row once and in order, ends with StopIteration and stays at
  the end. A reader accepts its dialect as name, class, instance, SimpleDialect or keyword arguments with the same meaning, and never modifies what it was given.""",
  ["histories", "inputs", "configurations"], "all sequences of operations on a reader and all ways to name the dialect", "Tests iterate each reader once.",
  ["clevercsv/read.py"], [("reader.__iter__ and __next__", "clevercsv/read.py"), ("reader._make_simple_dialect", "clevercsv/read.py")],
  "Symbolic execution with symbolic texts and a symbolic sequence of operations.")

p("C20", "Dictionary readers and writers behave like those of the csv module",
  """Reading records as dictionaries and writing dictionaries gives the same records, the same treatment of missing and extra cells, of blank rows and of unknown keys, and the same text, as the
  csv module's classes of the same name; names that are not unique are warned about. The writer produces exactly the text, the errors and the return values the csv module produces for the same
  dialect and formatting options.""",
  ["inputs", "configurations", "histories"], "all rows, field names, rest keys and values, and formatting options", "Tests are ported from CPython and sample each option once.",
  ["clevercsv/dict_read_write.py", "clevercsv/write.py"], [("DictReader, DictWriter", "clevercsv/dict_read_write.py"), ("writer", "clevercsv/write.py")],
  "Symbolic execution of both implementations (CPython's csv.py source and this one) side by side.")

p("C21", "Reading a file gives the reader's rows under the given or detected dialect",
  """Reading a whole file or streaming it, as rows or as dictionaries, gives exactly what the reader gives for the file's text with the given dialect, or else with the dialect detected from the first
  characters asked for (the whole text by default). When there is no dialect the documented error is raised; streams can be left at any time and the file is only read.""",
  ["inputs", "configurations", "histories"], "all file contents, dialects, encodings and numbers of characters", "Tests read a few files with default options.",
  ["clevercsv/wrappers.py"], [("stream_table, stream_dicts, read_table, read_dicts, detect_dialect", "clevercsv/wrappers.py")],
  "Symbolic execution over a model of the file system; file contents symbolic within templates.")

p("C22", "Writing a table to a file writes the whole table or refuses it",
  """Writing a table or a list of dictionaries gives a file that holds exactly the text of the csv module for it (transposed when asked) and reads back as the same table. A ragged table is
  refused with an error before the file is touched, an empty one leaves no file, and text the encoding cannot hold raises an error.""",
  ["inputs", "configurations"], "all tables within the shapes, dialects, encodings and kinds of iterables", "Tests write two tables.",
  ["clevercsv/wrappers.py"], [("write_table, write_dicts", "clevercsv/wrappers.py")], "Symbolic execution over a model of the file system.")

p("C23", "Standardizing keeps every cell and reports what it did",
  """The standardize command writes exactly the cells the reader gives for the file with the detected dialect, in RFC 4180 form (transposed when asked, short rows filled up), to standard output, to the given output or
  in place, in the target encoding. The exit code is 2 exactly when an in-place run changed a file, 1 when detection failed or the options do not fit together, and 0 otherwise; no other file is made or changed.""",
  ["inputs", "configurations"], "all file contents, options and combinations of files", "Tests run the command on a few tables.",
  ["clevercsv/console/commands/standardize.py", "clevercsv/utils.py"], [("StandardizeCommand", "clevercsv/console/commands/standardize.py"), ("sha1sum", "clevercsv/utils.py")],
  "Symbolic execution of the command line application over a model of the file system; includes a file of more than 64 KiB.")

p("C24", "Standardizing never loses a file",
  """Whatever fails while a file is standardized (any open, write, close or rename, text the target encoding cannot hold, or input that cannot be read), and wherever the process is stopped, the file
  holds its old content or the complete new one and keeps its mode. A failure is reported, and no temporary file is left after it.""",
  ["fault_sequences", "crash_points", "inputs"], "failure of every single file operation and a stop at every operation, for all file contents within the templates, with the temporary directory on the same or another device",
  "No test makes an operation fail.", ["clevercsv/console/commands/standardize.py"], [("_in_place writes a temporary file and replaces the original in one step", "clevercsv/console/commands/standardize.py")],
  "Symbolic execution with the failing or last operation as a symbolic choice; replayed natively with the same operation failing.")

p("C25", "Generated code reads the file it was generated for",
  """The program the code command prints is valid Python for every file name, encoding and dialect, and running it reads exactly the rows (or hands pandas exactly the dialect) that were detected for the file.""",
  ["inputs", "configurations"], "all dialect characters, file names and file contents within the bounds", "Tests compare the output for two files with harmless names.",
  ["clevercsv/console/commands/_utils.py", "clevercsv/console/commands/code.py"], [("generate_code", "clevercsv/console/commands/_utils.py")],
  "The generated source, with unknown characters in its string literals, is split, compiled and executed symbolically; natively it is executed as it is.")

p("C26", "URLs and quoted text do not hide or invent candidates",
  """A character counts as masked exactly when every place it occurs lies between an opening and a closing quote character that is not escaped; a candidate dialect whose delimiter is masked is left out, all
  others are kept. Text of URLs contributes no delimiter, text around them does.""",
  ["inputs", "configurations"], "all texts, quote and escape characters; URLs from a list between all texts", "Tests contain one URL sample and no masking sample.",
  ["clevercsv/potential_dialects.py"], [("masked_by_quotechar, filter_urls", "clevercsv/potential_dialects.py")], "Symbolic execution against an independent definition; texts up to 4 (5) characters.")

p("C27", "Consistency scores and best dialects follow the definition",
  """The consistency score of each candidate dialect is the product of its pattern score and its type score, the type score is the share of cells of a known type (at least the given minimum), and the best dialects are exactly those with the
  highest score. Scores do not depend on which texts the detector saw before.""",
  ["inputs", "histories", "configurations"], "all texts, candidate dialects and histories of a detector object", "Tests have three score samples and no history.",
  ["clevercsv/consistency.py", "clevercsv/detect_type.py"], [("compute_consistency_scores, get_best_dialects, compute_type_score", "clevercsv/consistency.py"), ("type_score", "clevercsv/detect_type.py")],
  "Symbolic execution against independent definitions of both scores.")

p("C28", "The detect command prints the detected dialect",
  """The detect command prints exactly the parts of the dialect that detection gives for the file with the chosen method, number of characters and encoding, in each of its output styles, and the
  JSON style is a JSON object with exactly the documented keys. The exit code is 0, or 1 with nothing printed when there is no dialect.""",
  ["inputs", "configurations"], "all file contents within the templates and all combinations of options", "Tests run three files.",
  ["clevercsv/console/commands/detect.py"], [("DetectCommand", "clevercsv/console/commands/detect.py")], "Symbolic execution of the command line application.")

p("C29", "The header heuristic is the vote of the columns",
  """Asking whether a sample has a header gives True exactly when more columns vote for a header than against it: a column whose rows are all of one number type, or all of one length, votes by whether
  the first row's cell differs from that. Samples of any kind give an answer, or the documented error when no dialect is found.""",
  ["inputs"], "all samples within the templates", "Tests are four samples from CPython.", ["clevercsv/detect.py"], [("has_header", "clevercsv/detect.py")],
  "Symbolic execution (with conversions to int, float and complex as symbolic grammars) against an independent vote.")

p("C30", "Reading a data frame hands pandas the detected dialect",
  """Reading a file as data frame calls pandas once with the file, the encoding, the dialect detected from the first characters asked for, and all further arguments unchanged, and returns its result. Files with
  a single column are read with a delimiter that does not occur in the text; anything that is not a regular file is refused.""",
  ["inputs", "configurations"], "all file contents within the templates and combinations of arguments", "Tests read one file.", ["clevercsv/wrappers.py"], [("read_dataframe", "clevercsv/wrappers.py")],
  "Symbolic execution with pandas replaced by a recorder; what pandas does with the dialect is outside.")

p("C31", "The encoding of a file is the one the detector gives for its bytes",
  """Asking for the encoding of a file feeds the detector of the package asked for (cchardet if installed, unless told not to; else chardet) with the bytes of the file in order, the whole
  file or as much as it takes until the detector is sure, tells it that the file has ended, and returns its answer unchanged (None when it has none). The file is only read.""",
  ["inputs", "configurations", "histories"], "all file contents around the block size, all answers and all points at which the detector is sure", "The tests contain two small files.",
  ["clevercsv/encoding.py", "clevercsv/_optional.py"], [("get_encoding", "clevercsv/encoding.py")],
  "Symbolic execution with stand-ins for the detectors whose answers are chosen freely; files of 0 to 2 and 65535 to 131073 characters with symbolic ends. How good the statistical model of chardet is, is outside.")

p("C32", "The view and explore commands show the rows of the file",
  """The view command shows the rows of the file under the detected dialect, flipped when asked (short rows filled up), and the explore command starts one interactive session in which the rows, or the data
  frame, of the file are loaded. When there is no dialect the exit code is 1 and nothing is shown; a viewer that is missing or too old is an import error; the file is only read.""",
  ["inputs", "configurations"], "all file contents within the templates, all options", "The commands are interactive and have no tests.",
  ["clevercsv/console/commands/view.py", "clevercsv/console/commands/explore.py", "clevercsv/_optional.py"],
  [("ViewCommand, ExploreCommand", "clevercsv/console/commands/view.py, clevercsv/console/commands/explore.py"), ("generate_code", "clevercsv/console/commands/_utils.py")],
  "Symbolic execution with stand-ins for tabview and the interactive console that record what they are given.")

p("C33", "Verbose mode and the program entry change no result",
  """Being verbose changes neither the detected dialect, nor the rows or dictionaries read, nor the exit code, the files written or the result printed by any command; what a command prints comes after the messages.
  Running the package as a program has the exit code, output and effects of the command.""",
  ["inputs", "configurations"], "all texts within the templates, all methods and commands", "Tests never switch verbose mode on.",
  ["clevercsv/detect.py", "clevercsv/consistency.py", "clevercsv/normal_form.py", "clevercsv/wrappers.py", "clevercsv/__main__.py", "clevercsv/console"],
  [("messages", "clevercsv/detect.py, clevercsv/consistency.py, clevercsv/normal_form.py"), ("main", "clevercsv/__main__.py")],
  "Symbolic execution of both runs on the same symbolic input; messages are built exactly, including the repr of unprintable characters.")

NA = {}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    checks = []
    for x in P:
        i = x["id"]
        if i in NA:
            continue
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "technique": "symbolic execution of the current Python source" + (" and of clang's LLVM IR of the C extensions" if i not in ("C17", "C18", "C20", "C26") else "") + ", decided by z3",
                       "level": "model_checking",
                       "level_note": NOTE[i] + " Holds for all values within the stated bounds; trusts the models of Python's built-in types, files and C API, which every run compares with the compiled package on sampled paths."})
    m = {"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": checks,
         "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
         "notes": "See DESIGN.md. known_findings.txt lists what was repaired in /repo."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
