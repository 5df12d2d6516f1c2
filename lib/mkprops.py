"""Source of properties.jsonl (run to regenerate)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe, hook_needed=hook)))

prop("C01", "Source text survives conversion to srcML and back unchanged",
 "Parsing any source text in any supported language, under any combination of markup options, and unparsing the unit from the written archive yields exactly the original characters in the original order, with CR and CRLF line ends read as LF and a leading byte order mark removed. The text content of the unit's markup (each escape element standing for its one control character) is that same text: markup never adds, drops, repeats or reorders source characters. This holds for grammatical, incomplete and ungrammatical source alike.",
 ["inputs", "configurations"], "every text (any length, valid, broken or random, any characters), 5 languages, every subset of the POSITION/CPP/CPP_TEXT_ELSE/CPP_MARKUP_IF0 options",
 "The parser tests compare 2900 tiny well-formed snippets; token buffers, lookahead pauses, preprocessor skipping and error recovery combine without bound.",
 ["src/parser/srcMLParser.g", "src/parser/StreamMLParser.hpp", "src/parser/TextLexer.g", "src/parser/KeywordLexer.g", "src/parser/OperatorLexer.g", "src/parser/CommentTextLexer.g", "src/parser/srcMLOutput.cpp", "src/libsrcml/srcml_translator.cpp", "src/libsrcml/srcml_reader_handler.hpp"],
 [("every input token is pushed exactly once through the output, skip or pre-token buffers", "StreamMLParser.hpp pushSToken/pushCorrectToken/pushSkipToken"), ("token text is written by the generic token processor", "srcMLOutput.cpp processToken/processText"), ("unparse extracts text between tags", "unit_utilities.cpp extract_src")],
 ["srcml_unit_get_srcml*", "srcml_unit_unparse_*", "archive bytes"],
 [("tb/skiptb/pretb", "tokens awaiting output", "StreamMLParser.hpp")])

prop("C02", "Every srcML document produced is well-formed, namespace-correct srcML",
 "Every archive or solitary unit the library writes, for any source text, option set and distinct registered namespace prefixes, is a well-formed XML document in its declared encoding whose namespace declarations bind every prefix used. Its elements and attributes belong to the srcML vocabulary in the right namespaces under the registered prefixes, its root and units carry the revision and language, and source characters that XML cannot represent appear as escape elements; an archive has one unit element per unit written; a solitary unit is one root unit (U+FFFE and U+FFFF in the source are a known finding).",
 ["inputs", "configurations"], "every source text; every option subset; every choice of registered prefixes; archive and solitary forms",
 "Tests compare fixed outputs; ill-formedness comes from rare parser states (unclosed elements, mis-nested ends, unescaped characters, undeclared prefixes).",
 ["src/parser/srcMLOutput.cpp", "src/parser/StreamMLParser.hpp", "src/libsrcml/srcml_translator.cpp", "src/libsrcml/srcmlns.cpp", "src/libsrcml/srcml_archive.cpp"],
 [("mode stack closes every element it opened", "StreamMLParser.hpp endMode/endAllModes"), ("namespaces used by a unit are recorded and declared", "srcMLOutput.cpp startUnit / srcml_unit.cpp srcml_write_end_unit"), ("text escaped for XML", "srcMLOutput.cpp processText")],
 ["srcml_archive_write_* output bytes", "srcml_unit_get_srcml/outer/inner"])

prop("C03", "No source input crashes, corrupts memory or hangs the parser",
 "Parsing any byte sequence as any supported language, with any options and any source encoding, terminates with a status code: no memory error, undefined behaviour, abort, uncaught exception, endless loop or, for source of ordinary nesting, exponential time. The archive and unit stay usable afterwards and nothing allocated for the parse is lost.",
 ["inputs", "configurations"], "every byte sequence (binary, truncated, deeply nested, very long lines or tokens, invalid in the source encoding), every language and option subset",
 "A test suite only contains inputs someone thought of; memory errors, stack exhaustion and non-termination live in inputs nobody wrote.",
 ["src/parser/srcMLParser.g", "src/parser/StreamMLParser.hpp", "src/parser/UTF8CharBuffer.cpp", "src/parser/srcMLOutput.cpp", "src/parser/ModeStack.hpp"],
 [("mode stack never popped below the unit mode", "ModeStack.hpp / StreamMLParser.hpp"), ("each parser loop consumes a token or leaves", "srcMLParser.g start/translation"), ("buffer growth and carry-over of partial characters", "UTF8CharBuffer.cpp getChar")],
 ["sanitizer reports", "process termination", "allocated bytes after the unit is freed"])

prop("C04", "How source or srcML is supplied or delivered never changes the result",
 "A source text parsed from memory, a file name, a FILE, a file descriptor or user callbacks, delivered in chunks of any size, gives the same status, srcML, hash and line count; an archive read through any of the read-open functions in any chunking yields the same units and attributes. An archive written, or a unit unparsed, to memory, a file name, a FILE, a descriptor or callbacks receives identical bytes, and the close callback of a user-supplied channel is called exactly once. A file name is the name of the file, whatever characters it has, and the one-call conversion of a file, either way, gives what the separate calls with the same settings give.",
 ["inputs", "schedules", "configurations"], "every text, every splitting of it into reads (including one byte at a time and splits inside multi-byte characters and CRLF), every channel",
 "Tests use one-line texts that fit one buffer; chunk boundaries inside characters, line ends or BOMs are never exercised.",
 ["src/parser/UTF8CharBuffer.cpp", "src/libsrcml/srcml_unit.cpp", "src/libsrcml/srcml_archive.cpp"],
 [("partial multi-byte sequences carried over to the next read", "UTF8CharBuffer.cpp getChar inbytesleft"), ("CR LF pairs recognised across reads", "UTF8CharBuffer.cpp lastcr"), ("one internal path behind all open functions", "srcml_archive.cpp srcml_archive_read_open_internal / write_open")],
 ["unit srcML, hash, loc", "bytes received by each sink", "callback counters"])

prop("C05", "Source encodings are decoded and re-encoded exactly",
 "Source bytes in a supported encoding, whether set on the unit, on the archive or signalled by a byte order mark, appear in srcML as exactly the Unicode characters they encode (U+FFFD for what cannot be decoded), without the byte order mark, and the unit reports the encoding used; without any of these the encoding is ISO-8859-1. Unparsing writes those characters in the source encoding in force, and writing the archive in any supported XML encoding preserves them. A unit's own source encoding takes precedence over the archive's.",
 ["inputs", "configurations"], "every text over Unicode, source encodings UTF-8, UTF-16(LE/BE), ISO-8859-x, windows-125x, with and without BOM, every XML encoding, characters at every offset relative to internal buffers",
 "Tests use a handful of characters in two encodings; multi-byte sequences at buffer edges and unrepresentable characters need volume and variety.",
 ["src/parser/UTF8CharBuffer.cpp", "src/libsrcml/srcml_unit.cpp", "src/libsrcml/unit_utilities.cpp", "src/libsrcml/srcml_archive.cpp"],
 [("BOM detection and iconv conversion", "UTF8CharBuffer.cpp"), ("output encoder chosen per unit/archive", "srcml_unit.cpp srcml_unit_unparse_internal")],
 ["text content of srcML", "unparsed bytes", "src-encoding attribute and getter"])

prop("C06", "Unit hash, line count and language describe the source that was parsed",
 "After any successful parse the unit's hash is the SHA-1 of the exact source bytes supplied (present only when hashing is enabled), its LOC is the number of lines of the source, and the language of its markup is the unit's, else the archive's, else the one registered for the file name's extension. The latest registration of an extension decides, and without a known language the parse reports an unset language and produces no unit. The hash, language, filename, version and timestamp stored in an archive read back as they were written.",
 ["inputs", "histories", "configurations"], "every source text and encoding, every order of setting language/filename/registering extensions, every length relative to internal buffers",
 "The quantifier is over all contents and configuration histories; tests check fixed hashes of tiny texts.",
 ["src/libsrcml/srcml_unit.cpp", "src/libsrcml/srcml_archive.cpp", "src/libsrcml/language_extension_registry.cpp", "src/parser/UTF8CharBuffer.cpp", "src/parser/srcMLOutput.cpp"],
 [("SHA-1 updated on every raw read", "UTF8CharBuffer.cpp"), ("line counting in the writer", "srcMLOutput.cpp"), ("language resolution order", "srcml_unit.cpp srcml_unit_parse_internal")],
 ["srcml_unit_get_hash/loc/language", "unit attributes"])

prop("C07", "An archive yields exactly the units written to it, once each and in order",
 "Reading an archive returns every unit that was written to it, exactly once, in the order written, with its content and attributes intact, then NULL for ever; skipping advances by exactly one unit and does not disturb its neighbours (an archive written without units reads as one empty unit). This holds for any number and size of units, archives or solitary units, and any interleaving of read, skip, and body access (srcML, unparse, transform) on units read earlier. Copying every unit into an archive with the same settings reproduces the document byte for byte, apart from the XML declaration option and unused prefixes, which are not recorded.",
 ["histories", "inputs", "schedules"], "every sequence of units and every interleaving of read/skip/body operations",
 "Tests read archives of two or three tiny units in straight order; the reader is a thread handshake whose states depend on the history of operations.",
 ["src/libsrcml/srcml_archive.cpp", "src/libsrcml/srcml_sax2_reader.cpp", "src/libsrcml/srcml_reader_handler.hpp", "src/libsrcml/sax2_srcsax_handler.cpp", "src/libsrcml/srcml_translator.cpp"],
 [("producer/consumer handshake between SAX thread and caller", "srcml_reader_handler.hpp wait/resume_and_wait"), ("unit bodies read lazily", "srcml_unit.cpp / srcml_sax2_reader.cpp read_body")],
 ["sequence of units returned", "unit contents and attributes", "archive bytes"],
 [("is_done/collect flags", "reader state shared by the two threads", "srcml_reader_handler.hpp")])

prop("C08", "Archive and unit metadata survive writing and reading",
 "Any values given to the attributes of an archive (url, version, options, tab stop, registered namespaces, processing instruction, encodings) and of its units (filename, version, timestamp, language) that XML can carry in the document's encoding are returned unchanged by the getters, appear in the written document (the tab stop only with positions, the version of a solitary unit being the unit's), and are returned by the getters of an archive that reads that document. Special characters are escaped and restored exactly and unset stays unset. No attribute leaks from one unit or archive to another.",
 ["inputs", "histories", "configurations"], "every assignment of attribute values (including XML special characters, quotes, white space, non-ASCII, empty) in every order of set and overwrite",
 "Tests set 'foo'-like values; escaping and cross-unit leakage need the product of values and histories.",
 ["src/libsrcml/srcml_archive.cpp", "src/libsrcml/srcml_unit.cpp", "src/libsrcml/unit_utilities.cpp", "src/parser/srcMLOutput.cpp", "src/libsrcml/srcml_reader_handler.hpp"],
 [("attributes written with XML escaping", "srcMLOutput.cpp startUnit"), ("attributes parsed back on the root and on each unit", "srcml_reader_handler.hpp startRoot, unit_utilities.cpp unit_update_attributes")],
 ["getters", "root and unit attributes of the document"])

prop("C09", "Position markup is correct and changes nothing else",
 "With the position option, removing the position attributes and declaration gives exactly the srcML produced without it. Every start and end position is the line and column (bytes of UTF-8, counted with the archive's tab stop) of the first and last character of the element's text, where white space, comments and directives at its edges may be left out and a repeated type has the position of the type it repeats; start does not come after end, and positions of nested elements lie within their parent's. The root records the tab stop.",
 ["inputs", "configurations"], "every source text, tab stop and option subset",
 "Positions are computed in the token stream far from where elements are opened; the handful of test texts do not cover tabs, multi-line tokens, comments, preprocessor text and empty elements in combination.",
 ["src/parser/srcMLOutput.cpp", "src/parser/StreamMLParser.hpp", "src/parser/srcMLToken.hpp", "src/parser/TextLexer.g", "src/parser/UTF8CharBuffer.cpp"],
 [("line/column kept by the lexer with tab stops", "TextLexer.g / LexerSharedInputState"), ("end positions attached to the start token when its element closes", "StreamMLParser.hpp ends stack"), ("attributes written", "srcMLOutput.cpp addPosition/positoa")],
 ["pos:start/pos:end attributes", "text content"])

prop("C10", "A result depends only on its inputs, never on what was done before",
 "The srcML, text, attributes and status produced for a unit depend only on that unit's source and the settings in force for its archive and unit: never on other units or archives handled earlier or at the same time in the same thread or process, nor on earlier failures. Repeating an operation gives identical bytes, and a clone behaves as the original did when it was cloned.",
 ["histories"], "every sequence of earlier operations (other languages, prefixes, encodings, options, failed parses, aborted reads) in the same thread and process",
 "Tests run each case in a fresh archive, mostly with default settings, so leftover static, thread-local or archive state is not observed.",
 ["src/parser/srcMLOutput.cpp", "src/libsrcml/srcml_archive.cpp", "src/libsrcml/srcml_unit.cpp", "src/libsrcml/sax2_srcsax_handler.cpp", "src/libsrcml/libsrcml.cpp", "src/parser/KeywordLexer.g", "src/parser/srcMLParser.g"],
 [("per-parse parser and output objects", "srcml_translator.cpp"), ("static and thread-local caches must be keyed or reset", "srcMLOutput.cpp, sax2_srcsax_handler.cpp")],
 ["all outputs, compared with a fresh process"])

prop("C11", "Concurrent use of separate archives is race-free and changes no result",
 "Threads that each use their own archives and units (parse, write, read, unparse, transform) run without data races or deadlock, and each obtains exactly the result it obtains alone. Units of one archive may be parsed in parallel, provided the writing of units is serialised, with the same guarantee.",
 ["schedules", "histories"], "every interleaving of operations of threads on distinct archives, and of parallel parses for one archive",
 "The library tests are single-threaded; races need instrumented concurrent runs under many schedules.",
 ["src/libsrcml/sax2_srcsax_handler.cpp", "src/libsrcml/srcml_reader_handler.hpp", "src/libsrcml/srcml_sax2_reader.cpp", "src/parser/srcMLOutput.cpp", "src/parser/srcMLParser.g", "src/libsrcml/srcml_archive.cpp"],
 [("no shared mutable state between archives", "statics in parser/, libsrcml/"), ("mutex/condition handshake inside the reader", "srcml_reader_handler.hpp")],
 ["ThreadSanitizer reports", "results compared with sequential runs"])

prop("C12", "Damaged or abandoned srcML input never crashes, hangs or loses resources",
 "Opening and reading any byte sequence as srcML (malformed, truncated at any byte, not srcML at all), and closing or freeing the archive at any point of reading and under any scheduling of its reader thread, ends promptly without crash, hang, leak of memory, descriptors or threads. The units that precede the damage are returned intact, or an error is reported; a truncated unit is never passed off as a complete one with other content. Documents that declare entities are refused.",
 ["inputs", "fault_sequences", "schedules", "crash_points"], "every truncation point and mutation of every document; every point at which reading is abandoned; every schedule, spurious wake-ups included",
 "Tests read valid documents to the end under the normal schedule.",
 ["src/libsrcml/srcml_sax2_reader.cpp", "src/libsrcml/srcml_reader_handler.hpp", "src/libsrcml/sax2_srcsax_handler.cpp", "src/libsrcml/srcsax_controller.cpp", "src/libsrcml/srcSAXController.cpp"],
 [("stop/terminate flags end the SAX thread", "srcml_reader_handler.hpp stop"), ("SAX errors end the reading", "srcml_sax2_reader.cpp start_routine")],
 ["termination", "sanitizer reports", "allocated bytes, descriptors, threads after free", "units returned"])

prop("C13", "API calls in any order with any arguments report errors, never misbehave",
 "Any call of the public API in any state (archive not open, open for reading, open for writing, closed; unit empty, parsed, partly written) and with any argument the type allows, including null and out-of-range indices, returns a status code or a null/zero value: it never crashes, corrupts memory or loops. Invalid arguments are rejected with an error status and leave the object's state as it was; setters that succeed are reflected by their getters.",
 ["histories", "inputs"], "every sequence of API calls and argument choices, null objects and strings included",
 "Tests check single calls on fresh objects; state combinations are unbounded.",
 ["src/libsrcml/srcml_archive.cpp", "src/libsrcml/srcml_unit.cpp", "src/libsrcml/srcml_transform.cpp", "src/libsrcml/libsrcml.cpp"],
 [("argument and state checks at the start of each function", "srcml_archive.cpp, srcml_unit.cpp"), ("archive type tracks the open mode", "srcml_types.hpp SRCML_ARCHIVE_*")],
 ["return values", "getters before and after", "sanitizer reports"])

prop("C14", "I/O failures are reported and leave nothing behind",
 "When a file is missing or unwritable, or a read, write or close callback or descriptor fails at any point, the operation that meets the failure (or the closing of the archive) ends without crash or hang and the failure is visible in a status or in missing data (a failing read of source is its end), never as a silently altered document: what was delivered before the failure is a prefix of the correct output. Close callbacks still run exactly once. No memory, descriptor or thread is lost.",
 ["fault_sequences", "crash_points"], "every failure point (open, n-th byte or call, close) of every channel, for parse, unparse, read and write",
 "The tests never make I/O fail in the middle.",
 ["src/libsrcml/srcml_unit.cpp", "src/libsrcml/srcml_archive.cpp", "src/parser/UTF8CharBuffer.cpp", "src/libsrcml/srcml_translator.cpp"],
 [("open results checked", "srcml_archive.cpp write_open_*"), ("channels owned by RAII objects with close callbacks", "UTF8CharBuffer.cpp, srcml_unit.cpp")],
 ["statuses", "bytes delivered", "callback counters", "allocated bytes and descriptors"])

prop("C15", "Transformations give the results their language defines, unit by unit",
 "Applying an XPath expression to a unit returns exactly what XPath 1.0 defines for that unit's document (the node set in document order as units, other nodes wrapped in a unit, or the number, string or boolean, which ends a chain); the element and attribute variants mark exactly the selected elements and leave the text unchanged. XSLT and RelaxNG give the result of the style sheet, with its parameters, or keep exactly the units the schema accepts; several transformations apply in the order appended, and an invalid transformation is reported as an error. The unit transformed is not modified unless no result is asked for, when it is replaced by a single result unit; result units are valid srcML of the unit they came from.",
 ["inputs", "programs", "histories"], "every unit, every expression/style sheet/schema over it, every sequence of transformations",
 "Tests apply a few fixed expressions to one unit; correctness is over the product of expressions, documents and chains.",
 ["src/libsrcml/srcml_transform.cpp", "src/libsrcml/xpathTransformation.cpp", "src/libsrcml/xsltTransformation.cpp", "src/libsrcml/relaxngTransformation.cpp", "src/libsrcml/Transformation.hpp"],
 [("transformations evaluated by libxml2/libxslt on the unit document", "xpathTransformation.cpp apply"), ("results converted to units", "srcml_transform.cpp create_result/srcml_unit_apply_transforms")],
 ["transform results", "the unit before and after"])

prop("C16", "The streaming write API builds exactly the document requested",
 "A unit built with the start/end unit, element, namespace, attribute and string calls, with valid names, bound prefixes and text XML can carry, contains exactly those elements, attributes, namespaces and text, properly nested and escaped, and behaves from then on like a parsed unit: it can be written, read back, unparsed and transformed. Calls outside a started unit are rejected and unmatched end calls never damage the document; elements left open are closed at the end of the unit. A unit that is being rebuilt keeps its previous content until it is ended.",
 ["histories", "inputs"], "every sequence of streaming calls with every name, value and text",
 "Tests build two or three fixed elements.",
 ["src/libsrcml/srcml_unit.cpp", "src/libsrcml/srcml_translator.cpp", "src/parser/srcMLOutput.cpp"],
 [("depth counter of open elements", "srcml_translator.cpp add_start_element/add_end_element"), ("text escaped by the XML writer", "srcml_translator.cpp add_string")],
 ["srcml_unit_get_srcml*", "archive bytes", "unparsed text"])

prop("C17", "A revision extracted from srcDiff is exactly that side of the difference",
 "Reading a srcDiff archive (its namespace declared with a prefix on the root) with the revision set to original or modified yields, for every unit, exactly the markup and text of that revision: common parts plus that side's parts, without difference markup, and nothing of the other side. Written documents also have only that side of two-sided attributes. With no revision set the srcDiff markup is preserved as it is.",
 ["inputs", "configurations"], "every nesting of common/insert/delete/whitespace difference elements and two-sided attributes, at every depth",
 "Tests use one fixed srcDiff document.",
 ["src/libsrcml/unit_utilities.cpp", "src/libsrcml/srcml_unit.cpp", "src/libsrcml/srcml_archive.cpp"],
 [("stack of difference operations while filtering", "unit_utilities.cpp extract_revision/extract_src"), ("attribute halves split at the separator", "unit_utilities.cpp attribute_revision")],
 ["srcml_unit_get_srcml*", "srcml_unit_unparse_*", "unit getters"])

prop("C18", "Unparsed line ends follow the requested style and nothing else changes",
 "Unparsing a unit writes every line end of the source as LF, CR or CRLF according to the unit's end-of-line setting, for any text, channel and source encoding, and changes no other character. The size reported for a memory result is the number of bytes written, and unparsing twice gives the same bytes.",
 ["inputs", "configurations"], "every text, end-of-line setting, encoding and channel",
 "The tests use one short text per setting.",
 ["src/libsrcml/unit_utilities.cpp", "src/libsrcml/srcml_unit.cpp"],
 [("newline translation while extracting text", "unit_utilities.cpp extract_src / srcml_unit.cpp srcml_unit_unparse_internal")],
 ["bytes from every unparse channel"])

prop("C19", "The client writes every input's unit exactly once, in input order",
 "Whatever the number of parser threads and the speed of each, converting or transforming a mixture of inputs (source files, directories, source archives, compressed files, file lists, text, srcML archives) with the client writes every unit of every readable input exactly once, with exactly its own source, in the order of the inputs (directories in sorted order, archives in entry order), also with results of transformations in their unit's place. Inputs that are missing, have no known language or no units are left out without affecting the others, each is named in a message, and the exit status is a failure if and only if an input was left out or failed; the client finishes with everything written, to a file, standard output, compressed output or a directory of files alike. No execution has a data race or memory error.",
 ["schedules", "inputs"], "every interleaving of submitting, parsing, transforming and writing threads; every mixture of inputs that parse, fail or have no language; every kind of output",
 "The client tests are shell scripts on the finished command (not run here) under the natural schedule only.",
 ["src/client/WriteQueue.cpp", "src/client/WriteQueue.hpp", "src/client/ParseQueue.hpp", "src/client/srcml_consume.cpp", "src/client/srcml_write.cpp", "src/client/create_srcml.cpp", "src/client/src_input_libarchive.cpp", "src/client/src_input_filesystem.cpp", "src/client/src_input_filelist.cpp", "src/client/srcml_input_srcml.cpp"],
 [("position numbers assigned at submission", "ParseQueue.hpp schedule"), ("priority queue released in position order", "WriteQueue.cpp process"), ("transformations shared by the threads", "srcml_consume.cpp / relaxngTransformation.cpp apply")],
 ["archive written by the pipeline", "event log of parses and writes", "ThreadSanitizer reports"],
 [("q, completed, maxposition", "requests waiting for output", "WriteQueue.cpp")])

prop("C20", "Markup of composed programs follows the documented structure",
 "The markup of a C, C++, C# or Java program composed of ordinary declarations, functions, classes, statements and expressions is the composition of the documented markup of its parts: each construct receives the same elements whatever complete constructs precede or follow it, however deeply it is nested in blocks and control statements, and whatever white space, line ends or comments separate its tokens or directives its statements. Changing the names of ordinary identifiers or the values of literals consistently changes only that text; positions, the way the source is read, and what the unit held before change nothing (contexts listed as known findings are excluded).",
 ["programs"], "every composition of supported constructs of C, C++, C# and Java at any depth, every layout and choice of names",
 "Parser tests list each construct in one or two contexts; context-dependent modes interact combinatorially.",
 ["src/parser/srcMLParser.g", "src/parser/Mode.cpp", "src/parser/ModeStack.hpp", "src/parser/StreamMLParser.hpp", "src/parser/KeywordLexer.g"],
 [("mode stack isolates each construct", "srcMLParser.g"), ("keyword recognition by language", "KeywordLexer.g")],
 ["srcml_unit_get_srcml_inner"])

prop("C21", "Extracting an archive to disk writes each unit's source to its own file",
 "Extracting an archive to a directory creates, for every unit that has a file name, one file of that name below the destination (whatever characters the name has) holding exactly that unit's source in the requested encoding, line ends and srcDiff revision, creating directories as needed, and touches nothing else; a source archive, a single file or standard output holds exactly the units' sources in their order, a unit without a name getting a generated one in a source archive and being skipped in a directory. Displayed metadata (listing, counts, fields, formatted output, information) equals what is stored in the archive, and source turned to srcML and back in one run is the source (names with .. components are a known finding).",
 ["inputs", "configurations"], "every set of unit names (nested, repeated directories, unusual characters) and contents",
 "The client's tests are not run here and use fixed names.",
 ["src/client/src_output_filesystem.cpp", "src/client/mkDir.cpp", "src/client/src_output_libarchive.cpp", "src/client/create_src.cpp", "src/client/srcml_pretty.cpp", "src/client/srcml_display_metadata.cpp"],
 [("directory creation through libarchive", "mkDir.cpp"), ("unit text unparsed to each file", "src_output_filesystem.cpp")],
 ["files created below a scratch directory", "standard output of the metadata commands"])

prop("C22", "Options of the client have the effect of the library's settings",
 "For every combination of options (language, extensions, file name, URL, version, timestamp, source and XML encoding, tabs, position and preprocessor markup, hash, archive, namespace prefixes, XPath with elements and attributes, XSLT with parameters, RelaxNG, inner and outer srcML, output file, threads) and every mix of inputs (files, text with escapes, standard input, compressed files, archives) the client writes, byte for byte, the document the library gives for the same sources when the corresponding settings are made through its API; an option has no effect besides its documented one, and none is ignored.",
 ["inputs", "configurations"], "every combination of options and inputs",
 "The client's tests are not run here and use one option at a time on one source.",
 ["src/client/create_srcml.cpp", "src/client/src_input_libarchive.cpp", "src/client/src_input_text.cpp", "src/client/src_input_file.cpp", "src/client/srcml_execute.cpp", "src/client/transform_srcml.cpp", "src/client/ParseQueue.hpp", "src/client/srcml_consume.cpp"],
 [("options to settings of the archive", "create_srcml.cpp"), ("escapes of the text", "src_input_text.cpp"), ("language and name of the unit", "src_input_libarchive.cpp")],
 ["output of the client compared with that of the library"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
