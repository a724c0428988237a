# Every property: the text for properties.jsonl and the notes for MANIFEST.json.
# P(id, title, statement, over, quantifier text, why tests cannot settle it, files, mechanisms, observe, technique, level note)
import re

PROPS = []


def three(s):
    """At most three sentences: neighbours are joined, the shortest first."""
    v = re.split(r"(?<=[.!?])\s+(?=[A-Z`_\[])", s)
    while len(v) > 3:
        i = min(range(len(v) - 1), key=lambda k: len(v[k]) + len(v[k + 1]))
        b = v[i + 1]
        w = b.split()[0]
        if w.istitle() and w.isalpha():
            b = b[0].lower() + b[1:]
        v[i:i + 2] = [v[i].rstrip(".") + "; " + b]
    return " ".join(v)


def P(id, title, statement, over, q, why, files, mech, observe, technique, note, state=()):
    PROPS.append(dict(id=id, title=title, statement=three(" ".join(statement.split())), over=over, q=" ".join(q.split()),
                      why=" ".join(why.split()), files=["src/" + f for f in files],
                      mech=[dict(name=n, where="src/" + w) for n, w in mech], observe=observe,
                      technique=technique, note=" ".join(note.split()),
                      state=[dict(name=a, meaning=b, where="src/" + c) for a, b, c in state]))


MC = "explicit-state exploration of all operation sequences up to a depth, implementation stepped beside a reference model"
EX = "exhaustive enumeration of all inputs within a bound, run on the real code against a reference model"

P("C01", "Value lists keep every value, in order, until consumed",
  """Parsed values collected through any sequence of building operations (insert, sort, swap, save and restore, start and
  finish a nested list) come out exactly as inserted: same order, same tag, same text and same nesting, with a stable sort by tag.
  Copies of a value or list never change when the original builder goes on being used, and every node is freed exactly once.
  Consuming by tag returns the first matching value without losing or reordering the others.""",
  ["histories"], "all sequences of builder and consumer operations up to depth 6 (quick) over several value kinds and tags",
  "values-test walks a dozen hand-written sequences; aliasing and reference-count faults need particular interleavings of builder operations and copies.",
  ["values.cpp", "values.hpp"], [("value_builder list surgery", "values.cpp:value_list_builder"), ("reference counted nodes", "values.cpp:value_node"), ("consumer", "values.hpp:value_consumer")],
  ["value iteration, tags, get_quickbook/get_encoded, allocation balance"], MC,
  "Every operation sequence up to the depth bound is executed on the real builder and compared after each step; AddressSanitizer and an allocation counter watch memory.")

P("C02", "Source positions survive any assembly of text",
  """When text is assembled from pieces of a file (added at a position, unindented, or added from another assembled text), every
  character of the result maps back to the line and column of the source where it came from, and generated text maps to where
  it was generated from. This also holds for pieces of pieces, so error messages inside templates and imported code
  name the true line.""",
  ["histories", "inputs"], "all programs of up to three assembly operations over seven source texts and all cut points, all nested assemblies, pieces of pieces and builders of many pieces",
  "source_map-test checks a few dozen fixed positions of fixed assemblies; positions are a function of every cut point and every order of pieces.",
  ["files.cpp", "files.hpp"], [("section list with binary search", "files.cpp:mapped_file"), ("unindent_and_add", "files.cpp:mapped_file_builder::unindent_and_add")],
  ["get_position of every offset of the result"], MC,
  "All assemblies within the bound, every offset looked up and compared with a per-character provenance model.",
  [("mapped sections", "pieces of the assembled file and where each came from", "files.cpp:mapped_file_section")])

P("C03", "Unindenting code keeps its text and relative indentation",
  """Indented code is shown with the indentation of its least indented line removed from every line, leading blank lines
  dropped and nothing else changed. Lines keep their relative indentation, and tabs are only expanded (to columns
  of four) when the indentation of the lines cannot be removed as identical characters.""",
  ["inputs"], "all texts over {x, y, space, tab, newline} up to length 9 and all combinations of up to four lines from a menu of indentations",
  "source_map-test has six indentation examples; mixtures of tabs, spaces and blank lines are unbounded.",
  ["files.cpp"], [("unindent_and_add", "files.cpp:mapped_file_builder::unindent_and_add")], ["text of the assembled file"], EX,
  "Every text within the bound compared with a line-by-line reference.")

P("C04", "Reading a source file normalises only line endings and the byte order mark",
  """Loading a file yields exactly its bytes, with CRLF and lone CR turned into LF and one leading UTF-8 byte order mark removed.
  UTF-16 and UTF-32 files are rejected instead of being processed as text. Loading is independent of
  buffer boundaries and of how often a file has been loaded before.""",
  ["inputs"], "all file contents over nine significant bytes up to length 5, all prefixes with a byte order mark, and line ends straddling buffer sizes",
  "the tests only load well-formed repository files; byte order marks and mixed line endings are not loaded by any unit test.",
  ["files.cpp"], [("load / normalize", "files.cpp:load"), ("read_bom", "files.cpp:read_bom")], ["contents of the loaded file, error thrown"], EX,
  "Every byte string within the bound is written to disk and loaded by the real code.")

P("C05", "File patterns match exactly the names they describe",
  """A pattern matches a file name exactly when '*' stands for any run, '?' for one character, '[..]' for one listed character or
  range ('^' first inverts it), backslash for the next character itself, and other characters for themselves. Malformed patterns are
  rejected rather than matched, classifying a pattern never reads outside it, and a pattern without special characters is
  recognised as a plain name with its escapes removed.""",
  ["inputs"], "all patterns up to 6 characters over 11 pattern characters (and longer ones built from tokens) times all names up to length 4",
  "glob-test has a fixed list of pattern/name pairs; backtracking, inverted sets and malformed tails need the cross product.",
  ["glob.cpp", "glob.hpp"], [("check_glob", "glob.cpp:check_glob"), ("glob matcher", "glob.cpp:glob"), ("glob_unescape", "glob.cpp:glob_unescape")],
  ["result and exceptions of classifying, matching and unescaping"], EX, "Cross product of patterns and names against a token matcher.")

P("C06", "Pretty printing changes only insignificant whitespace",
  """Pretty printing generated BoostBook or HTML never loses, adds or reorders markup or text: apart from runs of whitespace outside
  code the output is the input. Code blocks, escaped sections, tags with their attributes, comments and declarations keep every
  character, whitespace is never introduced or removed between two inline pieces, and malformed nesting is reported rather than mangled.""",
  ["inputs", "configurations"], "all sequences of up to 4-5 markup tokens from 22, for several indents and widths, both dialects",
  "post_process-test has three documents; whitespace safety depends on every adjacency of inline tags, block tags, code and text.",
  ["post_process.cpp"], [("tidy grammar", "post_process.cpp:tidy_grammar"), ("pretty printer", "post_process.cpp:pretty_printer")], ["output text"], EX,
  "All token sequences within the bound; output compared modulo insignificant whitespace, code compared exactly.")

P("C07", "Escaping is lossless and produces only safe characters",
  """Text escaped for XML decodes back to the same text and contains no raw special characters; a fully escaped URI percent-decodes back to
  the input, and partial escaping keeps reserved characters and existing percent escapes; both yield only characters allowed in URIs. Identifiers made from text contain only
  lower case letters, digits and underscores, entity decoding inverts encoding, and every function is
  defined on every byte string.""",
  ["inputs"], "every byte and every string over byte and entity alphabets up to the length bound, through every escaping function",
  "no unit test calls the escaping functions; they must hold for all bytes including non-ASCII and NUL.",
  ["utils.cpp"], [("escape_uri / partially_escape_uri", "utils.cpp:escape_uri_impl"), ("make_identifier", "utils.cpp:make_identifier"), ("encode / decode", "utils.cpp:encode_string")],
  ["returned strings"], EX, "Every string within the bound against independent encoders and decoders.")

P("C08", "XML read back from generated output is reproduced exactly",
  """Reading XML into a tree keeps every element, attribute, text run and comment in document order with correct nesting, so
  that the tree shows the same content as the text. Malformed input (mismatched or cut off tags, bad attributes) is reported as
  an error at a position inside the text, and never read beyond it. Attribute values and text are kept verbatim.""",
  ["inputs"], "all sequences of XML tokens up to the length bound and every truncation of realistic documents",
  "no unit test covers the XML reader at all; HTML generation rests on it.",
  ["xml_parse.cpp", "xml_parse.hpp", "tree.hpp"], [("xml_parse", "xml_parse.cpp:xml_parse"), ("attribute reader", "xml_parse.cpp:read_tag")], ["tree contents, error position"], EX,
  "All token strings within the bound compared with an independent reader.")

P("C09", "HTML pages split, navigate and link the whole document correctly",
  """Every book, chapter and section appears exactly once in the generated HTML, on its own page when output is chunked, with previous,
  next, up and home links forming the document's order and hierarchy, and contents lists naming every titled descendant in order.
  Every internal link leads to the page and fragment holding its target, a link to a missing target is reported, external addresses are left untouched, and
  stylesheet and graphics links resolve correctly from every page, wherever it lies.""",
  ["inputs", "configurations"], "all document trees up to five nodes (book, chapters, titled and untitled sections) x output style x id shape x asset style x pretty printing",
  "nothing in the test-suite that can run here produces HTML; page splitting and relative links depend on the shape of the whole tree.",
  ["bb2html.cpp", "boostbook_chunker.cpp", "html_printer.cpp", "path.cpp"],
  [("chunk_document", "boostbook_chunker.cpp:chunk_document"), ("generate_html / navigation", "bb2html.cpp:generate_chunked_documentation"), ("relative_path_or_url / get_link_from_path", "bb2html.cpp:get_link_from_path"), ("inline_sections", "boostbook_chunker.cpp:inline_sections")],
  ["every file written to the output directory"], EX, "All trees within the bound are converted by the real code and every page parsed and followed by an independent reader.")

P("C10", "HTML rendering maps every construct and loses no text",
  """Each BoostBook construct (paragraphs, emphasis, lists, quotes, code, admonitions, headings, tables with headers and
  titles, variable lists, document information, images, links) becomes its HTML counterpart with children in order and every
  piece of text preserved and escaped exactly once. Entities are written so that they denote the same characters,
  and unknown elements keep their content.""",
  ["inputs"], "all forests of up to four elements from about forty, all table, list and document-information shapes, and all texts over an entity alphabet",
  "nothing in the runnable tests generates HTML; the mapping must hold for every nesting.",
  ["bb2html.cpp", "html_printer.cpp"], [("node parsers", "bb2html.cpp:NODE_RULE handlers"), ("open_tag / close_tag / text escaping", "html_printer.cpp:html::open_tag")],
  ["generated HTML"], EX, "All structures within the bound compared with a reference rendering.")

P("C11", "Footnotes and callouts are numbered, placed and cross-linked",
  """Every footnote appears exactly once, on the page where it is referenced, numbered in order; its mark links to its text and the
  text links back to its mark, however footnotes are nested or placed in titles, lists or inlined sections, and whatever ids the document uses.
  Callout marks show the number of their callout in its list and link to it, and unknown marks are harmless.""",
  ["inputs"], "all arrangements of up to four footnote placements, and all arrangements of up to five callout marks and list entries, with clashing ids and both output styles",
  "no runnable test contains a footnote in HTML; order, nesting and page placement interact.",
  ["bb2html.cpp", "boostbook_chunker.cpp"], [("footnote collection", "bb2html.cpp:generate_footnotes_html"), ("callout numbering", "bb2html.cpp:number_callouts"), ("unique ids", "bb2html.cpp:generate_id")],
  ["generated HTML"], EX, "All arrangements within the bound; numbering and links checked in both directions.")

P("C12", "Document tree edits keep one consistent tree",
  """Building a tree and moving or deleting any of its nodes leaves a tree whose parent, child, next and previous links agree, in
  which every node that was not deleted occurs exactly once and keeps its subtree. Deleting frees exactly the node and its descendants, replacing a tree frees the old one, and a builder or tree that was moved or released is empty.""",
  ["histories"], "all builder programs up to five nodes, with the builder moved or a node taken out at any point, followed by all sequences of up to three moves and deletions",
  "no unit test touches the tree; link corruption needs particular positions of the moved node.",
  ["tree.cpp", "tree.hpp"], [("extract / add_before / add_after / add_first / add_last", "tree.cpp:tree_base"), ("tree_builder", "tree.cpp:tree_builder_base")],
  ["all links of all nodes after each step"], MC, "Every program within the bound is executed on the real tree and all links compared after every step.",
  [("node links", "parent, children, next, prev of each node", "tree.hpp:tree_node_base")])

P("C13", "The dependency list names every file looked for, once, and parses back",
  """The list of dependencies contains every file the run looked for or read, each once in sorted order, marked found or not found, and
  every searched pattern with its matches. In the escaped format any file name, including control characters and
  backslashes, can be read back exactly, and each output format contains the same files.""",
  ["histories", "inputs"], "all sequences of up to five operations (present, missing, later created and removed files, searches, matches) over nine awkward names, in all formats",
  "no runnable test covers dependency output.",
  ["dependency_tracker.cpp"], [("add_dependency / normalize_path", "dependency_tracker.cpp:add_dependency"), ("write_dependencies / escaping", "dependency_tracker.cpp:write_dependencies")],
  ["written dependency file"], MC, "All operation sequences within the bound; written files are parsed back and compared with a set model.")

P("C14", "Relative paths and file URLs denote the file they were made from",
  """The path computed from one directory to a file or directory leads there when followed, through any mixture of existing, missing, dotted and
  linked components. A file path turned into a URL decodes back to the same path with every special character escaped,
  and an option value is taken as a URL exactly when it has a scheme, with children appended after its last directory.""",
  ["inputs"], "all pairs of paths of up to three components out of six (links, dots, missing) and all path texts over an alphabet of special characters",
  "no runnable test covers the path functions; ancestry and links make the result depend on both arguments.",
  ["path.cpp", "utils.cpp", "bb2html.cpp"], [("path_difference", "path.cpp:path_difference"), ("dir_path_to_url / file_path_to_url", "path.cpp:file_path_to_url"), ("path_or_url", "path.cpp:path_or_url")],
  ["returned paths and URLs"], EX, "All pairs within the bound resolved against the real file system in a scratch directory.")

P("C15", "Output buffers never lose, duplicate or leak text",
  """Text written to the output, by streaming or appending, comes out in the order written. Text written while a nested buffer is
  active goes only to that buffer and is gone with it, taking or clearing the buffer's text leaves it empty, and closing a buffer
  makes the enclosing one current with its text intact. Streams that are copied or assigned share one text from then on.""",
  ["histories"], "all sequences of up to six operations (stream, append, push, pop, take, put back, swap, clear, read), up to eight of the core ones, and up to four on three streams copied and assigned to each other",
  "no unit test covers the output collector; buffering faults appear only for particular mixes of streaming and taking text.",
  ["collector.cpp", "collector.hpp"], [("string_stream", "collector.hpp:string_stream"), ("push / pop", "collector.cpp:collector")], ["text of every buffer"], MC,
  "Every sequence within the bound on the real collector, compared with a stack of strings after each step.")

P("C16", "Template names resolve in the right scope",
  """Looking up a template finds the innermost definition visible from the current scope: the scope a template was defined in when it is lexically
  scoped (files of version 1.5 and later), the caller's scopes when not. Leaving a scope restores exactly the definitions
  visible before, a name can be defined once per scope, and of several names that match the longest is taken.""",
  ["histories"], "all sequences of up to seven operations (open, close, define, redefine, call with lexical or dynamic scoping) over three names, one a prefix of another",
  "no unit test covers template scopes; mistakes need a particular nesting of scopes, definitions and calls.",
  ["template_stack.cpp", "template_stack.hpp"], [("template_stack::find / add / start_template", "template_stack.cpp:template_stack"), ("scope parents", "template_stack.hpp:template_scope")],
  ["lookup results and longest match after each step"], MC, "All sequences within the bound; every name looked up and parsed after each step and compared with a model of scopes.",
  [("scope chain", "open scopes and the scope each continues in", "template_stack.hpp:template_scope")])

P("C17", "Macro tables behave as independent maps however they are copied",
  """Adding or replacing a macro changes only the table it is added to, never a saved copy of it, and copies taken earlier can be restored at
  any time with exactly the macros they had. Looking up a name succeeds exactly when it was defined, and when scanning text the longest
  defined name is matched. Objects handed to a cleanup list are destroyed exactly once, in reverse order.""",
  ["histories"], "all sequences of up to five additions, replacements and copies over three tables and eight overlapping names",
  "no unit test copies a macro table; sharing mistakes need an add after a copy on a shared path of the tree.",
  ["symbols.hpp", "cleanup.hpp"], [("copy-on-write ternary search tree", "symbols.hpp:tst::add"), ("longest match", "symbols.hpp:tst::find"), ("cleanup list", "cleanup.hpp:cleanup")],
  ["lookups of every name in every table after each step"], MC, "All sequences within the bound; every name looked up in every table after each step.")

E2E = "the whole program run in process on every generated document; output compared with a reference reading of the language"

P("C20", "Phrase markup is read by one set of rules everywhere",
  """In paragraph text of a 1.7 document, simple markup (*b*, /i/, _u_, =t=), quotes, inline code, escapes, line breaks, macros, comments
  and bracketed elements produce exactly the elements the documented rules give: nesting follows the brackets, characters
  that are not markup come out once, in order and escaped, markup never reaches past the paragraph, and only documents with unbalanced
  brackets or unterminated elements are reported as errors. Reading time does not explode with nesting.""",
  ["inputs"], "all token strings of up to four tokens from the whole phrase alphabet and five from core subsets",
  "gold tests hold a few dozen phrases; how two markups interact depends on the neighbouring characters and on what is still open.",
  ["main_grammar.cpp", "phrase_element_grammar.cpp", "actions.cpp"],
  [("simple markup", "main_grammar.cpp:simple_markup"), ("bracketed elements", "main_grammar.cpp:element"), ("phrase actions", "actions.cpp:phrase_action")],
  ["BoostBook output and diagnostics"], EX, "The real program on every token string within the bound, one document holding many strings; a mismatch is confirmed on the string alone.")

P("C21", "Indentation decides paragraphs, lists and code blocks",
  """In a 1.7 document the blocks follow from the lines' indentation alone: text beyond the current indentation is a code block holding exactly its lines
  with the common indentation removed, a marker starts an item, a deeper marker a nested list, text aligned with an item's text belongs to the item, and text
  further out ends the lists it is outside of. No line is lost, moved or read twice, comments and headings do not disturb it, and mixing markers in
  one list is reported on its line. The same holds inside block elements, except that nothing there is code outside a list.""",
  ["inputs"], "all documents of up to five lines (quick) from 19 line kinds at the top level, four inside a block element, deeper from core kinds",
  "gold tests hold a few lists; the handling of each line depends on the whole stack of open lists.",
  ["main_grammar.cpp", "state.cpp"],
  [("check_indentation", "main_grammar.cpp:check_indentation_impl"), ("list stack", "main_grammar.cpp:list_block"), ("clear_stack", "main_grammar.cpp:clear_stack")],
  ["BoostBook output and diagnostics"], EX, "The real program on every document within the bound, many per run, compared with a reference block parser.",
  [("list_stack", "open lists with their indentations", "main_grammar.cpp:list_stack_item")])

P("C18", "Identifiers are unique, stable and honour what the author wrote",
  """No two elements of a document get the same identifier. An identifier given explicitly is used unchanged by the element it was given to (the first, when it is
  given twice, anchors before sections before other elements), generated ones give way to it and among themselves the first keeps its name, the others get the smallest free number.
  Identifiers of sections and headings follow the nesting of sections and the rules of the document's language version, and links made by the
  program point at existing identifiers.""",
  ["inputs"], "all sequences of up to four of 21 sections, headings, anchors, tables and notes with clashing names, in five language versions (up to three in 1.2, 1.4 and in documents without a title), included fragments, documents and files of other versions among them, and runs of one element that need two-digit numbers",
  "clashes appear only for particular combinations of elements, nesting and order; a gold test holds one combination.",
  ["document_state.cpp", "id_generation.cpp", "id_xml.cpp", "actions.cpp"],
  [("placeholders", "document_state.cpp:add_placeholder"), ("clash resolution", "id_generation.cpp:generate_id"), ("replacement in the output", "id_xml.cpp:xml_processor")],
  ["id and linkend attributes of the output"], EX, "The real program on every sequence within the bound, identifiers compared with a reference allocation in document order.")

P("C19", "Every document is either converted to well-formed output or rejected",
  """For any text (short of nesting so deep that it exhausts the stack), conversion ends, and either the document is accepted: exit status zero, no error message, and the BoostBook and the HTML written are well-formed
  (tags balanced and nested, attributes quoted and unique, special characters escaped), with or without pretty printing. Or it is rejected: a non-zero status, at least one
  error message, and no output file. Accepting does not depend on the output format. Only text escaped with ''' is passed through unchecked.""",
  ["inputs"], "all documents of up to three (quick) tokens from 64 covering every element of the language, balanced or not, two in older versions; four from 41 tokens in the thorough tier",
  "tests convert documents written to be valid; ill-formed output comes from combinations nobody wrote down, such as sections half inside another block.",
  ["main_grammar.cpp", "block_element_grammar.cpp", "phrase_element_grammar.cpp", "actions.cpp", "post_process.cpp", "bb2html.cpp", "quickbook.cpp"],
  [("element dispatch", "main_grammar.cpp:element"), ("section balance", "actions.cpp:end_section_action"), ("output only without errors", "quickbook.cpp:parse_document")],
  ["exit status, diagnostics, output files"], EX, "The real program on every token string within the bound; outputs read by a strict XML/HTML reader written for this purpose.")

P("C22", "Sections nest as written and unbalanced ones are reported",
  """The section structure of the output is the one given by [section] and [endsect], in every language version. An [endsect] with nothing to close, or naming another section than the one it closes, is an
  error on its line. Sections opened in a template or a nested block are closed there, or it is an error; ones open at the end of the document, or of an imported file or included document, which have sections of their own, are closed with a
  warning, or an error in strict mode. A heading's level is its number, or for [heading] one more than the section it is in, at most six.""",
  ["inputs"], "all sequences of up to five of 15 section starts and ends, headings, templates and nested blocks, strict or not, in three language versions; sequences of three (some four) of them with imports and includes of balanced, open and over-closed files and documents, also from templates",
  "gold tests hold balanced documents and a couple of failures; the bookkeeping crosses templates, nested blocks and files.",
  ["actions.cpp", "main_grammar.cpp", "document_state.cpp", "doc_info_actions.cpp"],
  [("endsect checks", "actions.cpp:end_section_action"), ("template balance", "actions.cpp:call_template"), ("end of document", "doc_info_actions.cpp:post")],
  ["sections and bridgeheads of the output, error lines"], EX, "The real program on every sequence within the bound, compared with a stack.",
  [("open sections", "sections open at this point", "document_state.cpp:section_info")])

P("C23", "Macros and conditionals use the definitions in force where they stand",
  """A macro is replaced by its most recent definition at that point of the document (before 1.6 its first), the longest defined name first and never when followed by a letter or underscore, and in the same way in
  paragraphs, lists, tables, headings, markup, code and template arguments. A definition's own text is expanded when it is defined. Definitions made in a template body or an included file end with it, all others last to the end
  of the file, and -D defines a macro from the start. [?M ...] has its contents and their effects exactly when M is defined then, [?!M ...] exactly when it is not.""",
  ["inputs", "histories"], "all sequences of up to four of 27 definitions, uses, includes and conditionals in different places, in three language versions, with and without -D",
  "gold tests use a macro a few lines after defining it; scoping mistakes need a redefinition in one scope and a use in another.",
  ["actions.cpp", "main_grammar.cpp", "state.cpp", "symbols.hpp"],
  [("macro lookup", "main_grammar.cpp:macro"), ("definition", "actions.cpp:macro_definition_action"), ("conditional output", "actions.cpp:cond_phrase_push"), ("scopes", "state.cpp:state_save")],
  ["text of the output"], EX, "The real program on every sequence within the bound, text compared with a reference expansion.",
  [("macro table", "names and texts defined at this point", "state.hpp:state")])

P("C24", "Template calls split their arguments and find definitions as documented",
  """A template call's arguments are separated by '..', since 1.5 not inside brackets, code, escapes and comments; if there are fewer than parameters and no '..' was
  used, the argument is split at its spaces outside brackets (before 1.5 the last one, whenever there are too few). A wrong number of arguments is an error on that line. A name means its innermost definition visible where the text using it was written, at the time
  of the call; an argument's names are looked up where the call was written. Definitions end with the template body or included file holding them; [import]
  adds a quickbook file's definitions and no text; defining a name twice in one scope is an error. Endless recursion is reported as an error.""",
  ["inputs", "histories"], "every call with arguments of up to four (quick, 1.7) or five tokens from 14, templates of up to three parameters, versions 1.4 to 1.7; all sequences of up to three (four from the first 17) of 34 definitions, calls, includes and imports; versions 1.6 and 1.7",
  "gold tests hold a handful of calls; the result depends on how separators, brackets and escapes combine and on the whole history of definitions.",
  ["actions.cpp", "template_stack.cpp", "block_element_grammar.cpp", "main_grammar.cpp"],
  [("argument splitting", "actions.cpp:break_arguments"), ("lookup", "template_stack.cpp:find"), ("call", "actions.cpp:call_template"), ("import", "template_stack.cpp:start_template")],
  ["text of the output, error lines"], EX, "The real program on every call and history within the bound, compared with a reference expansion.",
  [("scopes", "definitions visible at this point", "template_stack.hpp:template_stack")])

P("C25", "Included files are the ones the path means, in a fixed order, and all recorded",
  """A relative path in [include] is looked for next to the file holding the directive, then in each include path directory in order, and the first file found is
  the one included; none is an error naming the path. In 1.7 a path with glob characters includes every matching file from all those places, each once, ordered by relative path. __FILENAME__ is the path of the file it
  stands in, relative as it was searched, and is restored after an include. Endless inclusion is an error; a file can be included in several language versions. The dependency output names exactly the files
  read, and the checked locations every place probed. Addresses written for [xinclude] and xmlbase lead from the base directory to the file meant.""",
  ["inputs", "configurations"], "every subset of seven (quick) or ten files in a tree, four include paths, every pair of 20 statements in the document and seven in the included files, three language versions; xinclude: all combinations of 4 source, 4 output, 5 base directories and 5 xmlbase values",
  "gold tests run one fixed layout; the result depends on which files exist in which directories.",
  ["include_paths.cpp", "dependency_tracker.cpp", "files.cpp", "actions.cpp", "path.cpp", "glob.cpp"],
  [("search", "include_paths.cpp:include_search"), ("dependencies", "dependency_tracker.cpp:write_dependencies"), ("file scope", "actions.cpp:load_quickbook"), ("xinclude base", "include_paths.cpp:resolve_xinclude_path")],
  ["order of included text", "dependency files", "href attributes"], EX, "The real program on real directory trees, compared with a reference search.",
  [("current file", "file being read and its relative name", "state.hpp:state"), ("dependencies", "paths probed", "dependency_tracker.hpp:dependency_tracker")])

P("C26", "Highlighting keeps code as written and colours it as its language says",
  """The text of highlighted code is the text written: nothing is lost, added or reordered, only macros and ``escapes`` are replaced (not inside strings). In C++ and Python mode keywords, identifiers, numbers, strings, characters, comments,
  preprocessor lines and operators are marked as such, whole words and longest match; plain mode marks nothing; characters that fit nowhere are kept and marked as errors.
  The mode used is the latest change at that point: [c++] and the like last to the end of the file or template they are in, [!c++] and the like cover exactly the next element, paragraph or section, and a later change inside it wins.""",
  ["inputs", "histories"], "all codes of up to four (quick) or five tokens from 25 C++ or 22 Python ones, in blocks and in line, every keyword with neighbours; all sequences of up to four of 21 mode changes and uses, five in the thorough tier",
  "gold tests highlight a few programs; lost or swallowed text depends on which token follows which.",
  ["syntax_highlight.cpp", "actions.cpp", "state.cpp", "main_grammar.cpp"],
  [("C++ grammar", "syntax_highlight.cpp:cpp_highlight"), ("Python grammar", "syntax_highlight.cpp:python_highlight"), ("mode lookup", "state.cpp:current_source_mode"), ("tagged elements", "main_grammar.cpp:process_element_impl")],
  ["programlisting and code elements of the output"], EX, "The real program on every token string within the bound, compared with a reference lexer and a reference scope.",
  [("source modes", "mode in force and when it was set", "state.hpp:state")])

P("C27", "Code snippets hold exactly the code between their marks, with notes as text",
  """From an imported C++ or Python file, [a] gives the code between the start and end marks of a, unindented, with no mark left in it; nested and overlapping marks work, hidden parts (<- to ->) are left out, =code comments show their text, and
  quickbook comments (`) become text of the document between the code, the words of one kept apart from those of the next. Callouts leave a mark in the code and a list after it in the same order, marks and notes pointing at each other. Including such a file gives its quickbook comments
  outside of snippets and no code. A snippet left open, an end without a start and a name used twice are errors.""",
  ["inputs"], "every C++ or Python file of up to four (quick) or five tokens from 24 or 20 (marks, code, comments of each kind, callouts), imported and included, versions 1.6 and 1.7",
  "gold tests hold a few files; what is lost or shown depends on which mark follows which and what surrounds it on its line.",
  ["code_snippet.cpp", "actions.cpp", "template_stack.cpp"],
  [("marks", "code_snippet.cpp:cpp_code_snippet_grammar"), ("open snippets", "code_snippet.cpp:push_snippet_data, pop_snippet_data"), ("text pieces", "code_snippet.cpp:start_code, close_code"), ("callouts", "actions.cpp:call_code_snippet")],
  ["programlisting, callout and para elements", "error lines"], EX, "The real program on every file within the bound, compared with a reference reading.",
  [("open snippets", "stack of snippets being collected", "code_snippet.cpp:snippet_data")])

P("C28", "Tables, lists and admonitions come out nested exactly as written",
  """However block elements are nested and laid out (blanks, line ends, comments between cells), the output has the same structure: each table cell, list item, variable list term and entry, admonition and quotation holds exactly its own
  text and elements, in order, and nothing is lost or moved. The first row of a table with several rows is its head. Tables with a title are tables, others informal ones; an explicit id is used, else one made from the title.
  From 1.6 titles of tables and variable lists are phrases.""",
  ["inputs"], "every tree of up to four (quick) or five nodes of paragraphs, headings, preformatted text, seven kinds of boxes, explicit lists, tables and variable lists, in four layouts and three language versions",
  "gold tests hold a few tables; loss depends on what stands inside and next to each cell.",
  ["actions.cpp", "block_element_grammar.cpp", "main_grammar.cpp"],
  [("tables", "actions.cpp:table_action"), ("variable lists", "actions.cpp:variable_list_action"), ("cells", "block_element_grammar.cpp:local.cell"), ("nested blocks", "main_grammar.cpp:inside_paragraph")],
  ["elements of the output"], EX, "The real program on every tree within the bound; the tree is both written as quickbook and as expected output, so no parser is modelled.",
  [("collected cells", "values gathered for the element", "values.hpp:value_builder")])

P("C29", "Document information is read in any order and written completely",
  """Each attribute of a document's information block (id, lang, dirname, version, authors, copyright, license, purpose, category, biblioid, last-revision, escaped docbook) appears in the output once, in its element, with exactly its text, whatever the order and
  whether the quickbook attribute stands first, last or before the block; repeated single-valued ones: the last counts; categories, copyrights and biblioids accumulate. Year ranges are written out, reversed ones are errors; unknown attributes are errors.
  source-mode and compatibility-mode apply to their own document; nested documents (1.6 on) become nested elements of their own type.""",
  ["inputs"], "every sequence of up to three (quick) or four of 21 attributes, in two document types, three versions and three places of the version; titles of up to four tokens from 12; copyrights of up to five from 12; author lists of up to six from nine; all pairs of 11 document types with attributes",
  "gold tests hold a few blocks with attributes in one order.",
  ["doc_info_grammar.cpp", "doc_info_actions.cpp", "quickbook.cpp"],
  [("grammar", "doc_info_grammar.cpp:init_doc_info"), ("collecting", "doc_info_actions.cpp:pre"), ("writing", "doc_info_actions.cpp:write_boostbook_header")],
  ["root element and its info element"], EX, "The real program on every block within the bound, compared with a reference reading.",
  [("attributes", "values by attribute", "doc_info_actions.cpp:doc_info_values")])

P("C30", "Errors are reported where they are, and the exit status tells",
  """A document is rejected (exit status not 0, no output) exactly when at least one error is reported, and the error count shown is the number of errors reported; warnings alone do not reject. Each report is a line naming the file and the line of the
  mistake (text quoted from the document may continue it), also in included files, imported code and template bodies, after comments, code, CRLF and non-ASCII text. --expect-errors only inverts the exit status; --ms-errors only changes the form. --strict adds errors for unbalanced brackets and sections.""",
  ["inputs"], "every sequence of up to three (quick) or four of 24 fragments with known errors, strict or not, in 1.6 and 1.7; each of 47 kinds of reports in each of nine places, alone and in pairs; document information of up to three of 18 attributes under seven kinds of header; and every text of up to three tokens from 43 for the form and count",
  "gold tests only look at whether a document fails; lines depend on all that comes before.",
  ["actions.cpp", "main_grammar.cpp", "files.cpp", "stream.cpp", "quickbook.cpp", "code_snippet.cpp"],
  [("error actions", "actions.cpp:error_message_action, error_action"), ("positions", "files.cpp:position_of"), ("exit status", "quickbook.cpp:main"), ("message form", "stream.cpp:outerr")],
  ["standard error", "exit status", "presence of the output file"], EX, "The real program on every sequence and text within the bound; lines are compared with those of the fragments.",
  [("errors", "number of errors so far", "state.hpp:state::error_count")])

P("C31", "Success is only reported when all requested output is complete",
  """The options decide which files are written (format, output file or directory, none, dependencies, checked locations), with the same contents in every combination; contradicting ones are errors that write nothing. The dependency format takes flags separated by commas or spaces: `checked` lists every location tried, found or not, and every pattern, `escaped` writes control characters as escapes; an unknown flag is an error. A failed conversion writes no
  document. Exit status 0 means every requested file was written in full: any failing open, read, write, close, mkdir, stat or directory read is reported and gives a non-zero status, unless the output is complete all the same;
  short writes are continued. Input that cannot be read gives no document.""",
  ["fault_sequences", "configurations"], "every combination of 11 options (86 400 command lines); every string of up to four tokens of dependency format flags; and for 96 conversions every system call on the files involved failing once, from then on, or half done",
  "tests cannot make the n-th write of a file fail; there are no tests of option combinations.",
  ["quickbook.cpp", "dependency_tracker.cpp", "bb2html.cpp", "files.cpp"],
  [("options", "quickbook.cpp:main"), ("output", "quickbook.cpp:parse_document"), ("html files", "bb2html.cpp:write_file"), ("dependencies", "dependency_tracker.cpp:write_dependencies"), ("reading", "files.cpp:load")],
  ["files in the directory", "exit status", "standard error"], "exhaustive fault enumeration of the real program and exhaustive enumeration of option combinations", "The program runs in process with the C library's file calls interposed; every call of a conversion is made to fail in turn.",
  [("options", "what to write where", "quickbook.cpp:parse_document_options")])
P("C32", "The same input gives the same output wherever and whenever it is converted",
  "Converting a document depends on its files and the options only: two runs of the program on the same files with the same options produce byte for byte the same output files, the same dependency list, the same messages and the same exit status (paths relative to the directory given), whatever memory, the environment, the locale and time zone, the current directory, the order in which the directory lists its files, and an earlier output at the same place contain. No result depends on memory that was never written. A longer earlier output is replaced completely by a successful run.",
  ["inputs"], "for every document of up to two (thorough: three) fragments out of 46 covering the language, in two language versions and two output formats: two fresh processes of the program with different memory contents, environment, directory (one with decoys of the same names), file creation order and earlier output; every single fragment also under memcheck",
  "tests compare against one golden file on one machine; values read uninitialised and orders that depend on addresses or the file system usually come out the same there",
  ["quickbook.cpp", "actions.cpp", "bb2html.cpp", "state.cpp", "include_paths.cpp", "dependency_tracker.cpp", "document_state.cpp"],
  [("state", "state.cpp:state::state"), ("globs", "include_paths.cpp:include_search_glob"), ("html", "bb2html.cpp:html_gen"), ("dependencies", "dependency_tracker.cpp:write_dependencies")],
  ["files in the directory", "exit status", "standard error"], "exhaustive enumeration of documents, each executed in systematically different surroundings", "The real program is run as separate processes. Surroundings are two fixed and very different sets, not all possible ones. The date macros are fixed by --debug.",
  [("memory", "memory left by earlier calls", "quickbook.cpp:main")])

P("C33", "Images name their file and carry their attributes exactly as written",
  """An image element `[$path [name value]...]` gives one BoostBook image whose file reference is the path written, every special character, quote, space, non-ASCII and (since 1.6) escaped character in it (`\\[`, `\\#`, `\\u00e9`) kept and escaped exactly once. Each attribute is passed on with its name and value, trimmed and escaped once; of a repeated attribute the first counts and each other one is
  warned about. The description is the `alt` attribute, or before version 1.6 the name of the file without directory and extension. An image named `.svg` gets the format SVG, and the double-quoted `width` and `height` of the file's `svg` element as contentwidth and contentdepth if the file can be read and the document gives none; a missing, empty or malformed file never fails the conversion. The text around the image is unchanged, wherever comments and spaces are placed inside the element.""",
  ["inputs"], "every path of up to four (thorough five) tokens from 17, every list of up to two (three) attributes from 9 names and 11 values, 5 separators, 16 forms of SVG file, in versions 1.4 to 1.7",
  "the gold tests have a few plain paths; quoting, repetition, the size search in a file and version differences combine",
  ["actions.cpp", "phrase_element_grammar.cpp", "main_grammar.cpp"],
  [("images", "actions.cpp:image_action"), ("escapes", "actions.cpp:raw_unicode_action, main_grammar.cpp:raw_escape"), ("attributes", "phrase_element_grammar.cpp:image")],
  ["BoostBook output", "warnings"], EX, "The real program; the image element of the output is parsed and compared with a reference. Unquoted or single-quoted sizes in SVG files are not claimed.",
  [("attributes", "attributes of the image so far", "actions.cpp:image_action")])

P("C34", "Links and anchors carry their target exactly and keep their place",
  """`[@url text]`, `[link id text]`, `[funcref name text]` and the other references, `[role name text]` and `[#id]` each give exactly one element of their own kind, whose attribute is the target written: everything up to the first space, `]` or comment (templates expanded in it since 1.7, escapes resolved since 1.6), kept
  character by character and escaped exactly once; only URLs get the characters that are not allowed in them percent-encoded, existing escapes stay. The text is the rest, with its markup; without one the target is shown. A missing or empty target, or a name that is not an identifier (since 1.7, or starting with $) is an error.
  Every anchor in the document is written exactly once, after all the text before it and before all the text after it, wherever it stands: in paragraphs, headings, lists, tables, templates, blocks, at the end of any of them or of the document; in text left out by a condition it is not written.""",
  ["inputs"], "every target of up to three (thorough: four) tokens from 28 for each of 14 element forms, with every separator, every text of up to three (four) of 14 tokens, and every sequence of up to three (four) of 34 constructs holding anchors, in versions 1.4 to 1.7",
  "gold tests have a few plain links and anchors; which characters meet, where an element ends and what follows an anchor are combinations",
  ["actions.cpp", "phrase_element_grammar.cpp", "main_grammar.cpp", "utils.cpp", "doc_info_actions.cpp"],
  [("links", "actions.cpp:link_action"), ("targets", "main_grammar.cpp:attribute_value_1_7"), ("anchors", "actions.cpp:write_anchors"), ("urls", "utils.cpp:partially_escape_uri")],
  ["BoostBook output", "errors"], EX, "The real program; its output is parsed and compared with a reference built from the tokens, the order of anchors and words with the order in the source.",
  [("pending anchors", "anchors read and not yet written", "state.hpp:state")])

P("C35", "Every HTML page reaches its style sheet, graphics, images and linked pages",
  """The HTML options and the places of input and output decide where every reference of every page leads, and each leads there when followed from where that page lies, whatever directory it is in: --css-path, --graphics-path and --boost-root-path are addresses used as they are, or paths from the current directory to a file, with characters special in addresses escaped;
  without the first two the boost root's doc/src is used, without any there is neither style sheet nor graphic. `boost:` links are below the boost root (or the release documentation on the web), their own text unchanged. Relative links and images written in the document are relative to the directory of the output, on every page; absolute ones are unchanged. Links to sections, contents and navigation lead to the page of the section,
  whatever characters identifiers contain. Chunked output is written to the output directory (by default html next to the input) as index.html and one page per nested document named after its identifier, and single page output to one file.""",
  ["inputs"], "every combination of 10 style sheets, 8 graphics directories, 7 boost roots (none, relative, absolute, special characters, addresses), 8 output places, 4 input places; for a third of them (thorough: all) also pretty printed and with identifiers special in addresses",
  "gold tests run in one directory without these options; wrong paths only show on pages in subdirectories or for other current directories",
  ["quickbook.cpp", "bb2html.cpp", "path.cpp", "boostbook_chunker.cpp"],
  [("options", "quickbook.cpp:main"), ("paths", "bb2html.cpp:relative_path_or_url, get_link_from_path"), ("page names", "boostbook_chunker.cpp:id_to_path"), ("joining", "path.cpp:path_or_url::operator/")],
  ["HTML pages: link, img and a elements", "names of the files written"], EX, "The real program; every page written is parsed, each reference is resolved as a browser would and compared with the file meant. Identifiers starting with a dot, and image names special in addresses, are not claimed.",
  [("pages", "page each identifier is on", "bb2html.cpp:ids_type")])

P("C36", "Each file is read by its own language version, restored after includes",
  """Every file is read by the rules of the language version it declares, whatever the version of the file that includes or imports it: a [quickbook] attribute before the document information always counts, one inside it counts for the main document and, from version 1.6 of the includer on, for included documents; a main document or such an included document without one is version 1.1, any other file has the version of its includer.
  Template bodies are read by the version of the file that defines them, arguments by that of the file that gives them. After an include or import the version, source mode (from 1.6), macros and templates (from 1.6; earlier they stay defined) are those of before, except that an import adds its macros and templates, and nothing else to the document; a fragment included without macros, templates and a version gives what its text gives in its place. A version that does not exist or is not a number is an error.""",
  ["inputs"], "every root version (and none) x source mode x every header (none, before, inside, without version, both; 1.1-1.7; with and without source mode) of two files including one another x every sequence of two (thorough: three) of nine items (text, include, import, nested include and import, template calls, macros); all version attributes of up to 4 tokens; imports and includes of all sequences of two (thorough: three) of 20 elements in five places, with three kinds of header, compared with an empty file and with the text in place",
  "gold tests include files of one version from another in a handful of places; what leaks depends on both versions, the kind of header and the order of includes",
  ["actions.cpp", "doc_info_actions.cpp", "state.cpp", "files.cpp", "doc_info_grammar.cpp"],
  [("including", "actions.cpp:load_quickbook"), ("template version", "actions.cpp:call_template"), ("deciding the version", "doc_info_actions.cpp:get_version, pre"), ("saved state", "state.cpp:state_save")],
  ["BoostBook pieces whose form differs by version and source mode"], EX, "A probe text reads differently in each of 1.4, 1.5, 1.6, 1.7 and in each source mode; the sequence of pieces in the output is compared with a reference that interprets headers and scopes. Versions before 1.4 read the probe as 1.4 does.",
  [("language version", "version of the file being read", "state.cpp:qbk_version_n"), ("template scopes", "templates and macros in force", "template_stack.cpp")])

P("C37", "A compatibility mode gives the identifiers of the older version",
  """A document that asks for compatibility with an older language version gets exactly the identifiers, in the same order and on the same elements, and the links the program makes to them, that the same text gets when written for that version.
  A file included without document information, and a template defined in a file of any version, generate identifiers as the document that uses them does, whatever version they declare; the document information of a file included by a document before 1.6 counts the same in every such mode.
  A document included by one of version 1.6 or later keeps the compatibility it declares and gets the identifiers it has on its own.""",
  ["inputs"], "every sequence of up to two of 24 sections, headings, tables, anchors, links and notes (three of 12 in the document itself, thorough of all), with title and identifier, title only or neither, for every pair of versions 1.1, 1.3-1.7 with the older as compatibility mode; in the document, an included file of three versions, an included file with document information, a nested document and templates of three versions",
  "gold tests hold a few documents with a compatibility mode; which rule is used where depends on two versions, the kind of element and how the text was reached",
  ["document_state.cpp", "doc_info_actions.cpp", "actions.cpp", "id_generation.cpp"],
  [("deciding the mode", "doc_info_actions.cpp:pre"), ("rules per mode", "document_state.cpp:start_file, add_id_to_section, create_new_section"), ("headings and tables", "actions.cpp:header_action, table")],
  ["id and linkend attributes of the output"], EX, "Two conversions by the real program are compared for every case (nothing is predicted): in compatibility mode, and by the older version.")

P("C38", "No input makes the program misuse memory or stop without an answer",
  """Whatever bytes the document, the files it includes or imports and its images hold (short of nesting so deep that it exhausts the stack), converting it to BoostBook or HTML reads and writes only memory that belongs to it, reads no value that was never set, and breaks none of the program's own assertions.
  It ends by itself with exit status 0 and the output written, or 1 after an error was reported; no exception escapes and no signal stops it.""",
  ["inputs"], "every cut, omission, replacement by five bytes, insertion of four pieces and repetition at every byte of two documents, C++ and Python files, an included document and an SVG image that together use every element of the language (thorough: all 256 bytes, 24 pieces, four versions); every one or two of 31 raw characters in 26 contexts",
  "tests hold valid texts and a few invalid ones; a wild read needs the input to end, or to be damaged, at one particular place, and shows in a test only if it crashes.",
  ["main_grammar.cpp", "phrase_element_grammar.cpp", "block_element_grammar.cpp", "doc_info_grammar.cpp", "syntax_highlight.cpp", "code_snippet.cpp", "actions.cpp", "files.cpp", "values.cpp", "xml_parse.cpp", "utils.cpp"],
  [("parsing", "grammar.cpp, main_grammar.cpp"), ("escapes", "actions.cpp:escape_unicode_action"), ("code", "syntax_highlight.cpp, code_snippet.cpp"), ("output", "post_process.cpp, bb2html.cpp")],
  ["sanitizer reports", "exit status", "output file"], EX, "The whole program compiled with AddressSanitizer and UndefinedBehaviorSanitizer and its assertions on; every damaged text within the bound is converted to both formats.")

