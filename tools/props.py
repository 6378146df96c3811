"""Single source of the property texts; tools/mkprops.py writes properties.jsonl and MANIFEST.json from it."""
I, H, C, F, K, S = "inputs", "histories", "configurations", "fault_sequences", "crash_points", "schedules"
L = "lib/sldr/"
ALLLIB = [L]
PROPS = []


def P(pid, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    PROPS.append(d)


P("P01", "Serialised XML is well formed whatever the document contains",
  "Writing a document out gives well-formed XML for every document: the characters special to XML are escaped in element "
  "text and in attribute values, a CDATA block cannot be ended early by its own content, a comment cannot be ended early "
  "by its own text, and every start tag written is closed with the same name on every path.",
  [I], "every document the library can hold: any text, attribute value, comment, CDATA content, nesting",
  "Tests serialise a handful of fixed, harmless documents; no test puts '&', '<', quotes, ']]>' or '--' in a value.",
  [L + "ldml.py", "scripts/proccldrcomments"],
  [("escape tables and protect helper", "ETWriter._protect, _elementprotect, _attribprotect"),
   ("serialiser", "ETWriter.serialize_xml")], observe=["string passed to the write callback"])

P("P02", "Calls are independent: no state leaks through defaults or shared tables",
  "What a library call does depends on its arguments and on the object it is called on, not on earlier calls: no call "
  "modifies a function's default argument, a module-level table, or the structural data (element order, key attributes, "
  "parent locales, element blocks and the like) shared by all documents, once that data has been loaded.",
  [H, I], "every sequence of API calls on any number of documents in one process",
  "Leaks show only across calls with particular earlier arguments; tests run each function a few times with fixed ones.",
  ALLLIB, [("loaders that alone may fill the class tables", "Ldml.ReadMetadata/ReadDTD/ReadTZData/ReadSupplementalData"),
           ("defaults", "every def in lib/sldr")],
  state=[("class metadata", "DTD order, key contexts, parentLocales", "Ldml class attributes"),
         ("module tables", "draftratings, _attribprotect, tables of exemplar categories", "module level")])

P("P03", "Overlay and difference leave the other document alone",
  "Overlaying another document onto a document, or taking another document's content away from it, leaves that other "
  "document exactly as it was: none of its elements, attributes, texts, alternates or comments change, and no element of it "
  "becomes part of the result (what is taken over is copied), so later edits of the result cannot reach it.",
  [I, H], "every pair of documents, and every later edit of the result",
  "No test calls overlay or difference at all.", [L + "ldml_merge.py", L + "ldml.py"],
  [("overlay", "LdmlMerge.overlay/_overlay_child/_overlay_external_resources"), ("difference", "LdmlMerge.difference"),
   ("copy", "Ldml._copynode")])

P("P04", "Overlay only fills gaps",
  "Overlaying a fallback document never changes what the document already says: the text of an existing element is replaced "
  "only where it is the inherit marker, existing attributes are kept, and existing elements are not removed. "
  "The one exception is the font fallback list inside external resources: where a fallback font takes over the types it names, the "
  "fonts there may be reordered, have their types narrowed, and go when none are left.",
  [I], "every pair of documents", "No test calls overlay.", [L + "ldml_merge.py"],
  [("overlay", "LdmlMerge.overlay/_overlay_child/_overlay_external_resources")])

P("P05", "Difference removes only what is equal in the other document",
  "Removing another document's content from a document takes out an element (or one of its alternates) only when the other "
  "document has a matching element with the same key and the same content, or when everything below it was found equal in "
  "the same way; nothing else of the document is removed, added or altered.",
  [I], "every pair of documents", "No test calls difference.", [L + "ldml_merge.py"],
  [("difference", "LdmlMerge.difference")])

P("P06", "Serialising leaves the document as it was",
  "Writing a document out, even when the output stream fails part way, leaves every element with the same children in the same "
  "order as before: alternates placed among the children for the duration of the write are taken out again on every exit, "
  "and an element is never taken out because of an earlier write.",
  [I, F, H], "every document with alternates, every point at which the write callback may raise, every later serialisation",
  "The tests serialise once per document and never make the stream fail or promote an alternate after a write.",
  [L + "ldml.py"], [("splicing of alternates", "Ldml.serialize_xml")])

P("P07", "Output order does not depend on the hash seed",
  "Two runs on the same input give the same result: no sequence, string, choice of element or order of writing that the "
  "library returns, stores or writes takes its order from the iteration order of a set or of hash or identity values.",
  [C, I], "every PYTHONHASHSEED and every input", "The test run fixes PYTHONHASHSEED=0, so ordering bugs cannot show.",
  ALLLIB, [("sorted() around set iteration", "throughout lib/sldr")])

P("P08", "Text files are opened with a chosen encoding",
  "Every text file that the library or a command-line tool reads or writes is decoded and encoded with an encoding named at "
  "the point where it is opened, never the one of the user's locale.",
  [C], "every locale and platform, every file", "Tests run in one UTF-8 environment.", ALLLIB + ["scripts/"],
  [("open(..., encoding=)", "every open in lib/sldr and scripts")])

P("P09", "Every name, method and call signature used exists",
  "No code path of the library or of a command-line tool fails because it uses a name, module member, method or field that "
  "does not exist, reads a variable that no path leading there has assigned, or calls one of the project's functions with arguments it does not accept.",
  [I], "every path through every function of lib/sldr and the Python scripts",
  "Python resolves names when a line runs; most functions here are on no test path.", ALLLIB + ["scripts/"],
  [("definitions", "every module")])

P("P10", "Nothing is modified while it is being iterated",
  "No loop of the library or of a command-line tool adds to or removes from the list, dictionary, set or XML element that it "
  "is stepping through, directly or through a function it calls, unless it leaves the loop straight afterwards.",
  [I], "every loop, every content", "Skipped items and RuntimeErrors need particular neighbouring items.", ALLLIB + ["scripts/"],
  [("list(...) snapshots before mutation", "throughout")])

P("P11", "Files are closed on every path",
  "Every file that the library itself opens is closed on every path out of the operation that opened it, also when reading, "
  "parsing or writing fails.",
  [F, I], "every input, including malformed ones, and every I/O failure", "Tests never make parsing fail.", ALLLIB,
  [("with statements / try-finally", "throughout")])

P("P12", "A failed save leaves the previous file as it was",
  "When producing the output of a document fails for a reason that lies in the document (serialisation raises), a file of "
  "that name that existed before still has its old content: the target is only opened for writing once the "
  "complete text has been produced.",
  [F, I], "every document whose serialisation raises, for the library's save call and the tools that write LDML files",
  "No test saves over an existing file or makes serialisation fail.", [L + "ldml.py", "scripts/"],
  [("save", "ETWriter.save_as; scripts ldmlflatten, ldmlmerge, cldrimport, ldmlnormalize, fixsldr")])

P("P13", "The library is silent and leaves the process alone",
  "Importing the library or calling it writes nothing to standard output or error (apart from output the caller asked for with an "
  "argument, warnings and log records), never ends the process or starts a debugger, and does not change the working directory, the environment, the locale, the recursion limit or the module search path.",
  [I, H], "every call of every library function", "Tests capture output and never reach most of these branches.", ALLLIB,
  [("no print/exit/breakpoint outside the command-line entry", "lib/sldr")])

P("P14", "Aliases, imports and traversals always terminate",
  "Resolving aliases, flattening collation imports, expanding keyboard imports, following the resets of a collation tailoring, enumerating equivalent language tags "
  "and parsing always come to an end, also when aliases, imports, resets or tags refer to each other in a cycle: each of these recursions "
  "is cut off at something already being visited, recursion over a document descends it, and every while loop of the library makes progress "
  "on every path through it.",
  [I], "every document, including cyclic and self-referring ones", "No test has cyclic data.", ALLLIB,
  [("visited sets", "Ldml.resolve_aliases, Ldml.flatten_collation, keyboard import, LangTag.allforms"), ("loops", "every while loop in lib/sldr")])

P("P15", "A copy can be changed without changing the original",
  "The library's copies (language tags, collation sort keys, keyboard contexts, document elements) share no mutable part "
  "with what they were copied from: changing lists, dictionaries or child elements of one never shows in the other.",
  [I, H], "every object and every later change of copy or original", "Tests never modify a copy and look at the original.",
  [L + "langtags_full.py", L + "collation.py", L + "ldml_keyboard.py", L + "ldml.py"],
  [("copies", "LangTag.copy, SortKey.copy, Context.clone, Ldml._copynode")])

P("P16", "Comparison operators obey the laws of comparison",
  "For sort keys, collation elements, language tags and the other comparable values of the library, ==, !=, <, <=, > and >= "
  "agree with one another (exactly one of <, ==, > holds wherever they are all defined, <= is < or ==, != is not ==), "
  "operands of the same value compare equal, equal values have equal hashes, and in-place operators return the resulting value.",
  [I], "every pair of values", "Tests compare a few unequal sort keys with '<' only.",
  [L + "collation.py", L + "ducet.py", L + "langtags_full.py", L + "ldml.py"],
  [("operators", "SortKey.cmp/__eq__/__lt__..., LangTag.__lt__/__eq__/__hash__, _minhash.__eq__/__hash__")])

P("P17", "Element fingerprints cover everything that makes elements differ",
  "The content fingerprint of an element depends on its tag, its text, the fingerprints of all its children in order and the "
  "name and value of every attribute, and the key fingerprint on its tag and the name and value of every "
  "distinguishing attribute; only the draft, alt and alias attributes are left out, and only when draft handling is on (white "
  "space around text aside). Mixing a value into a fingerprint depends on all of the value, on what was mixed in before and "
  "on the order, and wherever fingerprints are calculated again they are calculated with the draft handling in use.",
  [I], "every element", "Tests use fingerprints only where they coincide; nothing tests that a difference is seen.",
  [L + "ldml.py"], [("hash calculation", "Ldml._calc_hashes, _minhash.update/merge")])

P("P18", "Canonical child order is a function of schema order, tag and attributes only",
  "Normalising a document puts the children of each element, at every depth, in an order decided first by the schema's order of "
  "elements (those it does not know come last), then by tag, then by all attribute names and values in schema attribute order (values "
  "that the schema does not list ignoring case). Attributes are written in schema order, then by name. Neither order depends on the order "
  "the attributes happened to be in or on anything else. The schema's order is that of the places in its declarations, each counted once.",
  [I], "every document", "Tests normalise a few already ordered documents.",
  [L + "ldml.py"], [("sort keys", "Ldml.normalise keyel, ETWriter._sortedattrs"), ("writing", "ETWriter.serialize_xml"), ("schema order", "Ldml.ReadDTD")])

P("P19", "Batch tools report worker failures",
  "When a command-line tool hands files to worker processes, a failure in any worker surfaces in the parent: "
  "every asynchronous submission's result is collected before the tool reports success.",
  [F, S], "every set of input files and every failing worker", "No test runs the scripts.",
  ["scripts/cldrimport", "scripts/fixsldr", "scripts/ldmlflatten", "scripts/ldmlnormalize"], [("pool use", "scripts using multiprocessing")])

P("P20", "Dry runs and opt-in deletions are honoured",
  "A tool that offers a dry-run option creates, changes or deletes no SLDR data file when it is given, and a tool whose deletion of "
  "files is opt-in deletes nothing unless the option was given; it then deletes only files inside the output directory that have no source.",
  [C, I], "every combination of options and inputs", "No test runs the scripts.",
  ["scripts/sldraddkeymans", "scripts/cldrimport", "scripts/"], [("guards", "sldraddkeymans --dryrun, cldrimport --remove")])

P("P21", "Prefix and suffix stripping removes exactly what was tested for",
  "Where the code tests that a string starts or ends with a fixed text and then cuts the string by a fixed number of "
  "characters, that number is the length of the text tested for, so no character of the data is lost or left over.",
  [I], "every string", "Registry and tag parsing with these labels has no tests.", ALLLIB + ["scripts/"],
  [("label slices", "langtags_full.readIana, iana, ldml_keyboard, xmltemplate")])

P("P22", "Data files the library reads by default are shipped with it",
  "Every data file that the library opens by default, relative to its own location, exists in the package's directory, and is "
  "among the package data that an installation copies unless its absence is handled where it is opened.",
  [C], "every installation layout and every library entry that falls back to a default file",
  "Tests run from the source tree where undeclared files are present.", ALLLIB + ["setup.py"],
  [("package_data", "setup.py"), ("default names", "os.path.dirname(__file__) joins in lib/sldr")])

P("P23", "Draft status ranking agrees with the schema",
  "Every draft status the schema allows has a rank, ranks are strictly ordered in the schema's order from best to worst, and "
  "every numeric default or bound used with ranks denotes an existing rank or the number of ranks.",
  [I], "every draft value in the schema", "Tests use two draft values.", [L + "ldml.py", L + "sil.dtd"],
  [("ranking table", "ldml._alldrafts, draftratings, Ldml.get_draft")])

P("P24", "UnicodeSet output escapes what the reader treats as special",
  "Every character that has a special meaning when a Unicode set is read (brackets, braces, range and set operators, "
  "escape, property and variable marks) is escaped when a set is written out, in every representation the writer offers, so that reading the text back gives the same members.",
  [I], "every set of strings", "Tests write out two sets of plain letters.", [L + "UnicodeSets.py"],
  [("writer", "UnicodeSets.list2us and its escaping helper"), ("reader", "UnicodeSets parsing expressions")])

P("P25", "Input data is never executed",
  "Nothing read from a file or given on the command line is ever run as code or as a shell command, loaded by an "
  "unsafe deserialiser, or used to select a method to call, except from the fixed set of handlers the module itself defines.",
  [I], "every input", "Absence over all paths.", ALLLIB + ["scripts/"], [("no eval/exec/pickle/shell", "whole tree")])

P("P26", "Errors are not swallowed",
  "The library never hides an unexpected error: every exception handler names the particular exceptions it expects, or "
  "re-raises, and a handler's body never turns an interruption, a programming error or an out-of-memory condition into a normal result.",
  [F, I], "every exception that can occur below a handler", "Tests do not inject faults.", ALLLIB,
  [("handlers", "every except clause in lib/sldr")])

P("P27", "Regular expressions are valid and their results checked",
  "Every fixed pattern compiles, every group that is read from a match exists in the pattern, replacement texts refer only to existing groups, flags "
  "are passed as flags, and the result of a match, or of a group in it, that can be missing is checked before it is used.",
  [I], "every input text", "Unmatched input is hardly tested.", ALLLIB + ["scripts/"], [("re use", "whole tree")])

P("P28", "One-shot iterators are walked once",
  "Values that are produced lazily (generators, map, filter, zip, readers, files being read) are walked to their end at most once, never asked for their "
  "length, their truth or their n-th element, and never walked after the file they read from is closed, so that no data is silently lost.",
  [I], "every sequence of uses of every lazily produced value", "A second walk over nothing raises no error.", ALLLIB + ["scripts/"], [("lazy values", "whole tree")])

P("P29", "Texts are formatted with the values their format asks for",
  "Wherever a text is put together from a format and values (%, str.format, logging calls, + of texts), the format is valid, there are as many values as "
  "it has places, named places have a value of that name, and each value is of the kind its place takes; no format is used without its values.",
  [I], "every message and every output text, most of which only rare input leads to", "Messages for errors are hardly ever produced in tests.",
  ALLLIB + ["scripts/"], [("format strings", "whole tree")])

P("P30", "What a lookup may not find is checked before it is used",
  "The result of a search that can come back with nothing (find, get without a default, getattr or next with None, a function that returns None on one of its "
  "paths, a parameter left at None, a field not set yet, the text of an empty element, an optional group of a match) is not used as an object before a test "
  "on the same path has told that something was found; what the schema requires to be there may be taken for granted.",
  [I], "every document with an optional part missing, and every path to the use", "Test documents are complete.",
  ALLLIB + ["scripts/"], [("lookups", "whole tree")])

P("P31", "Names looked up in documents and data files exist there",
  "Every element path, element name, attribute and enumerated value that the library and the scripts spell out for an LDML document is one the SIL LDML schema "
  "declares at that place, and every one they spell out for a data file shipped with the library occurs in that file; and a path keeps to what the search it is given "
  "to understands (a document's own searches know plain steps with [@attribute=\"value\"] tests only, an element's own searches know no undeclared prefix). "
  "A lookup never comes back empty merely because nothing of that name can exist.",
  [I, C], "every document that follows the schema, and the data files as shipped", "A lookup that can never find anything only makes its caller do nothing; tests do not look for "
  "effects that are missing.", ALLLIB + ["scripts/"],
  [("searches", "Ldml.find/findall/ensure_path and ElementTree searches, whole tree"), ("schema", "lib/sldr/sil.dtd"),
   ("data files", "supplementalMetadata.xml, supplementalData.xml, likelySubtags.xml")])

P("P32", "Options reach every level of an operation",
  "An operation that works its way down a document by calling itself, directly or through helpers, gives those calls the options it was itself given (use of drafts, "
  "default draft, source of comments, namespaces, element to insert before, ...), an override gives them to the method it overrides, and a method gives them to the "
  "procedures of its object that take the same option: none is dropped, reset to its default, swapped with another or replaced by a setting of the object. What an "
  "option does at the top of a document it does at every depth.",
  [I, C], "every document, depth and combination of options", "Tests use small documents and default options; a dropped option only shows in deep documents processed with that option.",
  ALLLIB + ["scripts/"],
  [("recursive operations", "Ldml.normalise, ETWriter.serialize_xml, Ldml.as_xpath, LdmlMerge.merge, LdmlMerge.overlay, LdmlMerge.difference, Templater.process, CollElement.sortkey"),
   ("options handed on", "LdmlMerge._merge_with_alts, Ldml.ensure_path, Ldml._process_path, constructors")])

P("P33", "What an element carries is not lost",
  "Everything an element carries, its tag, text, attributes and children and the comments before and after it, is written whenever the document is written, unless it is not there. "
  "A copy of an element has all of that and what was worked out about the original (fingerprints, alternates, parent, document). Reading gives every comment of the "
  "document to some element and keeps the text that goes on after a comment. An element that takes over the children of another takes over the text, the fingerprint and "
  "the comments that go with them. None of this depends on how many children, attributes or comments there are, or on what they say. (Text between children is white space and is not kept.)",
  [I, C], "every document, element and path through the reader, writer and copier", "Tests compare a few documents that have few comments and no text around them; what is left out on one path only shows with an element of that shape.",
  [L + "ldml.py", L + "ldml_merge.py"],
  [("writer", "ETWriter.serialize_xml, ETWriter._nsprotectattribs"), ("reader", "Ldml.__init__"), ("copier", "Ldml._copynode"), ("taking over", "LdmlMerge._merge_with_alts")])

P("P34", "Merging reports every change it makes",
  "Merging another document into one returns a true result whenever the content of the document was changed: an element added, replaced or removed, a text or an attribute set or taken away, an alternate "
  "form taken over, a clash recorded, here or in any element below. What is found for one element is never overwritten by what is found for a later one, and no early way out forgets it; so whoever asks "
  "(ldmlmerge, to decide whether the document gets a new date) is told. (A true result without a change is allowed.)",
  [I, C], "every triple of documents, every combination of changed elements and every path through the merging functions", "No test merges; a change that is not reported shows only where nothing else in the document changed, or where what changed comes before an element that did not.",
  [L + "ldml_merge.py"],
  [("merge", "LdmlMerge.merge, LdmlMerge._align, LdmlMerge._merge_with_alts, LdmlMerge._merge_alts")])

P("P35", "Every command-line option takes effect",
  "Every option and argument that a command-line tool declares makes a difference: its value reaches a test that decides something, a call or the output on some path, is not overwritten before it is read and is "
  "not the value it would have anyway. It is used as the kind of value its declaration makes it (a text, a number, a flag, a list of texts), and a tool that cannot do without an option demands it or "
  "asks whether it was given. The option that turns worker processes off changes neither what is worked on nor what the work is given.",
  [I], "every option of every tool, every combination of options given and left out", "The tools are not tested at all; an option that has no effect, or fails only where it is given or left out, shows in no unit test.",
  ["scripts/", L + "ldml_keyboard.py"],
  [("options", "add_argument calls of all tools and the uses of what parse_args returns"), ("worker processes", "scripts ldmlflatten, cldrimport, fixsldr, sldrcoverage")])

NA = [
    ("P40", "Language tags survive parse and format",
     "Parsing a well-formed language tag and formatting it again gives an equivalent tag.",
     [I], "every BCP 47 tag", "Needs values", [L + "langtags_full.py"], [("parser/formatter", "LangTag")],
     "Equality of runtime strings after a parse/format round trip: it depends on computed values (case folding, subtag length "
     "tests), not on code shape; no sound structural necessary condition beyond P15/P16/P21, which are claimed."),
    ("P41", "Three-way merge keeps both sides' changes",
     "A change made on only one side of a three-way merge is in the result; conflicting changes are recorded.",
     [I], "every triple of documents", "No merge tests", [L + "ldml_merge.py"], [("merge", "LdmlMerge.merge")],
     "The result depends on which elements align at run time through hash tables with removals; a static argument about the "
     "matching is out of reach. Structural clauses are covered by P09, P10, P15, P17."),
    ("P42", "Collation minimisation preserves the order of every pair",
     "Minimising a tailoring against a base collation gives a tailoring that sorts every pair of strings the same.",
     [I], "every tailoring", "Samples only", [L + "collation.py"], [("minimise", "Collation.minimise")],
     "Functional equivalence of computed sort orders is a value-level property that only execution or proof can decide."),
    ("P43", "Flatten then unflatten gives back the document",
     "Removing the fallback's content from a document that was flattened with that fallback gives the original.",
     [I], "every document and fallback chain", "No tests", [L + "ldml_merge.py"], [("flatten/unflatten", "flattenlocale")],
     "Round-trip equality over runtime trees; P03, P04, P05 and P17 are the clauses visible in the code's shape."),
    ("P44", "Exemplar analysis assigns every grapheme to the right set",
     "Every grapheme of the analysed text is in exactly the exemplar set the documented rules give.",
     [I], "every text", "Samples only", [L + "ldml_exemplars.py"], [("analyse", "Exemplars.analyze")],
     "Depends on counts and ICU data at run time against numeric thresholds; no structural clause that is necessary."),
    ("P45", "Keyboard processing gives the output the keyboard describes",
     "Processing a key sequence applies the keyboard's transforms in their defined precedence.",
     [I], "every keyboard and key sequence", "No tests", [L + "ldml_keyboard.py"], [("Keyboard", "Keyboard.process")],
     "A run-time rewriting semantics over data-defined rules; order of results is value-level."),
]
for (a, b, c, d, e, f, g, h, r) in NA:
    P(a, b, c, d, e, f, g, h)
NA_REASON = {x[0]: x[8] for x in NA}
