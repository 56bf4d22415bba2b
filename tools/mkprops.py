"""Writes /verif/properties.jsonl (edit here, run, commit both)."""
import json, os
P = []
B = "python/moz/l10n/"
def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[B + f for f in files], mechanism=[dict(name=n, where=B + w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

IN = ["inputs"]
p("C01", "Properties files round-trip",
  "Serializing a .properties resource and parsing it back yields the same message ids, values, comments and sections, for keys and values with any characters (control characters, outer spaces, backslashes, line breaks, separators), with and without ASCII encoding of output. Any .properties text is read as exactly the keys and values that the format defines: natural lines joined at escaped line ends, comment lines dropped, keys ending at the first unescaped separator, escapes decoded. Re-serializing the parse of any text is a fixpoint that keeps every key and value.",
  IN, "all keys, values and comments up to the stated lengths over all Unicode scalar values, and all source texts up to the stated length",
  "The tests serialize one sample file and a few hand-written escapes; the interactions of escape, separator, continuation and comment characters at string ends are not sampled.",
  ["formats/properties/parse.py", "formats/properties/serialize.py"],
  [("escaping of keys and values", "formats/properties/serialize.py"), ("line parser and unescaping", "formats/properties/parse.py")])
p("C02", "DTD files round-trip",
  "Serializing a DTD resource and parsing it back yields the same entity names, values and comments, for every entity name and value the serializer accepts, whichever quotes the value contains; in values with both kinds of quotes the double ones come back as &quot;, and in comments double dashes are kept apart by a zero-width space and the indentation of continuation lines may change. No comment or value can add, remove or change an entity. Re-serializing the parse of any DTD text is a fixpoint.",
  IN, "all names and values up to the stated lengths over all Unicode scalar values; all texts up to the stated length inside the stated templates",
  "Tests use one sample file and a few quote cases.",
  ["formats/dtd/parse.py", "formats/dtd/serialize.py"],
  [("quoting of values and name validation", "formats/dtd/serialize.py"), ("entity and comment scanner", "formats/dtd/parse.py")])
p("C03", "Inc files round-trip",
  "Serializing a .inc resource and parsing it back yields the same names, values (with line breaks as spaces) and comments (with lines stripped of outer whitespace), or the serializer refuses the input. No accepted name, value or comment can add, remove or alter another entry.",
  IN, "all names, values and comments up to the stated lengths over all Unicode scalar values",
  "Tests use one sample file.",
  ["formats/inc/parse.py", "formats/inc/serialize.py"],
  [("line writer", "formats/inc/serialize.py"), ("#define line parser", "formats/inc/parse.py")])
p("C04", "Ini files round-trip",
  "Parsing the serialization of an .ini resource yields the same sections, keys, values and comments for every resource that was itself obtained by parsing, including the indentation of comment lines, and values with line breaks survive as continuation lines as long as their lines have no outer whitespace. The serializer refuses section or entry ids and values that it cannot represent, rather than writing something that reads as another key, value or comment.",
  IN, "all values and comments up to the stated lengths; all source texts in the stated templates",
  "Tests use one sample file.",
  ["formats/ini/parse.py", "formats/ini/serialize.py"],
  [("continuation-line writer and id validation", "formats/ini/serialize.py"), ("iniparse-based reader", "formats/ini/parse.py")])
p("C05", "JSON formats round-trip",
  "For plain JSON, parsing a tree of string values and serializing it back yields the same tree, and every resource with string ids serializes to a tree that parses back to the same entries or is refused. No entry silently overwrites another.",
  IN, "all object trees of the stated shapes with symbolic keys and values; all resources with symbolic id parts",
  "Tests use one sample file.",
  ["formats/plain_json/parse.py", "formats/plain_json/serialize.py"],
  [("nesting of id parts", "formats/plain_json/serialize.py"), ("flattening of nested objects", "formats/plain_json/parse.py")])
p("C06", "WebExtensions messages round-trip",
  "Parsing a messages.json message, with its placeholders object, and serializing it yields a message string and placeholders that parse to the same message, or the message is refused; no entry of a file silently overwrites another. Literal dollar signs, positional arguments and named placeholders are never confused with each other.",
  IN, "all message strings and placeholder contents up to the stated lengths",
  "Tests sample a handful of placeholder spellings.",
  ["formats/webext/parse.py", "formats/webext/serialize.py"],
  [("placeholder and $-escape scanner", "formats/webext/parse.py"), ("placeholder naming and $-escaping", "formats/webext/serialize.py")])
p("C07", "Gettext catalogs round-trip",
  "Serializing a gettext resource and parsing it back yields the same ids, contexts, singular and plural values, comments (without empty lines and trailing whitespace), flags, references and header fields, for all the line breaks that polib reads. Plural variants keep their index order and none is lost: one that has no place makes the serializer fail with a ValueError, as do section ids and anything else that gettext cannot express. Trimming comments, or skipping obsolete messages, removes only those.",
  IN, "all msgids, contexts, msgstrs and comments up to the stated lengths; plural entries with up to the stated number of forms",
  "Tests use one sample file and two plural cases.",
  ["formats/gettext/parse.py", "formats/gettext/serialize.py"],
  [("polib entry construction", "formats/gettext/serialize.py"), ("polib entry reading", "formats/gettext/parse.py")])
p("C08", "Fluent resources round-trip",
  "Parsing the Fluent serialization of a message gives back an equal message value: literal text, placeholders, references, function options and variants all survive; and a Fluent pattern with any selectors is read as a message that says the same as it for all values. Text that Fluent syntax treats specially is escaped rather than reinterpreted (a quoted literal without function counts as text), and names, variants and structures that Fluent cannot express are refused with an error.",
  IN, "all pattern texts, literal arguments, and names up to the stated lengths; pattern and select message shapes in the stated grammar",
  "Tests cover sample files; interactions of indentation, special characters and escapes inside patterns are not sampled.",
  ["formats/fluent/parse.py", "formats/fluent/serialize.py"],
  [("pattern flattening and text escaping", "formats/fluent/serialize.py"), ("AST to model conversion", "formats/fluent/parse.py")])
p("C09", "Android strings round-trip",
  "Strings are read as Android reads them (escapes, quotes, folded whitespace), and serializing a message on its own or as a string, plural or array item and parsing the result yields the same message: text (whitespace, control codes, quotes, backslashes, line breaks, a leading @ or ?), printf placeholders, entity references, protected spans and inline markup all survive, where text that itself reads as a printf placeholder or as an escaped HTML tag comes back as a placeholder with that source. Names, attributes, comments and entity values come back too, or are refused, and none of them can add, remove or change another entry; the order of items, strings and comments is kept. Any strings file that can be read is written so that it reads the same, and a second round changes nothing.",
  IN, "all string values up to the stated lengths over all characters XML can represent; the stated placeholder and element shapes",
  "Tests sample escapes one at a time.",
  ["formats/android/parse.py", "formats/android/serialize.py"],
  [("escape and quoting of text", "formats/android/serialize.py"), ("unescape, whitespace folding and placeholder scan", "formats/android/parse.py")])
p("C10", "XLIFF messages round-trip",
  "Each unit, group, note, comment and attribute of a file is read as what it is, in order. Serializing an XLIFF message (plain or with inline elements) and parsing it gives an equal message, also as the source or target of a file, with its ids, metadata, notes and comments; Xcode strings, plurals and string catalogs come back with each text and printf placeholder as it was. No text is lost, duplicated or moved across an inline element, and what cannot be written is refused with a ValueError.",
  IN, "all text values up to the stated lengths over all characters XML can represent; the stated inline element shapes",
  "Tests compare a few sample files.",
  ["formats/xliff/parse.py", "formats/xliff/parse_trans_unit.py", "formats/xliff/serialize.py", "formats/xliff/parse_xcode.py"],
  [("inline element model", "formats/xliff/parse_trans_unit.py"), ("pattern writer", "formats/xliff/serialize.py"), ("printf pattern", "formats/xliff/parse_xcode.py")])
p("C11", "MessageFormat 2 syntax round-trip",
  "Serializing any valid message to MessageFormat 2 syntax and parsing that gives an equal message, for literal arguments, options, attributes, markup, declarations and variants with any contents. Messages that cannot be expressed are rejected with a ValueError instead of being written wrongly.",
  IN, "all texts and literals up to the stated lengths over all Unicode scalar values; all message shapes in the stated grammar",
  "Tests use fixed message lists.",
  ["formats/mf2/serialize.py", "formats/mf2/validate.py", "formats/mf2/message_parser.py"],
  [("text, literal and identifier writing", "formats/mf2/serialize.py"), ("number and name grammars", "formats/mf2/validate.py"), ("parser", "formats/mf2/message_parser.py")])
p("C12", "MessageFormat 2 parsing is total and stable",
  "For every string, parsing it as MessageFormat 2 terminates and either raises the documented parse error or returns a message that is valid and that serializes to text which parses to an equal message. A valid message has no duplicate, late or self-referential declaration, and each selector leads to a declaration with a function, each variant has as many keys as there are selectors, no two variants have the same keys and one of them has only catch-all keys. Text without syntax characters stands for itself.",
  IN, "all source strings up to the stated length over all Unicode scalar values, and all strings in the stated templates",
  "Tests use fixed lists of valid and invalid sources.",
  ["formats/mf2/message_parser.py", "formats/mf2/validate.py", "formats/mf2/serialize.py"],
  [("parser and its error", "formats/mf2/message_parser.py"), ("validation", "formats/mf2/validate.py")])
p("C13", "MessageFormat 2 JSON data model round-trip",
  "Converting any valid message to the MessageFormat 2 JSON data model and back gives an equal message, and the produced JSON contains only JSON types.",
  IN, "all message shapes in the stated grammar with symbolic names, literals and texts",
  "Tests convert a handful of messages.",
  ["formats/mf2/to_json.py", "formats/mf2/from_json.py"],
  [("model to data model", "formats/mf2/to_json.py"), ("data model to model", "formats/mf2/from_json.py")])
p("C14", "Message JSON representation round-trip",
  "Converting any message or entry to its JSON representation and back gives an equal message or entry, with nothing lost, reordered or retyped.",
  IN, "all message and entry shapes in the stated grammar with symbolic names, texts, attribute values and id parts",
  "Tests convert a handful of messages.",
  ["message/to_json.py", "message/from_json.py"],
  [("writers", "message/to_json.py"), ("readers", "message/from_json.py")])
p("C15", "Normalizing a message keeps its meaning",
  "Normalizing a message never changes the text and placeholders it formats to for any selector values, keeps every declaration that is reachable from its patterns or selectors, and is idempotent.",
  IN, "all pattern shapes up to the stated length with symbolic texts and variable names; declarations that refer to each other in any way",
  "Tests normalize a few hand-written messages.",
  ["util/normalize.py", "model.py"], [("normalize methods", "model.py")])
p("C16", "Printf placeholder parsing is lossless",
  "Parsing a string with printf placeholders (in properties, Xcode and Android strings) preserves it: concatenating the literal text and the recorded source of each placeholder gives back exactly the input text, and each placeholder keeps its type and the argument it refers to. Literal percent signs survive parse and serialize.",
  IN, "all strings up to the stated length",
  "Tests list a few placeholder spellings.",
  ["util/printf.py", "formats/properties/parse.py", "formats/xliff/parse_xcode.py", "formats/android/parse.py"],
  [("shared placeholder parser", "util/printf.py")])
p("C17", "Adding entries never loses translations",
  "Adding the entries of one resource to another keeps every entry and comment of the target in order, makes every source entry id present exactly once, reports the number of entries added, and never alters an existing target value. Repeating it adds nothing.",
  ["inputs", "histories"], "all pairs of resources of the stated shapes with symbolic section ids, entry ids and comments",
  "Tests cover nine hand-written pairs.",
  ["resource/add_entries.py"], [("placement of new entries", "resource/add_entries.py")])
p("C18", "Resource comparison is an equivalence on content",
  "Comparing resources or entries for localization equality is reflexive and symmetric, ignores only what is documented to be ignored (order of entries and sections, empty anonymous sections, line positions), and distinguishes any difference in ids, values, comments or metadata.",
  IN, "all pairs of resources of the stated shapes with symbolic ids, values and comments",
  "Tests cover a few hand-written pairs.",
  ["resource/l10n_equal.py"], [("comparison", "resource/l10n_equal.py")])
p("C19", "Android locale mapping is invertible",
  "Mapping a locale to its Android resource qualifier and back gives the original locale, with the legacy Hebrew, Indonesian and Yiddish codes and script or region subtags kept apart; a string that is not such a qualifier is rejected.",
  IN, "all locale codes matching the language, optional script and optional region grammar; all directory names up to the stated length",
  "Tests list a few locales.",
  ["paths/android_locale.py"], [("conversion in both directions", "paths/android_locale.py")])
p("C20", "Configured paths map references and targets one to one",
  "With a configuration file, the target path computed for a reference file and locale maps back to that same reference file and locale, with any characters in names and directories, wildcards, templates, included configurations and forced paths. The reported set has exactly the matching reference files with their targets and configured locales; a path that is no reference has no target, and a locale that is not configured has none either. A reference is found only for its own targets.",
  ["configurations", "inputs"], "all configurations of the stated shapes with symbolic path segments and locale codes",
  "Tests use two fixture trees.",
  ["paths/config.py"], [("path template matching", "paths/config.py")])
p("C21", "Discovered paths map references and targets one to one",
  "In a directory tree, the source directory, the base with most locale directories below the root, and the locales are found as documented, for relative roots too. For discovered localization directories, the target path computed for a reference file and locale maps back to that reference file and locale, for source files and templates alike, and lies in the existing directory of that locale whichever separator its name has. Every reference is listed once, with its target, and other paths and locales have none.",
  ["configurations", "inputs"], "all directory trees of the stated shapes with symbolic file and locale names",
  "Tests use a few fixture trees.",
  ["paths/discover.py"], [("root and locale detection", "paths/discover.py")])
p("C22", "Building a localization keeps only and all source messages",
  "A built file has the messages of its source in their order, each with its translation where the localization has it (for Fluent, with exactly the attributes of the source) and otherwise as in the source, or left out for Fluent; it has no comments, and the metadata of the localization, or of the source if there is none. The messages that are not localized are counted and listed exactly, one file is built for each configured source and locale, and no other file is changed.",
  ["inputs", "configurations"], "all pairs of source and localized resources of the stated shapes with symbolic ids, and values",
  "Tests build one fixture tree.",
  ["bin/build.py", "bin/build_file.py"], [("merging of source and localization", "bin/build.py")])
p("C23", "Migrations add translations and never change existing ones",
  "Applying a migration adds exactly the messages of its map whose ids are not there and whose sources are, each in its own section or group and after its sources, and leaves all other messages and comments as they were; doing it again adds nothing. Files without new messages, those that do not parse and those whose new messages cannot be serialized are left byte for byte as they were, a missing file is made with only the new messages, and a dry run reports the same and writes nothing.",
  ["inputs", "histories"], "all reference and target resources of the stated shapes with symbolic ids; all migration maps of the stated shapes",
  "Tests run a few migrations.",
  ["migrate/__init__.py", "migrate/utils.py"], [("apply and insertion", "migrate/__init__.py"), ("entry lookup and insertion", "migrate/utils.py")])
p("C24", "Metadata accessors behave like an ordered multimap",
  "Getting, testing, setting and deleting metadata act on the first matching key or on all of them as documented, and never touch metadata with other keys; a set value is what is read back.",
  ["inputs", "histories"], "all metadata lists up to the stated length with symbolic keys and values",
  "Tests cover one list.",
  ["model.py"], [("metadata methods", "model.py")])
p("C25", "JSON line comments are stripped without touching strings",
  "Loading JSON that has line comments gives exactly the data of the JSON without the comments: nothing inside a string literal is ever taken for a comment, and everything from a comment marker outside strings to the line end is dropped.",
  IN, "all texts of the stated templates with symbolic characters",
  "Tests cover two samples.",
  ["util/loads.py"], [("comment scanner", "util/loads.py")])
p("C26", "Format detection depends on the name and contents as documented",
  "Detecting the format of a file or its contents never raises for any text, goes by the extension wherever that settles it and by the contents of JSON and XML otherwise, and does not depend on the directory or stem of the name. The parser for the detected format is the one that parse_resource() uses, and contents that are detected as webext (with the placeholders they use defined) or plain JSON are accepted by that parser.",
  IN, "all file names up to the stated length with symbolic stem and extension; the stated content classes",
  "Tests list some names.",
  ["formats/__init__.py", "resource/parse_resource.py"], [("detection", "formats/__init__.py")])
p("C27", "Trimming comments removes comments and nothing else",
  "Serializing with comment trimming, in every format that supports it, produces output that has no text of any comment and that parses to the same ids and values as the untrimmed output.",
  IN, "all resources of the stated shapes with symbolic comments, ids and values",
  "Tests trim one sample file for each format.",
  ["formats/properties/serialize.py", "formats/dtd/serialize.py", "formats/inc/serialize.py", "formats/ini/serialize.py", "formats/gettext/serialize.py", "formats/fluent/serialize.py", "formats/xliff/serialize.py"],
  [("trim_comments handling", "formats/properties/serialize.py")])
p("C28", "Line positions point at the entries they describe",
  "Every reported line position satisfies start <= key <= value < end, positions of successive entries do not overlap and increase, and the lines they delimit contain exactly that entry: parsing just those lines gives the same entry.",
  IN, "all source texts of the stated templates with symbolic characters",
  "Tests check the positions of one sample file.",
  ["formats/properties/parse.py", "formats/fluent/parse.py", "formats/dtd/parse.py"], [("line accounting", "formats/properties/parse.py")])
p("C29", "Single-message parse and serialize agree with the file formats",
  "For every format, serializing a single message and parsing that as a single message of the same format gives an equal message, and a message read from a file equals the one read from its value alone.",
  IN, "all message texts up to the stated lengths; all formats with message-level functions",
  "Tests check single samples for each format.",
  ["message/parse.py", "message/serialize.py"], [("format dispatch", "message/parse.py"), ("format dispatch", "message/serialize.py")])
p("C30", "Parsers fail only with documented errors and always terminate",
  "For every input text the line-based parsers (properties, DTD, inc, ini) and message parsers terminate and either return a resource or raise the documented error type; no text crashes them with an internal error.",
  IN, "all source texts up to the stated length over all Unicode scalar values",
  "Tests parse well-formed files.",
  ["formats/properties/parse.py", "formats/dtd/parse.py", "formats/inc/parse.py", "formats/ini/parse.py"], [("scanners", "formats/properties/parse.py")])
p("C31", "Parsing and serializing do not modify their arguments",
  "Serializing, comparing, converting or copying a resource, message or entry leaves the object passed in equal to what it was before, so that doing it twice gives the same output both times.",
  ["inputs", "histories"], "all messages and resources of the stated shapes with symbolic contents",
  "Tests use each object once.",
  ["formats/webext/parse.py", "formats/fluent/serialize.py", "formats/gettext/serialize.py", "resource/l10n_equal.py", "message/to_json.py"],
  [("copying before changing", "resource/l10n_equal.py")])
p("C32", "Fix and lint leave good files alone and bad files untouched",
  "Fixing a file that parses leaves exactly the serialization of its resource in it, so that fixing it again changes nothing, and a file that does not parse or serialize or has no known format is left byte for byte as it was, as is any file not asked for. Linting writes nothing and fails exactly if some file does not parse or is of no known format; fixing fails exactly if some file fails, and stops there unless told to continue; what became of each file is reported.",
  ["inputs", "fault_sequences"], "all outcomes of parsing, reading and writing each of up to the stated number of files",
  "Tests run the commands on fixture files.",
  ["bin/fix.py", "bin/lint.py"], [("file loop", "bin/fix.py"), ("file loop", "bin/lint.py")])
p("C33", "Comparison reports every missing message and nothing else",
  "Comparing localizations with their source reports for each locale exactly the message ids of the source that its own file does not have, all of them if there is no such file, and an error for a file that is not understood; only files configured for that locale and of the asked-for extensions count. The counts printed for files, locales and the source are those of these messages, and nothing is written.",
  ["inputs", "configurations"], "all pairs of reference and localized resources of the stated shapes with symbolic ids",
  "Tests run one fixture tree.",
  ["bin/compare.py"], [("comparison", "bin/compare.py")])
p("C34", "XML character data is handled identically by parser libraries",
  "Files with XML entities, namespaces, encodings and DOCTYPE declarations are read by the XML library without expanding external entities and give the same text as the XML specification defines.",
  IN, "all XML documents", "Tests use sample files.",
  ["formats/android/parse.py", "formats/xliff/parse.py"], [("lxml parser configuration", "formats/android/parse.py")])
p("C35", "Directory walks honor ignore files",
  "Walking a tree yields every file that is not ignored by an ignore file or by a name starting with a dot exactly once, and none that is ignored. Rules are relative to the root wherever the ignore file and the walked subdirectories are, the last matching rule decides, and a missing ignore file is as an empty one.",
  ["configurations"], "all trees of the stated shape with symbolic names; all ignore files of the stated lines",
  "Tests walk one tree.", ["util/walk_files.py"], [("walk", "util/walk_files.py")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
