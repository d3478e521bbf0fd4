"""Source of /verif/properties.jsonl:  python3 properties_src.py > properties.jsonl"""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": ["python/moz/l10n/" + f for f in files],
        "state": [{"name": a, "meaning": b, "where": "python/moz/l10n/" + c} for a, b, c in (state or [])],
        "mechanism": [{"name": a, "where": "python/moz/l10n/" + b} for a, b in mech],
        "observe_at": observe or [], "hook_needed": None}})

p("C01", "Migrations never alter existing translations",
  "Applying a migration to a target resource keeps every entry already in it, with its value, properties, comment, metadata and relative order, and adds only those mapped identifiers that were absent and for which the mapped function produced a value, each exactly once and with that value; an identifier that no section of the target can hold is left out, and a target that is not parsed or whose result cannot be written is left as it was. Applying the same migrations again repeats no addition, and writes nothing unless a function has since come to give a value.",
  ["histories", "inputs"], "All resources, locale sets, migration maps and sequences of migrations (including a function seeing entries added earlier in the same run).",
  "Tests run a few fixed migrations on one or two locales; preservation must hold for every resource shape, order of map entries and history of earlier migrations.",
  ["migrate/__init__.py", "migrate/utils.py"], [("Migrate.apply / _create_entry", "migrate/__init__.py"), ("get_entry / insert_entry_after", "migrate/utils.py")],
  ["files written by Migrate.apply", "return value of Migrate.apply"])
p("C02", "Migrations write and report exactly what they add",
  "A migration run returns exactly the target paths it changed, each with its added entries in map order; a target with no additions is neither created nor rewritten, and a dry run returns the same mapping while touching no file. When the target file does not exist the written file starts from an empty resource of the reference's format (for INI and XLIFF, the reference's sections without entries), never from a previous locale's content; a locale whose target cannot be parsed, or is missing while the reference it needs cannot be read, is skipped.",
  ["histories", "inputs"], "All locale sets, present/missing/unparseable target and reference files, formats, dry-run flag.",
  "Tests cover one missing-target case per few formats; the interplay of several locales, missing files and dry-run is a combinatorial history.",
  ["migrate/__init__.py", "bin/migrate.py"], [("Migrate.apply, _get_empty_resource", "migrate/__init__.py"), ("apply_migrations", "bin/migrate.py")],
  ["return value of Migrate.apply", "file tree after the run"])
p("C03", "Migration inserts after its sources, copying without aliasing",
  "A migrated entry is inserted in a section whose identifier is the longest that its own starts with: directly after the last entry whose identifier is among the function's source identifiers or the earlier targets of the same map, in the last such section having one, or else at the end of the first such section. Copied entries, values, properties and variants (with the default variant as fallback, and placeholders replaced as requested) equal their source at the time of copying, and neither the copy nor its replacement changes the source.",
  ["inputs", "histories"], "All resources with named/anonymous/repeated sections, source-id sets, copy and entry options.",
  "Tests check insertion in small two-section resources and a handful of copy options.",
  ["migrate/utils.py", "migrate/__init__.py"], [("insert_entry_after, get_entry, get_pattern, plural_message", "migrate/utils.py"), ("copy, entry, _replace_placeholders", "migrate/__init__.py")],
  ["resource after insertion", "returned entries"])
p("C04", "Built files hold exactly the source's messages",
  "For every source file and locale, the built target holds exactly the source's entries in source section and entry order, with no comments: each takes the localized entry of the same identifier if there is one, otherwise the source entry, except that in Fluent a missing message, or one lacking an attribute the source has, is left out and attributes unknown to the source are dropped. Unrecognised source files are copied byte for byte from the localization or else from the source, and inputs are never modified.",
  ["inputs", "configurations"], "All source/localization resource pairs, formats, locale sets, config layouts.",
  "Tests merge three or four fixed pairs; the merge is a rule over arbitrary overlaps of entries, attributes, terms and sections.",
  ["bin/build.py", "bin/build_file.py"], [("write_target_file", "bin/build.py"), ("cli", "bin/build.py"), ("cli", "bin/build_file.py")],
  ["files written below --target"])
p("C05", "Coverage reports count every message once",
  "With coverage enabled, each built file's entry gives the total number of source messages and the identifiers, in source order, that the target lacks or takes from the source, and for each requested locale a report is written even if it is empty. Building file by file updates only that file's entry in an existing report, so that after any sequence of single-file builds the report equals the one of a full build of the same inputs.",
  ["histories", "inputs"], "All sequences of build and build-file invocations over a set of source files and locales.",
  "Tests check one build and one update; the merge of reports is a property of histories.",
  ["bin/build.py", "bin/build_file.py"], [("write_target_file, coverage_data", "bin/build.py"), ("coverage_base handling", "bin/build_file.py")],
  ["coverage.json"])
p("C06", "Compare reports exactly the missing messages and errors",
  "For each locale directory given, the report lists per file exactly the source messages the localization lacks, all of a file's messages if the file does not exist, and an error for exactly the files that cannot be parsed; files without source messages are not mentioned. The report is the same whether the source is a directory, a config file or the equivalent JSON mapping, and extension filters only remove files from consideration.",
  ["inputs", "configurations"], "All source/localization trees, extension include/exclude sets, source kinds, locale directory arguments.",
  "Tests compare one small tree; the report is a set difference over arbitrary trees.",
  ["bin/compare.py"], [("cli, compare, msg_ids, _ext_settify", "bin/compare.py")], ["JSON and text output of moz-l10n compare"])
p("C07", "Fix rewrites to the canonical form and never destroys files",
  "Fixing a file leaves it equal to the serialization of its own parsed content, so a second fix changes nothing; a file that is unsupported, cannot be decoded, or fails to parse or serialize keeps its bytes exactly. The run stops at the first failure unless told to continue, files after it are untouched, and the exit status is 0 without failures, 1 with one, and 2 for bad arguments.",
  ["inputs", "histories", "fault_sequences"], "All sets of valid, invalid and unsupported files in any order, with and without --continue, repeated runs.",
  "Tests fix two or three files; truncation, partial writes and stop-at-error need histories over mixed trees.",
  ["bin/fix.py", "bin/utils.py"], [("fix, fix_file", "bin/fix.py"), ("handle_paths", "bin/utils.py")], ["file bytes", "exit status"])
p("C08", "Lint's exit status says whether every file parses",
  "Linting exits 0 exactly when each file considered parses as a supported resource, 1 when any is unsupported or fails, and 2 for bad arguments; with unknown files skipped, files without a localization extension do not count. Every file considered is reported, none is modified, and one failing file does not stop the others from being checked.",
  ["inputs", "configurations"], "All sets of valid, invalid and unsupported files, path arguments (directory, globs, config), options.",
  "Tests lint three cases.", ["bin/lint.py", "bin/utils.py"], [("lint, lint_file", "bin/lint.py"), ("handle_paths", "bin/utils.py")], ["exit status", "log records", "file bytes"])
p("C09", "Adding entries merges without loss or reordering",
  "Merging a source resource into a target adds exactly the source entries with no section-and-id match in the target, keeps every other target entry and standalone comment in order, places an added entry after its matched source predecessor when the section comment agrees (else at the end of a matching section, else in a new section following the last section matched or created), and returns the number of additions and changes. A second merge of the same source returns zero. With source entries preferred, matched entries and their section's comment and metadata take the source's values; a second merge then also returns zero, provided that source identifiers are distinct and that source sections sharing an identifier but not comment and metadata do not match into the same target section.",
  ["inputs", "histories"], "All pairs of resources with repeated, anonymous and commented sections, and all sequences of merges.",
  "Tests use two or three fixed resources per rule; order and count interact over arbitrary overlaps.",
  ["resource/add_entries.py"], [("add_entries", "resource/add_entries.py")], ["target resource after the call", "return value"])
p("C10", "Localization equality is exact on localizable content",
  "Two resources compare equal exactly when format, resource comment and metadata agree and their sections that hold entries agree in identifier, comment, metadata and entries (identifier, comment, metadata, value, properties), ignoring order, surrounding whitespace in comments, metadata repetition, standalone comments and empty sections, with all plain anonymous sections counted as one (for resources in which no identifier is repeated). The comparison is symmetric and modifies neither resource.",
  ["inputs"], "All pairs of resources.", "Tests check a dozen fixed pairs; an equivalence is a statement over all pairs.",
  ["resource/l10n_equal.py"], [("l10n_equal, l10n_sections, l10n_entries, l10n_meta", "resource/l10n_equal.py")], ["return value"])
p("C11", "Config paths map references to targets and back",
  "For every config, each reference file matching a paths entry is listed with the target path and locales the entry prescribes (its own locales or else the config's, wildcards carried over, .pot becoming .po, l10n_base, env and locale variables substituted), includes being merged once each. Looking a target path up for its reference inverts this: the target of a listed reference for a locale is mapped back to that reference and locale.",
  ["configurations", "inputs"], "All configs over literal, * and ** patterns, locales at config and path level, includes (nested, repeated, cyclic), env, basepath and base overrides, forced paths.",
  "Tests fix a few configs; the inverse and locale-selection rules range over all combinations of patterns and includes.",
  ["paths/config.py"], [("L10nConfigPaths.__init__, all, target, find_reference, format_target_path, path_regex", "paths/config.py")], ["all()", "target()", "find_reference()", "locales", "all_locales"])
p("C12", "Discovery finds the reference, locales and their files",
  "In every directory tree, discovery chooses as reference the source-locale directory with localizable contents (directories with .pot files preferred) of the highest-priority source locale, the shallowest of these, or the given reference root if it has none, as base the directory in the root but not in the reference with most locale-named subdirectories (preferring those with localizable contents below), and fails if there is no reference. Each reference file maps to one target under every locale (.pot becoming .po, existing directory separators respected) and looking that target up returns the same reference and locale.",
  ["inputs", "configurations"], "All directory trees over locale-like and other names, file extensions, ignore files, source-locale and reference-root options.",
  "Tests build a few trees; selection is a ranking over all trees.",
  ["paths/discover.py"], [("L10nDiscoverPaths", "paths/discover.py")], ["ref_root", "base", "locales", "ref_paths", "target()", "find_reference()", "all()"])
p("C13", "File walks list exactly the non-ignored files",
  "Walking a tree yields each file under the root (or the given, disjoint subdirectories) exactly once, except those that are hidden, inside a hidden directory, or excluded by the ignore file's git-ignore rules, applied in order relative to the root with later rules overriding earlier ones. A missing ignore file means no extra rules, and a root that is not a directory is an error.",
  ["inputs", "configurations"], "All directory trees and ignore files over plain, wildcard, anchored, directory-only and negated rules.",
  "Tests walk one tree with a few rules.", ["util/walk_files.py"], [("walk_files", "util/walk_files.py")], ["yielded paths"])
p("C14", "Android locale qualifiers round-trip",
  "Every locale tag of a language of two or three letters (not itself a legacy code), and optionally script, region and variants, converts to an Android resource qualifier with legacy language codes, region as -rXX and anything else in b+ form, and converting the qualifier back gives the same tag; strings that are not qualifiers, malformed b+ forms included, are rejected rather than guessed.",
  ["inputs"], "All tags of a 2-3 letter language with optional script, region, variant subtags; all qualifier-like strings.",
  "Tests list about twenty tags.", ["paths/android_locale.py"], [("get_android_locale, parse_android_locale", "paths/android_locale.py")], ["return values"])
json_formats = ["formats/plain_json/parse.py", "formats/plain_json/serialize.py", "formats/webext/parse.py", "formats/webext/serialize.py", "util/loads.py"]
p("C15", ".properties text parses and serializes faithfully",
  "Every .properties text parses to the keys, values and attached or standalone comments its line structure prescribes (separators, continuation lines, backslash and \\u escapes, all newline styles, source line positions). Every resource of flat string messages, whatever characters its keys and values contain, serializes (as UTF-8 or ASCII-escaped) to text that parses back to the same keys, values and comments in order.",
  ["inputs"], "All source texts and all keys, values and comments over the full character range of the Basic Multilingual Plane.",
  "Tests have about thirty sample values; escaping and continuation rules interact character by character.",
  ["formats/properties/parse.py", "formats/properties/serialize.py"], [("PropertiesParser, esc_parse", "formats/properties/parse.py"), ("escape_chars, fix_outer_spaces", "formats/properties/serialize.py")], ["parsed resource", "serialized text"])
p("C16", "DTD text parses and serializes faithfully",
  "Every DTD made of entity declarations, comments and parameter-entity includes parses to its entities in order with their literal values, comments attached to the entity they precede or trail or kept standalone, and includes as metadata; any other content is rejected. Serializing a resource and parsing it back gives the same identifiers, values (without comment markup inside them, double quotes becoming &quot; only when both quote kinds occur), comments (up to indentation and double dashes) and includes.",
  ["inputs"], "All sequences of declarations, comments, includes and whitespace; all values and comments.",
  "Tests parse one real file and a few snippets.", ["formats/dtd/parse.py", "formats/dtd/serialize.py"], [("dtd_parse", "formats/dtd/parse.py"), ("dtd_serialize", "formats/dtd/serialize.py")], ["parsed resource", "serialized text"])
p("C17", "INC and INI text parses and serializes faithfully",
  "Every .inc and .ini text parses to the sections, keys, values (with continuation lines) and attached, section-level or standalone comments its lines prescribe, in order; content outside the format is rejected. Resources serialize to text that parses back to the same sections, keys, values and comments, up to the whitespace and comment prefixes the formats cannot carry; what cannot be expressed is refused.",
  ["inputs"], "All sequences of section, option, continuation, define, directive, comment and blank lines; all resources.",
  "Tests parse one or two documents per format.", ["formats/inc/parse.py", "formats/inc/serialize.py", "formats/ini/parse.py", "formats/ini/serialize.py"],
  [("inc_parse", "formats/inc/parse.py"), ("ini_parse", "formats/ini/parse.py"), ("inc_serialize", "formats/inc/serialize.py"), ("ini_serialize", "formats/ini/serialize.py")], ["parsed resource", "serialized text"])
p("C18", "Gettext entries survive parse and serialize",
  "Every PO file parses to entries whose identifier is the msgid with its context, whose value is the msgstr or, for plurals, one variant per index with the last as catch-all, and whose comments, references, flags, plural id and obsolete state become comment and metadata; obsolete entries are dropped when so asked. Serializing gives a PO file that parses back to the same header fields, header comment, entries, values and metadata, with one plural form per index of the header's plural count (comments up to blank lines and wrapping at the line width; obsolete entries have neither extracted comments nor references). What PO cannot hold (identifiers of more than two parts or without text, unknown plural keys, references or flags that would be split, unknown metadata, standalone or section comments) is refused with ValueError, and nothing else is.",
  ["inputs", "configurations"], "All entries over text with quotes, newlines and escapes, contexts, plural forms, flags, references, obsolete entries; plural names given or not.",
  "Tests use one sample file.", ["formats/gettext/parse.py", "formats/gettext/serialize.py"], [("gettext_parse", "formats/gettext/parse.py"), ("gettext_serialize", "formats/gettext/serialize.py")], ["parsed resource", "serialized text"])
p("C19", "JSON formats keep ids, nesting and placeholders",
  "A nested JSON object of strings parses to one entry per leaf with its key path as identifier (other values are refused with ValueError) and serializes back to the same object (empty objects aside); a messages.json parses to entries whose text, positional arguments, named placeholders (case-insensitive, with content and example, one variable each) and dollar escapes are those of the WebExtensions format, and serializes to an equivalent messages.json. Line comments outside strings are ignored where the format allows them. A resource that the format cannot hold (conflicting or duplicate paths, placeholders that would be read differently, comments or metadata) is refused with ValueError, nothing else is, and the arguments of a call are not modified.",
  ["inputs"], "All nested objects; all message strings over $, names, digits and text with all placeholders maps.",
  "Tests use one sample per format; placeholder scanning is character-level.", json_formats,
  [("webext_parse_message", "formats/webext/parse.py"), ("webext_serialize_message", "formats/webext/serialize.py"), ("json_linecomment_loads", "util/loads.py")], ["parsed resource", "serialized JSON"])
p("C20", "Fluent patterns and selects keep their meaning",
  "Every Fluent resource parses to messages and terms (with attributes, comments, section comments and source line positions) such that, for every combination of selector values, the variant chosen from the flattened message has the same text and placeholders as Fluent's own nested select expressions would give; syntax errors, and only they and unsupported function arguments, raise a value error. Serializing a resource, entry or message gives valid Fluent with the same entries, attributes, comments, and for every combination of selector values the same text and placeholders, special characters and outer whitespace escaped; whatever has no Fluent form (invalid identifiers, invalid references, missing default variants, section identifiers, unserialized metadata) raises a value error.",
  ["inputs"], "All patterns over text, placeables, references, functions and nested selects; all resources of such entries.",
  "Tests check a few dozen snippets; flattening of nested selects is combinatorial.", ["formats/fluent/parse.py", "formats/fluent/serialize.py"],
  [("message, find_selectors, add_pattern, inline_expression", "formats/fluent/parse.py"), ("fluent_astify_message, flat_pattern, text, value, function_ref", "formats/fluent/serialize.py")], ["parsed resource", "serialized text"])
p("C21", "Android strings round-trip and decode their escapes",
  "Every strings.xml parses to its strings, plurals, string arrays and entities with Android's quoting, backslash and unicode escapes, whitespace collapsing, printf arguments, markup and protected spans decoded. Every resource of such entries serializes to XML that parses back to the same entries, values, comments and metadata, whatever characters the text contains; text that is itself the source of a printf argument or a tag is read back as that placeholder, and content that cannot be written is refused with a value error.",
  ["inputs"], "All message texts over quotes, escapes, whitespace, placeholders, markup; all resources.",
  "Tests use one sample file and about fifty snippets.", ["formats/android/parse.py", "formats/android/serialize.py"],
  [("parse_quotes, parse_inline, flatten, parse_plurals", "formats/android/parse.py"), ("set_pattern, escape_part, escape_pattern", "formats/android/serialize.py")], ["parsed resource", "serialized XML"])
p("C22", "XLIFF files round-trip with all their metadata",
  "Every supported XLIFF 1.2 file parses to one section per file and group and one entry per unit (the target, or on request the source, as value; notes as comment; all else as metadata), and serializes to XML that parses back to the same sections, entries, patterns and metadata. Xcode plural and device variations, and a single substitution, in stringsdict and xcstrings files become select messages and are written back to the same units. Malformed files, and resources XLIFF cannot hold, are refused with a value error. (Not kept: the order of different elements in a unit, and double dashes in comments.)",
  ["inputs"], "All files over groups, units, notes, inline markup, attributes, and Xcode variations; target or source mode.",
  "Tests use four sample files.", ["formats/xliff/parse.py", "formats/xliff/parse_trans_unit.py", "formats/xliff/parse_xcode.py", "formats/xliff/serialize.py", "formats/xliff/common.py"],
  [("xliff_parse, parse_group", "formats/xliff/parse.py"), ("parse_trans_unit", "formats/xliff/parse_trans_unit.py"), ("parse_xliff_stringsdict, parse_xliff_xcstrings", "formats/xliff/parse_xcode.py"), ("xliff_serialize, assign_metadata", "formats/xliff/serialize.py")], ["parsed resource", "serialized XML"])
p("C23", "MF2 parsing accepts the grammar and nothing else",
  "A string parses as a MessageFormat 2 message exactly when it is well-formed and free of data-model errors (duplicate declarations, options or variants, missing selector annotation or fallback variant, key-count mismatch), and then the message has precisely the declarations, selectors, variants, text, literals, options, attributes and markup the syntax denotes. Any other string raises the MF2 parse error, never another exception.",
  ["inputs"], "All strings.", "Tests cover a sample of valid and invalid strings.", ["formats/mf2/message_parser.py"], [("MF2Parser", "formats/mf2/message_parser.py")], ["parsed message or error"])
p("C24", "MF2 serialization and validation agree with parsing",
  "Every message that validates serializes to MF2 syntax that parses back to the same message, apart from joined adjacent text and the order of declarations fixed by validation; every parsed message validates. Validation accepts a message exactly when names, options, declarations (no cycles or self-reference through others), selectors, keys and fallback satisfy the MF2 rules, reporting anything else as a validation error, and only reorders declarations so that each follows those it depends on.",
  ["inputs"], "All message values, valid or not.", "Tests validate a few dozen messages.", ["formats/mf2/serialize.py", "formats/mf2/validate.py"],
  [("mf2_serialize_message", "formats/mf2/serialize.py"), ("mf2_validate_message", "formats/mf2/validate.py")], ["serialized text", "validation result"])
p("C25", "JSON representations of messages are lossless",
  "Converting any message or entry to its JSON representation and back gives an equal message or entry (catch-all names included, entry ids of any characters), converting any message to the MF2 data model JSON and back likewise; the JSON conforms to the published schema, and the conversion does not modify the message. Invalid MF2 data model JSON is reported as a validation error.",
  ["inputs"], "All messages and entries; all JSON values near valid ones.", "Tests convert sample messages.", ["message/to_json.py", "message/from_json.py", "formats/mf2/to_json.py", "formats/mf2/from_json.py"],
  [("message_to_json, entry_to_json", "message/to_json.py"), ("message_from_json, entry_from_json", "message/from_json.py"), ("mf2_to_json", "formats/mf2/to_json.py"), ("mf2_from_json", "formats/mf2/from_json.py")], ["JSON values", "messages"])
p("C26", "Printf parsing finds every specifier and loses no text",
  "Splitting a string at printf specifiers (argument positions 1 to 9) yields literal text and one expression per specifier whose sources and texts concatenate to exactly the input; each specifier's argument position or name and its type are those of the format string.",
  ["inputs"], "All strings over %, digits, flags, length modifiers, types, names.", "Tests check a handful of strings.", ["util/printf.py"], [("parse_printf_pattern", "util/printf.py")], ["parsed pattern"])
p("C27", "Normalizing and metadata edits keep the content",
  "Normalizing a message joins adjacent text, drops empty text and removes exactly the declarations no selector, placeholder or kept declaration depends on, changing nothing else, and doing it twice is the same as once. Metadata reads, updates and deletions act on the first or on all entries of a key as documented, keeping all other metadata and its order.",
  ["inputs", "histories"], "All messages with cyclic, chained and unused declarations; all sequences of metadata operations.",
  "Tests check a few messages.", ["model.py", "util/normalize.py"], [("_normalize_pattern, _normalize_declarations", "util/normalize.py"), ("_WithMeta", "model.py")], ["message after normalize", "meta list"])
p("C28", "Format detection and dispatch are consistent",
  "A file's format is detected from its extension where that is distinctive and otherwise from its contents (JSON objects of strings, messages.json objects, XLIFF namespaces, Android resources), and parsing by path, by name and contents, or by explicit format gives the same result; anything else is reported as unsupported. Text and UTF-8 bytes are treated alike.",
  ["inputs", "configurations"], "All names and contents over JSON-like, XML-like and other text, with and without XML support.",
  "Tests detect about fifteen samples.", ["formats/__init__.py", "resource/parse_resource.py", "resource/serialize_resource.py"], [("detect_format", "formats/__init__.py"), ("parse_resource", "resource/parse_resource.py")], ["detected format", "parsed resource"])
p("C29", "Trimming comments removes comments and nothing else",
  "In every format, serializing a resource with comments trimmed gives what serializing it without its comments gives: it parses back to the same identifiers, values and properties, with the entries in order, and has no resource, section, entry or standalone comment, and it does not fail because of comments or comment-like metadata that the format would otherwise refuse. Left out are also metadata held in comments (PO references and flags, XLIFF notes, metadata of formats that have none), obsolete PO entries, and examples of web extension placeholders; kept are preprocessor directives of .inc files, XML attributes, and XML comments held as metadata of XLIFF units.",
  ["inputs"], "All resources of all formats, comments at every level.", "Tests trim one resource per format.", ["resource/serialize_resource.py", "formats/fluent/serialize.py", "formats/properties/serialize.py", "formats/dtd/serialize.py", "formats/ini/serialize.py", "formats/inc/serialize.py", "formats/gettext/serialize.py", "formats/webext/serialize.py", "formats/plain_json/serialize.py", "formats/android/serialize.py", "formats/xliff/serialize.py"],
  [("serialize_resource(trim_comments=True)", "resource/serialize_resource.py")], ["serialized text"])
p("C30", "Serializing is pure and refuses what it cannot express",
  "Serializing a resource or message never modifies it and gives the same text every time. Content a format cannot express (selects, markup or placeholders without source, entry properties, unsupported identifiers, section ids, metadata or comments) raises a value error instead of being dropped or written in corrupted form: whatever is written parses back with every word of the identifiers, values, properties, comments and metadata in it, unless comments are being trimmed. (Comments on XLIFF entries give way to their notes, and of an obsolete PO entry only translator comments are written.) Resources with nothing unsupported in them are not refused.",
  ["inputs"], "All resources and formats, supported or not.", "Tests check a few unsupported values.", ["resource/serialize_resource.py", "message/serialize.py"], [("per-format serializers", "resource/serialize_resource.py"), ("serialize_message", "message/serialize.py")], ["resource before and after", "exception or text"])
p("C31", "Line positions say where each entry is",
  "Each entry, standalone comment and section header parsed from a Fluent file, and each entry and standalone comment parsed from a .properties file, tells the line its comment or key starts on, the line of its key, the line its value starts on (that of the key if it has no value), and the line after its last one (of its last attribute or continued line), counting lines from one and ending them only where the format does; positions are in order and do not overlap, whichever line endings the file has, with or without a final one. Positions are left out when not asked for, and do not take part in comparing.",
  ["inputs"], "All layouts of entries, comments and blank lines.", "Tests compare the positions of a handful of files.", ["formats/fluent/parse.py", "formats/properties/parse.py", "model.py"], [("LinePosMapper", "formats/fluent/parse.py"), ("PropertiesParser", "formats/properties/parse.py"), ("LinePos", "model.py")], ["linepos of parsed sections and entries"])
p("C32", "Single messages parse and serialize as in their files",
  "Parsing the text of a single message for a format gives the message that the format's own parser gives with the options that are about it (other options make no difference), which is the message of an entry of a file with that text as its value; formats without placeholders of their own take the text as it is, or split at its printf placeholders without losing any of it. Serializing gives the text of the format's own serializer, for a bare pattern that of the message with it, and does not change the message; parsing it again gives the same message. Formats without placeholders refuse selects, declarations, and placeholders without a source.",
  ["inputs", "configurations"], "All texts and messages in all formats and options.", "Tests parse some messages of each format with default options.", ["message/parse.py", "message/serialize.py"], [("parse_message", "message/parse.py"), ("serialize_message", "message/serialize.py")], ["parsed message", "serialized text"])
p("C33", "The migrate command applies its scripts' migrations in order",
  "`moz-l10n migrate` applies every migration that its scripts define, in the order given and defined, and no other, to the paths of --config or of --root and --ref, or else to those of the migration itself; each sees what the ones before it wrote. If the paths are not found or are given in two ways, a script can not be loaded, or none defines a migration, no file is changed and the status is 2 (1 or 2 for a missing config file). A migration with no paths, for a path which is not a reference, or whose function fails, ends the run with a status that is not zero; what came before it stays, and no migration after it is applied. The status is 0 only if all were applied. A dry run changes no file, and commands run earlier in the process make no difference but for the files they wrote.",
  ["histories", "configurations", "inputs"], "All sequences of commands, scripts and file trees.", "Tests never run the command.", ["bin/migrate.py", "migrate/__init__.py"], [("apply_migrations", "bin/migrate.py"), ("cli", "bin/migrate.py")], ["exit status", "files"])
for x in P: print(json.dumps(x, ensure_ascii=False))
