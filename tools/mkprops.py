#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Loading yields exactly the written sections, keys and values, in order",
  "Loading text made of section headers and key/value lines yields the default section followed by exactly the sections that occur, and in each section exactly the keys that occur, all in order of first appearance; a section header that occurs again continues the same section. A key's value is the one of its last assignment, with the line split at its first delimiter (any character of the configured delimiter set) and surrounding whitespace removed from name and value. A key name may be wrapped in double quotes, triple double quotes or backticks, and may then contain delimiters.",
  ["inputs", "configurations"],
  "every text over section headers, key/value lines (plain and quoted key names), blank lines and comments; every delimiter set",
  "Tests load a handful of fixed files; repeated headers, re-assignment across sections, delimiters inside names or values, and odd whitespace combine without limit.",
  ["parser.go", "file.go", "section.go"],
  [("line classification loop", "parser.go parse"), ("key-name splitting", "parser.go readKeyName"), ("get-or-create section / key", "file.go NewSection, section.go NewKey")],
  [("ordered section list and map", "which sections exist, in order", "file.go File"), ("ordered key list and map", "which keys exist, in order", "section.go Section")],
  ["LoadSources return", "Sections / KeyStrings / Value"])

p("C02", "No line is lost silently and loading always terminates with a result",
  "Loading never panics or hangs, whatever the bytes and options: it returns either a document or an error. A section header without closing bracket or without name, a line without delimiter, a line with an empty key name, and a quoted key or multi-line value that is never closed make loading fail with an error (of the exported kinds for missing delimiter and empty key name). With the option to skip unrecognizable lines, exactly the lines without delimiter or with nothing before the delimiter are dropped and everything else loads as if they were absent.",
  ["inputs", "configurations"],
  "every byte sequence (including malformed and non-UTF-8) and every combination of load options",
  "Tests try about ten malformed lines at fixed places, mostly alone in the file and under default options.",
  ["parser.go", "error.go", "ini.go"],
  [("error classification", "parser.go parse, readKeyName"), ("exported error predicates", "error.go")],
  [("parser end-of-file flag", "whether input is exhausted", "parser.go parser")],
  ["LoadSources return"])

p("C03", "Saving and reloading preserves the document",
  "For a document with unique sections, its default section first, whose key names are plain text (no line breaks or surrounding spaces, not a single dash, not starting with a comment or bracket character or a byte-order mark; delimiters, inner spaces, and double quotes or else backticks included) and whose section names have no line breaks, writing it and loading the result with the same options gives a document with the same sections, keys and values in the same order, whether it was loaded, created or edited through the API. Values may be any text: comment characters, delimiters, quotes, surrounding spaces and trailing backslashes survive, and so do line breaks and backticks as long as the value has no triple double quote. This holds for every output formatting setting (aligned or compact, blank lines between sections, explicit default header, custom write delimiter taken from the read delimiters, line breaks of either kind, and, unless indented values are enabled, indentation).",
  ["inputs", "histories", "configurations"],
  "every document in the stated class, however it was built (loaded, created or edited through the API), and every formatting setting",
  "Tests compare a few golden files; the writer chooses quoting per key and value from their characters, and each choice has to be undone by the reader under the options in force.",
  ["file.go", "parser.go"],
  [("key and value quoting on write", "file.go writeToBuffer"), ("unquoting on read", "parser.go readKeyName, readValue")],
  [], ["WriteTo output", "LoadSources of it"])

p("C04", "Writing is read-only, canonical and the same through every channel",
  "Writing a document does not change it: everything observable through the API is the same before and after, and writing twice gives identical bytes. Writing to a stream and saving to a file with the same settings produce the same bytes and report their number, or the error of the stream or file. For a document that was loaded, output that is loaded and written again with the same settings is byte-identical (a comment on the default section needs its header to be written).",
  ["histories", "inputs", "configurations"],
  "every document without raw or multi-line content oddities built by loads and edits, every formatting setting, every output channel",
  "Tests check golden output once per document and never write twice, reload and rewrite, or compare channels.",
  ["file.go"],
  [("buffered serialisation", "file.go writeToBuffer"), ("channels", "file.go WriteTo, WriteToIndent, SaveTo, SaveToIndent")],
  [], ["WriteTo / SaveTo output", "API view before and after"])

p("C05", "Comments stay with the section or key they precede",
  "Comment lines directly collected before a section header or key, together with an inline comment on that line (for keys with an unquoted value), become the comment of that section or key, joined in order; they never attach to another element, are never duplicated, and do not survive past the element that takes them; a repeated header or key takes the comment of its last occurrence, and comments with nothing after them belong to nothing. Saving writes each comment in front of its element as comment lines, and reloading yields the same comment text up to the normalised comment marker (for the default section, if its header is written).",
  ["inputs", "histories"],
  "every interleaving of comment lines, blank lines, headers and keys; comments set through the API as one or more lines",
  "Tests cover single comments at a few positions; the pending comment is parser state that survives across blank lines, sections and sources.",
  ["parser.go", "file.go"],
  [("pending comment buffer", "parser.go parser.comment"), ("comment output", "file.go writeToBuffer")],
  [("pending comment", "text waiting for the next element", "parser.go parser")],
  ["Section.Comment / Key.Comment", "WriteTo output"])

p("C06", "Sections and keys behave as ordered maps under any edit history",
  "After any sequence of creations, updates, deletions and lookups of sections and keys, all listings and lookups agree with each other: the name lists are the live elements in creation order without duplicates, an element is found by name if and only if it is listed, and the key-to-value hash holds exactly the listed keys with their current values. Creating an existing section returns it unchanged; creating an existing key changes only its value and keeps its position; deleting removes only the named element; get-or-create lookups create an empty element only when it is absent. A section or key a caller keeps is the same element for as long as it exists; calls on one that was deleted leave the document alone, even if an element of that name exists again.",
  ["histories"],
  "every finite sequence of API calls on sections and keys, on empty and on loaded documents",
  "Each test makes one or two calls on a fresh document; list, map and hash are separate structures that only long mixed histories drive apart.",
  ["file.go", "section.go", "key.go"],
  [("parallel list/map/hash maintenance", "file.go NewSection, DeleteSectionWithIndex; section.go NewKey, DeleteKey; key.go SetValue and defaulting accessors")],
  [("section list, indexes, map", "file-level index", "file.go File"), ("key list, map, hash", "section-level index", "section.go Section")],
  ["return of every call", "Sections, SectionStrings, HasSection, Keys, KeyStrings, HasKey, KeysHash, HasValue"])

p("C07", "Case-insensitive modes treat names that differ only in case as one",
  "With case-insensitive section or key names enabled, names are stored in lower case and every operation on sections or keys (create, look up, test, delete, read by struct mapping or interpolation, and the parser) treats names differing only in letter case as the same name, including the default section. With the mode for only sections or only keys enabled, the other kind of name stays case-sensitive, and without any of them all names are case-sensitive and keep their spelling. Values are never changed in case.",
  ["inputs", "histories", "configurations"],
  "every mix of spellings over every operation, for each of the insensitivity modes",
  "Tests check lookups of a few loaded names in one or two modes; the folding is repeated in every entry point separately.",
  ["file.go", "section.go", "parser.go"],
  [("per-operation lower-casing", "file.go NewSection, SectionsByName, DeleteSectionWithIndex; section.go NewKey, GetKey, DeleteKey; parser.go parse")],
  [], ["lookups, listings and deletions under varied spelling"])

p("C08", "A child section inherits keys from its nearest ancestor that has them",
  "Looking up a key in a section whose name has parents (split at the configured child delimiter) yields the section's own key if present, otherwise the key of the nearest existing ancestor section that has it, and fails otherwise; missing intermediate sections are skipped. Listing a section's own keys never includes inherited ones, listing parent keys yields the keys of all existing ancestors nearest first, and listing children yields exactly the sections whose names extend the name by the delimiter, in document order. Creating a key in a child never changes a parent.",
  ["inputs", "histories", "configurations"],
  "every section tree, including trees with missing intermediate levels, every child delimiter, every edit history",
  "Tests use one two-level tree built in order with all levels present.",
  ["section.go", "file.go"],
  [("ancestor walk", "section.go GetKey, ParentKeys"), ("prefix match", "section.go ChildSections")],
  [], ["GetKey, HasKey, Key, ParentKeys, ChildSections"])

p("C09", "Variable references resolve by section, then default section, and terminate",
  "Reading a value as a string replaces every %(name)s reference by the raw value of that key in the same section (or its parents), or, if it is not found there or is the key itself, in the default section, repeatedly until no resolvable reference is left or a fixed bound on rounds or on the length of the result is reached. Text that is not a reference and references to unknown keys (from the first such reference on) stay as they are. Reading never changes the stored values, which remain available raw and are what gets saved, and always terminates, cyclic references included.",
  ["inputs", "histories"],
  "every graph of references between keys of the section, its parents and the default section, including chains, diamonds, self-references and cycles",
  "Tests resolve one fixed chain and one cycle.",
  ["key.go"],
  [("iterated substitution with depth bound", "key.go transformValue")],
  [], ["Key.String", "Key.Value", "WriteTo"])

p("C10", "Shadow values keep every repeated assignment in order",
  "With shadow keys allowed, repeated assignments of a key (by loading, by creating the key again or by adding a shadow) keep all non-empty values in order of assignment, without repeats unless duplicates are allowed, while the plain value stays the first one; without the option the last assignment wins and adding a shadow is refused. Splitting with shadows lists the parts of all values in that order, and saving writes one line per value so that reloading gives the same list.",
  ["inputs", "histories", "configurations"],
  "every sequence of repeated assignments mixed with other keys and sections, across sources, with and without duplicates",
  "Tests load two small files with shadows and compare their lists.",
  ["key.go", "section.go", "file.go"],
  [("shadow list with deduplication", "key.go addShadow"), ("shadow output", "file.go writeToBuffer")],
  [("shadows", "further values of a key", "key.go Key")],
  ["Value, ValueWithShadows, StringsWithShadows", "WriteTo and reload"])

p("C11", "Several sources merge in order, and failures to read are reported",
  "Loading several sources gives the same document as loading them one after another into it: later assignments override earlier ones, new sections and keys are appended, and nothing that only an earlier source defines is lost; appending a source later gives the same result as naming it at load time, and reloading unchanged sources that can be read again changes nothing in a document that was not edited. A source that is of an unknown type, cannot be opened or fails while being read makes the load fail with its error, except that loose mode skips files that do not exist; every source that was opened is closed again; in short-circuit mode only the first available source is used. Reloading reads every source as it is by then.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "every list of sources of any kind, with missing files and read errors injected at every byte position, every mix of load, append and reload",
  "Tests merge two fixed sources and open one missing file; no test injects a read error.",
  ["file.go", "data_source.go", "ini.go", "parser.go"],
  [("sequential parse into one document", "file.go Reload, Append"), ("source kinds", "data_source.go parseDataSource"), ("error propagation", "parser.go readUntil, BOM")],
  [], ["LoadSources, Append, Reload return and document"])

p("C12", "Sections with equal names stay separate and indexed in order",
  "With non-unique sections allowed, every header or creation of a name adds a further section of that name; listings show all of them in creation order, lookup by name returns them in that order, and the n-th is reachable by index n (an index that none has, a negative one too, gives a new section and deletes nothing). Deleting by index removes exactly that one and shifts the later ones of the same name, deleting by name removes all of them, and no other section or its order is affected. Without the option only index zero can be deleted and names stay unique.",
  ["inputs", "histories", "configurations"],
  "every interleaving of creations, loads and deletions of equally and differently named sections",
  "Tests load one file with two equal sections and delete one.",
  ["file.go", "section.go"],
  [("per-name section lists and index list", "file.go NewSection, DeleteSectionWithIndex, SectionWithIndex")],
  [("section indexes", "position of each listed section among its namesakes", "file.go File.sectionIndexes")],
  ["Sections, SectionsByName, SectionWithIndex, ChildSections, WriteTo"])

p("C13", "Typed accessors parse exactly or fall back to the given default",
  "Each typed accessor (bool, signed and unsigned integers with base prefixes, float, duration, time) returns the value denoted by the key's resolved text, or an error when the text does not denote one. The variants that take a default return the parsed value when there is one and otherwise the default, which then also becomes the key's value (or, called without a default, zero, leaving the key unchanged); candidate and range variants return the value when it is valid and among the candidates or within the inclusive bounds and the default otherwise, and leave the key unchanged. The string variant falls back exactly when the text is empty.",
  ["inputs", "histories"],
  "every value text (valid, invalid, at and beyond the numeric limits), every accessor, default, candidate list and bounds, applied in any order to the same key",
  "Tests call each accessor on a few valid and invalid values.",
  ["key.go"],
  [("parse then default", "key.go Bool..Time, Must*, In*, Range*")],
  [], ["accessor results", "Value after the call"])

p("C14", "List accessors split at unescaped delimiters and convert element-wise",
  "Splitting a value at a non-empty delimiter cuts it at each occurrence not escaped by a backslash, trims each part, removes the escaping backslashes of delimiters (of any length) and backslashes, keeps a backslash at the very end and every other character or byte as it is, and drops only an empty last part. The typed lists convert exactly these parts one by one: the lenient form has a zero value for each invalid part, the valid form leaves invalid parts out, and the strict form fails if any part is invalid, all keeping the order.",
  ["inputs"],
  "every value text, every non-empty delimiter (single, multi-character and non-ASCII), every element type and mode",
  "Tests split a few lists at commas.",
  ["key.go"],
  [("rune-wise splitting with escapes", "key.go Strings"), ("element conversion", "key.go doParse and its users")],
  [], ["Strings, <Type>s, Valid<Type>s, Strict<Type>s"])

p("C15", "Mapping to a struct sets exactly the fields whose keys hold valid values",
  "Mapping a section or file to a struct sets each field whose mapped key (tag name, name mapper or field name) exists, has a supported type and holds a value valid for it, to that value; other fields, ignored fields and fields without a key keep what they had (numbers out of the field's range are invalid, and an empty text leaves a string field alone). Struct and struct-pointer fields map from the section of that name, and a struct pointer that is not embedded stays nil if there is no such section; slices split at the field's delimiter, embedded and non-unique section slices map element by element in order. In strict mode mapping fails if any present key (list elements included) has an invalid value; in lenient mode invalid scalar values leave the field as it was; a value of any text never makes mapping panic.",
  ["programs", "inputs", "configurations"],
  "every struct type built from the supported field types, pointers, slices, nested and embedded structs and tag options, every document",
  "Tests map a few hand-written structs; type, pointer-ness, tags and value validity multiply.",
  ["struct.go"],
  [("field walk", "struct.go mapToField, mapToSlice"), ("typed assignment", "struct.go setWithProperType, setSliceWithProperType")],
  [], ["MapTo / StrictMapTo result struct and error"])

p("C16", "Reflecting a struct and mapping it back restores it",
  "Reflecting a struct into a document writes every exported, non-ignored field (omitting empty ones only where asked) as a key, or as a section for struct fields and one section per element for non-unique struct slices, overwriting existing values and leaving unrelated sections and keys alone. Mapping the resulting document, directly or after saving and reloading it, into a zero struct of the same type gives back equal values for all supported field types, given times in whole seconds and list elements that are not empty and hold no delimiter, backslash or surrounding spaces (pointers to embedded structs come back allocated); nil pointers write nothing into existing keys. Comments from field tags are attached to elements that have none.",
  ["programs", "inputs"],
  "every struct type over the supported field kinds and every value whose texts are plain, on empty and on populated documents",
  "Tests reflect a few fixed structs and compare golden output; only one maps back.",
  ["struct.go"],
  [("field walk", "struct.go reflectFrom"), ("typed output", "struct.go reflectWithProperType, reflectSliceWithProperType"), ("emptiness", "struct.go isEmptyValue")],
  [], ["document after ReflectFrom", "MapTo after it"])

p("C17", "Concurrent use with locking enabled is as if calls ran one at a time",
  "While locking is enabled (the default), any number of goroutines may create, look up, test, list and delete sections and keys and set and read values of the same document with unique section names at once: every call takes effect atomically at one instant between its start and its return, so all results and the final document are those of some sequential order of the calls. In particular no update is lost, no element is duplicated or half-created, lookups that create on demand never overwrite a concurrently created element, and no call crashes, races on memory or blocks forever.",
  ["schedules", "histories"],
  "every schedule of concurrent calls on one document (unique sections, plain keys; a lookup that falls back to parent sections is one lookup per section; calls defined as several calls, such as Must with a default, NewSections, NewBooleanKey, writing and mapping, are not claimed to be atomic)",
  "No test calls the API from two goroutines.",
  ["file.go", "section.go", "key.go"],
  [("reader/writer lock", "file.go File.lock"), ("locked entry points", "file.go, section.go, key.go")],
  [("lock", "guards list, maps and values", "file.go File.lock")],
  ["call start/return, results, final document"], None)

p("C18", "Multi-line values read back as the text that was written",
  "A value opened with a backtick or triple double quote extends, line breaks included, to the matching close quote on the same or a later line; a line ending in a backslash continues with the next line without the backslash and surrounding spaces (unless continuation is disabled); with indented values enabled, directly following indented lines belong to the value, joined by line breaks with their indentation kept. Exactly those lines are consumed: the lines after the value are read as if the value had been on one line, whatever the length of the value.",
  ["inputs", "configurations"],
  "every arrangement of multi-line values, of any length, among other lines and at end of input, for each combination of the multi-line options",
  "Tests read a few fixed multi-line values, shorter than the read buffer.",
  ["parser.go"],
  [("quoted multi-line", "parser.go readMultilines"), ("continuation", "parser.go readContinuationLines"), ("indented lines", "parser.go readPythonMultilines")],
  [], ["LoadSources document"])

p("C19", "Auto-numbered, boolean and nested entries load and save faithfully",
  "For names used in one of these ways only: each key written as a single dash in a section gets the next number of that section's counter, starting at 1 at every section header; with boolean keys allowed a line without delimiter becomes a key with value true; with nested values allowed, indented lines after a key with an empty value become that key's nested values in order and never keys. Saving writes these in their original notation (dash, bare name, indented lines), so that reloading with the same options gives the same document.",
  ["inputs", "configurations"],
  "every mixture of these entries with ordinary keys, comments and sections",
  "Tests load one or two examples of each feature on its own.",
  ["parser.go", "key.go", "section.go", "file.go"],
  [("auto-increment counter", "parser.go parse"), ("boolean keys", "section.go NewBooleanKey"), ("nested values", "key.go addNestedValue"), ("output", "file.go writeToBuffer")],
  [("counter", "next automatic number", "parser.go parser.count")],
  ["LoadSources document", "WriteTo and reload"])

p("C20", "Raw sections keep their body verbatim and do not disturb their neighbours",
  "In a section configured as unparseable every line that is not blank, a comment or a header is kept, in order and without its leading whitespace, as the body and never interpreted as a key, until the next header; all other sections load as usual. The body can be replaced only on raw sections, is saved after its header, and reloading the saved text gives the same body and the same other sections.",
  ["inputs", "histories", "configurations"],
  "every body text and every placement of raw sections among others, including repeated and case-folded names",
  "Tests load one file with one raw section.",
  ["parser.go", "section.go", "file.go"],
  [("raw flag and body", "section.go Section.rawBody; parser.go parse"), ("output", "file.go writeToBuffer")],
  [], ["Section.Body", "WriteTo and reload"])

p("C21", "The result does not depend on how the text is delivered",
  "The same text loads to the same document or error whether it comes as a byte slice, a file, a reader or a read-closer, however the reader splits it into pieces, whatever the reader buffer size, and with or without a leading byte-order mark. Lines ended by CR LF load like lines ended by LF for single-line entries.",
  ["inputs", "schedules", "configurations"],
  "every text and every way of cutting it into reads, every buffer size, every source kind",
  "Tests load from byte slices and files that fit in the first read.",
  ["data_source.go", "parser.go"],
  [("source kinds", "data_source.go"), ("buffered reading and BOM", "parser.go newParser, BOM, readUntil")],
  [], ["LoadSources document"])

p("C22", "Value decoration is removed exactly as the load options say",
  "A value loses one pair of surrounding single or double quotes only when the quote character occurs nowhere else in it and preserving is not requested; an inline comment starts at the first comment character (or, when a space is required, at a comment character preceded by a space) unless inline comments are ignored or the value is quoted with backticks, triple double quotes, or, with escaped double quotes enabled, double quotes; escaped double quotes and comment symbols are unescaped only with the respective option. All other characters of the value are kept as they are.",
  ["inputs", "configurations"],
  "every value text over quotes, comment characters, escapes, spaces and ordinary characters, under every combination of the value options",
  "Tests cover a few values per option and few combinations.",
  ["parser.go"],
  [("value decoding", "parser.go readValue, hasSurroundedQuote")],
  [], ["Key.Value", "Key.Comment"])

p("C23", "Documents are independent and returned listings are snapshots",
  "Operations on one document never affect another, even if both were loaded from the same byte slice or options. The lists of names, sections, keys, nested or shadow values and split values and the key-to-value hash that calls return are snapshots: changing them does not change the document, and changing the document does not change lists already returned. Loading never modifies the byte slice it was given.",
  ["histories"],
  "every interleaving of operations on two documents and on previously returned listings",
  "Tests use one document at a time and never modify a returned listing.",
  ["file.go", "section.go", "data_source.go"],
  [("copying listings", "file.go SectionStrings, Sections; section.go KeyStrings, Keys, KeysHash")],
  [], ["listings kept across later operations"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
