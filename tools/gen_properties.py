#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a table here so that the wording stays reviewable)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                                                 "observe_at": observe or [], "hook_needed": None}})


p("P01", "No input makes the library panic",
  "Parsing any string with any configuration, rendering its errors, expanding entities, escaping, normalizing end tags, applying a transform, displaying events and deserializing any fragment into any type return normally or return an error; they never panic. Events inserted past the end of a fragment simply go at the end. This excludes panics raised by the caller's own closures or types.",
  ["inputs", "configurations"], "every string, fragment, configuration and target type",
  "A panic hides behind one byte pattern (a slice inside a multi-byte character, an index past the end, an unexpected event order); the tests run some 200 ordinary inputs.",
  ["src/parser/error.rs", "src/parser/util.rs", "src/entities.rs", "src/de/mod.rs", "src/parser/events.rs", "src/text.rs", "src/transforms/transform.rs"],
  [("slice and index expressions on char boundaries", "src/parser/error.rs LocatedLine; src/parser/util.rs take_until_terminated; src/entities.rs expand_entities_with"),
   ("unwrap/expect/unreachable sites guarded by earlier tests", "src/de/mod.rs normalize_at_cursor, pop_elt, MapAccess::next_key_seed, next_value_seed")])

p("P02", "Native stack use does not grow with the input",
  "The depth of native call recursion while parsing, transforming, displaying or deserializing (other than recursion through the caller's own target types) is bounded by a constant that does not depend on the input, so no document can overflow the stack.",
  ["inputs"], "every document, however deeply nested",
  "Tests nest at most a few levels; a recursive rule overflows only after tens of thousands of levels.",
  ["src/parser/raw.rs", "src/parser/events.rs", "src/de/mod.rs"],
  [("iterative matching of nested IGNORE sections", "src/parser/raw.rs marked_section_body_ignore"),
   ("iterative skipping of nested elements", "src/de/mod.rs pop_elt"),
   ("acyclic call graph apart from user-type recursion", "whole crate")])

p("P03", "Every loop makes progress, so every call terminates",
  "Every operation of the library terminates: each repetition in the parser consumes input, each repetition in the entity expander shortens what remains to be scanned, and each repetition in the deserializer consumes an event or ends. A map or sequence being deserialized can only continue when the previous entry consumed something.",
  ["inputs", "programs"], "every input, configuration and target type (whose own code terminates)",
  "Non-termination needs one specific shape (an empty match, an entry read without consuming its event, a target type nested in a particular way); tests only sample shapes that work.",
  ["src/entities.rs", "src/de/mod.rs", "src/parser/raw.rs", "src/parser/events.rs", "src/parser/util.rs", "src/transforms/transform.rs"],
  [("progress check after each map value and sequence element", "src/de/mod.rs check_progress"),
   ("remainder shrinks on every expansion step", "src/entities.rs expand_entities_with"),
   ("repetition combinators reject empty matches", "src/parser/raw.rs, src/parser/events.rs")])

p("P04", "Results depend only on the arguments",
  "Parsing, expansion, escaping, normalization and deserialization are pure: their results are determined by the input, the configuration and the caller's closures, without reading or writing global or thread-local state, files, the environment, time or randomness, and without unsafe code. The configuration's lookup closures are the only foreign code a parse calls.",
  ["inputs", "histories", "schedules"], "every call, in every order, from every thread",
  "Tests call each function once in a fresh process; a hidden dependency shows only across calls, threads or environments.",
  ["src/lib.rs", "src/parser/mod.rs", "src/parser/events.rs", "src/entities.rs", "src/de/mod.rs"],
  [("no statics with interior mutability, no I/O, no unsafe", "whole crate"),
   ("a parser is used through a shared reference", "src/parser/mod.rs Parser::parse")])

p("P05", "Parsing does not depend on enabled features or build profile",
  "Everything the library offers without its optional deserialization support behaves identically whether or not that support is compiled in, and an optimized build takes the same decisions as a debug build apart from assertions.",
  ["configurations"], "both feature sets, both profiles",
  "The suite is run with default features in a debug build only.",
  ["Cargo.toml", "src/lib.rs", "src/error.rs", "src/fragment.rs"],
  [("feature gates only add items", "src/lib.rs, src/fragment.rs, src/error.rs")])

p("P06", "Element and attribute names are normalized uniformly",
  "With lowercase or uppercase normalization every element name in start tags and end tags and every attribute name is converted in full, and with normalization off every name is kept byte for byte. Normalization never touches attribute values, character data, declaration or section keywords, or the empty names of empty tags.",
  ["inputs", "configurations"], "every name, in each of the three positions, under each of the three modes",
  "The tests normalize a handful of ASCII names; a site that forgets to normalize shows only on mixed-case names in that position, a wrong guard only on non-ASCII or already-normalized ones.",
  ["src/parser/mod.rs", "src/parser/events.rs"],
  [("normalization of a name", "src/parser/mod.rs NameNormalization::normalize"),
   ("the three call sites", "src/parser/events.rs open_start_tag, attribute, end_tag")])

p("P07", "Entities are expanded exactly where SGML text is replaceable",
  "Character and general entity references are expanded in character data, in quoted attribute values and in RCDATA sections, and parameter entity references in marked section keywords; each such text is expanded exactly once. Nothing else is expanded: unquoted attribute values, CDATA sections, sections kept unmodified, ignored sections, comments, processing instructions and markup declarations are delivered verbatim.",
  ["inputs", "configurations"], "every document and every entity lookup",
  "Each context is tested with one or two references; expanding twice, with the other lookup, or in one context too many needs a replacement text containing another reference or a reference in an untested context.",
  ["src/parser/events.rs", "src/parser/mod.rs"],
  [("expansion of replaceable text", "src/parser/mod.rs ParserConfig::parse_rcdata, parse_markup_declaration_text"),
   ("call sites", "src/parser/events.rs text, attribute, marked_section_body, marked_section_declaration")])

p("P08", "Entity expansion replaces exactly the well-formed references",
  "Expansion scans left to right, replaces each well-formed reference together with its optional terminating semicolon by the looked-up text or the referenced Unicode character, and copies everything else unchanged, including lone reference prefixes; replacement text is never rescanned. Function names and character codes that are not Unicode scalar values go to the lookup under their literal name including the number sign, and an undefined name is an error carrying that name and the byte range of the whole reference in the source. Text without references is returned without copying.",
  ["inputs"], "every text and every lookup",
  "The tests expand about thirty texts; adjacent references, references at the end, multi-byte neighbours, out-of-range codes and positions after several replacements are unbounded combinations.",
  ["src/entities.rs"],
  [("scanning loop", "src/entities.rs expand_entities_with"),
   ("reference grammar", "src/entities.rs char_ref, entity_ref, entity_or_char_ref")])

p("P09", "Marked sections follow keyword priority and the configured handling",
  "Section keywords are recognized without regard to ASCII case, TEMP counts as INCLUDE, no keyword means INCLUDE, and among several the strongest of IGNORE, CDATA, RCDATA, INCLUDE decides; any other keyword is an error. When only character data is accepted, a section must carry exactly one keyword, CDATA or RCDATA; when sections are kept unmodified, one event with the expanded keywords and verbatim body is produced; when all are expanded, IGNORE yields nothing, CDATA its trimmed verbatim text, RCDATA its trimmed expanded text and INCLUDE the events of its content.",
  ["inputs", "configurations"], "every keyword list, section body and handling mode",
  "Tests cover about one keyword list per mode; priorities between every pair, duplicates, and handling in each mode are not sampled.",
  ["src/marked_sections.rs", "src/parser/mod.rs", "src/parser/events.rs"],
  [("keyword table and priority", "src/marked_sections.rs KEYWORDS, from_keywords, from_str"),
   ("mode filter", "src/parser/mod.rs MarkedSectionHandling::parse_keywords"),
   ("per-status handling", "src/parser/events.rs marked_section_body")])

p("P10", "Builder options set exactly what they name, with the documented defaults",
  "Each builder method changes only its own option, the last call wins, and untouched options keep the documented defaults: trimming on, names unchanged, only character-data sections accepted, nothing ignored, no entities defined. The lookups given for general and for parameter entities are consulted for their own kind of reference only, and ignored declarations or processing instructions are parsed but produce no event.",
  ["configurations"], "every sequence of builder calls",
  "Tests build a dozen configurations; the cross product of options is not sampled.",
  ["src/parser/mod.rs", "src/parser/events.rs"],
  [("builder methods and defaults", "src/parser/mod.rs ParserBuilder, ParserConfig::default"),
   ("conditional events", "src/parser/events.rs markup_declaration, processing_instruction")])

p("P11", "Parsing keeps all content, in document order, to the end of input",
  "A successful parse has consumed the whole input and its events are those of the prolog, the content and the epilogue, in document order with none dropped, duplicated or reordered; a start tag contributes its name, then its attributes in order, then its close. Only comments, insignificant whitespace between declarations, text that is empty after optional trimming, ignored sections and events the configuration excludes leave no trace, and trimming removes SGML whitespace only.",
  ["inputs", "configurations"], "every document that parses",
  "The tests compare event lists of some forty documents; content lost at a boundary (between prolog and content, after a section, around comments) needs the right neighbours.",
  ["src/parser/events.rs", "src/parser/mod.rs"],
  [("document structure", "src/parser/events.rs document_entity, prolog, content, content_item, start_tag"),
   ("collecting the events", "src/parser/mod.rs Parser::parse_with_detailed_errors")])

p("P12", "Failures surface as errors and are never replaced by a silent success",
  "An undefined entity, an unknown section keyword, an unterminated construct or a malformed tag makes the whole parse fail with an error that carries the cause; no failure inside a construct is swallowed, turned into text, or replaced by an unrelated error. Errors of nested deserialization steps and of formatting sinks are likewise passed on unchanged.",
  ["inputs", "configurations"], "every failing document at every nesting position",
  "About twenty failing inputs are tested, nearly all at top level.",
  ["src/parser/events.rs", "src/parser/mod.rs", "src/parser/util.rs", "src/de/mod.rs", "src/error.rs"],
  [("hard failure of expansion errors", "src/parser/events.rs unrecoverable, marked_section_declaration"),
   ("error conversion", "src/parser/mod.rs into_nom_failure"),
   ("error propagation", "src/de/mod.rs, src/error.rs")])

p("P13", "Escaped text contains no markup and reads back as the original",
  "Escaping replaces each less-than sign, greater-than sign and (unless switched off) ampersand by its own numeric character reference and passes every other character through in order, so the output has no raw markup character and expands back to the original text. The reported size bounds always contain the number of characters still to come, an exhausted iterator stays exhausted, and the displayed form is the same character sequence.",
  ["inputs", "histories"], "every text, every point of partial iteration, both ampersand settings",
  "Tests escape a few strings to the end; bounds in the middle of a replacement and all character classes are not sampled.",
  ["src/text.rs"], [("escaping iterator", "src/text.rs Escape::next, size_hint, fmt")])

p("P14", "Displaying events writes well-formed markup that preserves their data",
  "Each event is written with its own delimiters around its unaltered fields; an attribute value is quoted with a quote character it does not contain, or else its double quotes and ampersands are written as references, so the value can never end early or change when read back; character data is escaped; a fragment is the concatenation of its events with one space before each attribute.",
  ["inputs"], "every event and every fragment",
  "Tests print a few events; quote selection depends on which of three characters occur in the value.",
  ["src/lib.rs", "src/fragment.rs"], [("event formatting", "src/lib.rs Display for SgmlEvent"), ("fragment formatting", "src/fragment.rs Display for SgmlFragment")])

p("P15", "Making data owned and converting fragments never changes content",
  "Turning an event or fragment into its owned form yields an equal event or fragment: same kind, same fields in the same places, absent values still absent, same order and length. Conversions between fragments, event lists and iterators keep every event in order, and length, slices and iteration agree.",
  ["inputs"], "every event and fragment",
  "One fragment is converted in the tests; swapped fields or a dropped value shows only for the affected kind.",
  ["src/lib.rs", "src/fragment.rs"], [("owned conversion", "src/lib.rs SgmlEvent::into_owned, make_owned"), ("fragment accessors", "src/fragment.rs")])

p("P16", "Event iterators yield their events in order with an exact length",
  "The iterator over the events of one construct yields its first event, then the middle ones in order, then the last one, each exactly once and then nothing forever. At every point of the iteration its reported length is exactly the number of events still to come, and building it from a list of events keeps them all in order.",
  ["histories", "inputs"], "every construct, every point of partial iteration",
  "Tests only collect whole iterators; the length in the middle and behaviour after the end are not sampled.",
  ["src/parser/events.rs"], [("iterator", "src/parser/events.rs EventIter::next, len, size_hint, from_iter, start_tag, once, cond, empty")])

p("P17", "Applying a transform inserts and deletes at the original positions",
  "Applying a transform to a fragment yields the original events in order, without those at deleted positions (however often or in whatever order they were requested) and with each inserted event immediately before the event originally at its position, or at the end for the position after the last event; insertions at one position appear in the order they were requested. Nothing else is added, removed or reordered.",
  ["inputs", "histories"], "every fragment and every sequence of insert and delete requests within bounds",
  "Tests apply under ten request sequences; unsorted, duplicate and combined requests at one position form an unbounded space.",
  ["src/transforms/transform.rs"], [("merge of sorted requests", "src/transforms/transform.rs Transform::apply, insert_at, remove_at")])

p("P18", "Normalizing end tags only adds end tags and closes empty elements",
  "Normalization returns the same events in the same order with end tags inserted for elements that lack one, and with each XML-style empty element replaced by an ordinary start tag followed immediately by its end tag. An inserted end tag carries exactly the name of its start tag and goes just before the next enclosing tag boundary, leaving surrounding blank text outside; empty tags and end tags without a matching start tag are errors that name the cause, never a silent success.",
  ["inputs"], "every fragment",
  "Some ten fragments are normalized in the tests; nesting, repeated names and blank text combine without bound.",
  ["src/transforms/normalize_end_tags.rs"], [("backward pass over the events", "src/transforms/normalize_end_tags.rs normalize_end_tags")])

p("P19", "Deserialization consumes each element exactly, up to its own end tag",
  "Reading a value from an element consumes its start tag, everything nested in it and exactly its own end, so that what follows is read from the right place; skipped content is skipped whole. An end tag whose name differs from the element it closes is reported as a mismatch naming both, and input that ends early is reported as an unexpected end.",
  ["inputs", "programs"], "every fragment and target type",
  "Tests deserialize about fifty documents; consuming one event too many or too few shows only with the right successor.",
  ["src/de/mod.rs"], [("element stack", "src/de/mod.rs push_elt, pop_elt, advance_to_content, do_map"), ("text extraction", "src/de/mod.rs consume_text")])

p("P20", "Events deserialization does not understand are always rejected",
  "Declarations, processing instructions, unexpanded marked sections and empty tags reached while a value is being read make deserialization fail with an error that carries the offending event; they are never skipped, read as data, or the cause of a panic, wherever they occur. Content that is being skipped as a whole is not inspected.",
  ["inputs", "programs"], "every fragment containing such an event at any place that is read, and every target type",
  "The tests place such events in two positions only.",
  ["src/de/mod.rs"], [("rejection at the cursor", "src/de/mod.rs normalize_at_cursor and its callers")])

p("P21", "Scalars are parsed as exactly the requested type",
  "Each numeric target type is parsed from the whole text with that type's own grammar and range and handed over unchanged as that type; text that does not parse is an error. A boolean is true for 1 and true and false for 0 and false in any ASCII case, an attribute that has no value, an empty value or its own name as value is true, and anything else is an error.",
  ["inputs", "programs"], "every text and every scalar type",
  "Tests use one or two in-range values per type; parsing through a narrower or wider type shows only at the extremes.",
  ["src/de/mod.rs"], [("numeric scalars", "src/de/mod.rs forward_parse!"), ("booleans", "src/de/mod.rs deserialize_bool")])

p("P22", "Text of an element is complete, ordered and not mixed up with attributes",
  "The text of an element is the concatenation, in document order, of all character data in it including that inside nested elements, and nothing else; an absent attribute value reads as empty text. Attributes become entries named after them with their own value, child elements become entries named after them, and the text of an element without child elements, requested together with its attributes, contains all of its character data.",
  ["inputs", "programs"], "every fragment and target type",
  "Interleavings of text, attributes and nested elements are unbounded; the tests use a few.",
  ["src/de/mod.rs", "src/de/buffer.rs"], [("text buffer", "src/de/buffer.rs CowBuffer::push_cow"), ("text extraction", "src/de/mod.rs consume_text"), ("map entries", "src/de/mod.rs MapAccess::next_key_seed, next_value_seed")])

p("P23", "Parse error messages point at the true line and column",
  "The rendered message of a parse error names the 1-based line on which parsing stopped, shows that line, and places the caret under the offending character, counted in characters; lines longer than the window are shortened without splitting a character or losing the caret. An expected character is reported together with what was found, and context lines are listed innermost first without repeating a location.",
  ["inputs"], "every failing document and position, including multi-byte and very long lines",
  "The tests render fewer than ten errors, mostly on short ASCII lines.",
  ["src/parser/error.rs"], [("location", "src/parser/error.rs LocatedLine::locate"), ("rendering", "src/parser/error.rs describe_to, Display for LocatedLine")])

p("P24", "Borrowing and threading guarantees of the public API are kept by types",
  "Parsed fragments borrow from the input and cannot outlive it, owned fragments and all error types can, a parser is usable through a shared reference any number of times, entity lookups must be callable repeatedly, and events, fragments and errors can be sent and shared between threads. A program that violates these does not compile, and the corresponding correct program does.",
  ["programs"], "every client program",
  "A test can only show that one correct program compiles, never that wrong ones are rejected.",
  ["src/lib.rs", "src/fragment.rs", "src/parser/mod.rs", "src/entities.rs", "src/de/mod.rs"], [("signatures and trait bounds", "public API of the crate")])

p("P25", "Delimited constructs end at their first closing delimiter or fail",
  "Comments, processing instructions, quoted attribute values, CDATA and RCDATA sections extend to the first occurrence of their closing delimiter and deliver exactly the text in between; IGNORE sections extend to the closing delimiter that balances their nested section openings, and declarations to the first closing sign outside comments, quotes and nested brackets. When that delimiter is missing the parse fails; it never falls back to reading the construct as something else.",
  ["inputs"], "every document",
  "Delimiters inside other constructs, partial delimiters at the end of input and nesting combine without bound; the tests use a few.",
  ["src/parser/raw.rs", "src/parser/util.rs"], [("delimiter search", "src/parser/util.rs take_until_terminated"), ("nested sections", "src/parser/raw.rs marked_section_body_ignore"), ("declarations", "src/parser/raw.rs markup_declaration, declaration_subset, comment_declaration")])

p("P26", "Name and whitespace characters are classified consistently",
  "A name starts with an alphabetic character and continues with the longest run of alphanumeric characters or period, hyphen, underscore, colon, over the full Unicode range, and the same definition decides tags, attributes, declarations, section and entity names. SGML whitespace is exactly space, tab, carriage return and line feed wherever text is trimmed or tested for blankness.",
  ["inputs"], "every Unicode character at every name and text boundary",
  "Classes over a million code points are sampled at a few letters.",
  ["src/parser/raw.rs", "src/text.rs", "src/entities.rs", "src/parser/mod.rs"], [("name characters", "src/parser/raw.rs is_name_start_char, is_name_char, name"), ("whitespace", "src/text.rs is_sgml_whitespace, is_blank")])

p("P27", "Text is told from markup by what follows the less-than sign",
  "Character data extends to the next less-than sign that can begin markup: one followed by a letter, a slash and a letter or closing sign, a closing sign, a question mark, or an exclamation mark with a hyphen, opening bracket or letter; every other less-than sign is data. Inside an included section, and only there, a section close also ends the text, and attribute values follow the quoted or unquoted form exactly.",
  ["inputs", "configurations"], "every document",
  "The tests probe a few characters after a less-than sign.",
  ["src/parser/raw.rs"], [("text scanner", "src/parser/raw.rs text, plain_text"), ("tags and attributes", "src/parser/raw.rs open_start_tag, end_tag, attribute_parse_value, unquoted_attribute_value, quoted_attribute_value")])

p("P28", "Enum values come from the element that names or contains them",
  "An enum is read either from the element whose name is the variant, or from inside the element of the field: as the child element naming the variant when there are child elements, otherwise as its text. A variant that carries data is only accepted when an element names it, its data is taken from that element alone, and afterwards exactly the elements that formed the value have been consumed.",
  ["inputs", "programs"], "every fragment and enum type",
  "The tests cover each variant kind once or twice in the expected position.",
  ["src/de/mod.rs"], [("enum dispatch", "src/de/mod.rs deserialize_enum"), ("variant access", "src/de/mod.rs EnumAccess")])

p("P29", "Sequences collect contiguous elements of the same name, all of them",
  "A sequence read for a field consists of the run of consecutive sibling elements with the field's name (nothing but empty text between them), in order, each read once, stopping at the first other element, at non-empty text or at the end of the parent; a sequence not tied to a field name takes all consecutive elements. Elements after the run stay available for the following fields.",
  ["inputs", "programs"], "every fragment and target type",
  "Tests use short runs followed by the end of the parent.",
  ["src/de/mod.rs"], [("sequence access", "src/de/mod.rs SeqAccess::next_element_seed, deserialize_seq")])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
