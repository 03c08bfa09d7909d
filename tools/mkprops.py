#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so the wording lives in one reviewable place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}})
XT = "xsd-types/src/types/"
XP = "xsd-parser/src/parser/"
XG = "xsd-parser/src/generator/"
VALS = [XT + f for f in ("date.rs","time.rs","datetime.rs","datetimestamp.rs","gday.rs","gmonth.rs","gmonthday.rs","gyear.rs","gyearmonth.rs","duration.rs","decimal.rs","integer.rs","negative_integer.rs","non_negative_integer.rs","non_positive_integer.rs","positive_integer.rs","utils.rs")]

p("C01", "Parsing a built-in value from text never panics",
  "For every string, parsing it as any of the library's XSD value types (dates, times, gregorian types, durations, decimals, integers) or as a bare time-zone designator returns a value or an error and never panics. This includes empty strings, text with multi-byte characters and absurdly long numbers.",
  ["inputs"], "every string x every value type's parser, and the stand-alone time-zone parser",
  "The tests feed a few dozen ASCII literals; a panic hides behind byte offsets inside multi-byte characters and behind integer overflow, which no sampled literal reaches.",
  VALS, [("string-to-value parsers", "FromStr impls under xsd-types/src/types"), ("time-zone parser", XT+"utils.rs")])
p("C02", "Values accepted by parsing lie in the lexical value range of their type",
  "Whatever text is parsed successfully, a gDay is 1..31, a gMonth 1..12, a gMonthDay a day that exists in its month (29 for February), a gYear and the year of a gYearMonth are never 0, and the month of a gYearMonth is 1..12. A positiveInteger is greater than 0, a negativeInteger less than 0, a nonPositiveInteger at most 0 and a nonNegativeInteger at least 0; a time zone lies between -14:00 and +14:00 with minutes below 60, and the constructors of the gregorian types enforce the same ranges.",
  ["inputs"], "every string given to a parser, every argument given to a range-checked constructor",
  "Tests check single boundary literals; the range must hold on every accepting path of every parser (Z, +hh:mm, -hh:mm, no zone, leading minus).",
  VALS, [("range-checked constructors", "new() of the gregorian types"), ("sign checks", "FromStr of the bounded integer types"), ("offset bound", XT+"utils.rs parse_timezone")])
p("C03", "Parsing keeps the presence, sign and amount of the time zone",
  "Parsing a date, time, gDay, gMonth, gMonthDay, gYear or gYearMonth yields no zone when the literal has none, UTC when it ends in Z, and the offset with the written sign and amount (hours and minutes) when it ends in +hh:mm or -hh:mm; the remaining characters alone decide the value. A zone that is not well-formed makes the parse fail rather than being dropped.",
  ["inputs"], "every literal of the seven zoned types",
  "Each of the seven parsers has four accepting paths with its own slice arithmetic; tests exercise one literal per path at best.",
  VALS, [("zone splitting", "FromStr of the seven zoned types"), ("offset arithmetic", XT+"utils.rs")])
p("C04", "Printing a value writes its components and its time zone exactly when it has one",
  "Printing any date, time or gregorian value writes the components in the order, widths and separators of the XSD lexical form (two-digit months and days, four-digit years, a leading minus for negative years), followed by the zone if and only if the value has one. Printing never panics.",
  ["inputs"], "every value of every zoned type, including extreme years",
  "The tests print a handful of values; a dropped zone, a width or a sign bug shows only for the branch not sampled, and the extreme years overflow.",
  VALS, [("Display impls", "xsd-types/src/types")])
p("C05", "Duration parsing assigns every number to the component its designator names",
  "Parsing a duration stores the number before Y, M (before T), D, H, M (after T) and S into years, months, days, hours, minutes and seconds respectively, a leading minus sets the negative flag, and designators out of order, repeated, without a number, or time designators before T are rejected. Printing writes each non-zero component with its own designator, in that order, with T before the time part and the minus in front.",
  ["inputs"], "every duration literal and every duration value",
  "The component/designator pairing is spread over a character loop with mutable context; tests cover selected literals only.",
  [XT+"duration.rs"], [("character loop", XT+"duration.rs FromStr"), ("printer", XT+"duration.rs Display")])
p("C06", "Durations convert to clock time only when that is meaningful",
  "Converting a duration to a standard (clock) duration fails when it has years or months or is negative, and otherwise equals its days, hours, minutes and seconds at 24 h, 60 min and 60 s. The conversion never panics, whatever the component values.",
  ["inputs"], "every duration value",
  "Tests convert two values; overflow and the negative flag are outside what they sample.",
  [XT+"duration.rs"], [("conversion", XT+"duration.rs to_std_duration")])
p("C07", "Value types are written to and read from XML symmetrically, dropping no error",
  "Serialising a built-in value writes one start tag (unless the writer was told to skip it), the value's printed text, and the matching end tag under the same condition; reading it consumes one start tag and hands the element's text (or empty text) to the value's own parser. Every failure of the underlying writer, reader or parser is returned as an error.",
  ["inputs","fault_sequences"], "every value type, both settings of the skip flag, every writer/reader failure point",
  "Tests use in-memory writers that never fail and mostly the default flag.",
  ["xsd-types/src/utils/yaserde.rs","xsd-macro-utils/src/lib.rs"], [("shared (de)serialisation helpers", "xsd-types/src/utils/yaserde.rs"), ("derive that wires each type to its own parser and printer", "xsd-macro-utils/src/lib.rs")])
p("C08", "Unions read the first member that accepts the text and write the held member",
  "The code derived for a union tries its member types in declaration order, returns the first whose parser accepts the text, and falls back to the unknown variant holding the raw text; writing emits the printed form of the member it holds. Every declared variant takes part in both directions.",
  ["programs","inputs"], "every union enum the derive is applied to",
  "Tests derive a few concrete enums; the derive must be right for every enum shape.",
  ["xsd-macro-utils/src/union.rs"], [("union derive", "xsd-macro-utils/src/union.rs")])
p("C09", "Wrapper types parse and print exactly as the type they wrap, lists item by item",
  "The code derived for a wrapper of a single value parses with the wrapped type's parser and prints with its printer, returning its errors; for a wrapper of a list it splits the text at whitespace, parses every item with the item type (failing if one is not accepted) and prints all items in order separated by single spaces. Text wrappers keep the text unchanged.",
  ["programs","inputs"], "every wrapper struct the derive is applied to",
  "Tests derive a few concrete structs; the derive must be right for every wrapped type.",
  ["xsd-macro-utils/src/tuple.rs"], [("wrapper derive", "xsd-macro-utils/src/tuple.rs")])
p("C10", "Every schema element kind is recognised by its tag and handled by its own reader",
  "Each XSD tag is classified as its own kind (extension and restriction also by the kind of their parent; facets also with their value), and every kind that can be declared as a type, element, attribute, group reference, content model or import is read by the reader for that kind. An unknown tag is classified as unknown and never as one of the known kinds.",
  ["inputs"], "every tag name x every parent",
  "There are over 40 tags; tests touch those that occur in their fixtures.",
  [XP+"xsd_elements.rs", XP+"node_parser.rs"], [("tag classifier", XP+"xsd_elements.rs xsd_type"), ("dispatcher", XP+"node_parser.rs parse_node")])
p("C11", "Occurrence bounds decide between single, optional and repeated fields",
  "An element with minOccurs 0 and maxOccurs absent or 1 becomes an optional field, one with maxOccurs unbounded or above 1, or minOccurs above 1, becomes a repeated field, and one with both absent or 1 becomes a single required field. The same holds for cases of a choice, and an absent or unreadable minOccurs counts as 1.",
  ["inputs"], "every pair of minOccurs/maxOccurs values on sequence, all and choice elements",
  "Tests check a few pairs of the unbounded table.",
  [XP+"element.rs", XP+"xsd_elements.rs"], [("cardinality table", XP+"element.rs element_modifier"), ("readers", XP+"xsd_elements.rs min_occurs/max_occurs")])
p("C12", "Attributes are required, optional or left out exactly as their use says",
  "A local attribute becomes a required field when use is 'required', an optional field when use is 'optional' or absent, and no field when use is 'prohibited'. Its name comes from name or, failing that, ref; its type from type, then ref, then string.",
  ["inputs"], "every local attribute declaration",
  "Tests use a few attribute declarations; the table must hold for all combinations of name/ref/type/use.",
  [XP+"attribute.rs", XP+"xsd_elements.rs", XG+"struct_field.rs"], [("use table", XP+"attribute.rs parse_attribute")])
p("C13", "Every declared member of a type is represented, in document order",
  "Each member of a sequence or all group becomes one field, each member of a choice one enum case, each attribute or anyAttribute of a type one field, each member of a union one case and each value of an enumeration of plain words one case, in document order and without omission or duplication; only annotations and non-element nodes are skipped. A list type holds its item type repeated. Every top-level declaration of a schema becomes one type, in document order, except attribute groups, which are kept apart.",
  ["inputs"], "every schema document",
  "Tests compare a few fixtures; a filter that loses or reorders a member for some child kind passes them.",
  [XP+"sequence.rs", XP+"all.rs", XP+"choice.rs", XP+"union.rs", XP+"restriction.rs", XP+"utils.rs", XP+"schema.rs"], [("child iteration", "parser modules"), ])
p("C14", "Derived types contain their base type's fields and no placeholder",
  "After a schema is parsed, a type that extends or restricts another type of the schema has all fields of that base which it does not itself redeclare, wherever in its nested types the derivation occurs, and no internal base placeholder field remains when the base was resolved or not. A type's own fields are never lost or replaced by inherited ones.",
  ["inputs"], "every schema with derivations, in any declaration order",
  "Fixtures contain single-level derivations declared in a convenient order.",
  [XP+"types.rs", XP+"mod.rs", XP+"extension.rs", XP+"restriction.rs"], [("base expansion", XP+"types.rs extend_base"), ("driver", XP+"mod.rs parse")])
p("C15", "Attribute-group references are replaced by the referenced group's attributes",
  "Every attribute-group reference of a complex type, extension or restriction is recorded with the referenced name, and after the schema is parsed the type has one field for every attribute of each group it references, looked up by the reference's local name. Global attribute groups themselves produce no type.",
  ["inputs"], "every schema with attribute groups",
  "One fixture uses attribute groups.",
  [XP+"types.rs", XP+"attribute_group.rs", XP+"utils.rs", XP+"mod.rs"], [("group expansion", XP+"types.rs extend_attribute_group")])
p("C16", "Each restriction facet becomes the check it stands for, with its own value",
  "The generated validation of a restricted type rejects a value iff it is >= for maxExclusive, > for maxInclusive, <= for minExclusive, < for minInclusive, its length differs for length, exceeds for maxLength, or is short for minLength, each against the value written in that facet. Every such facet of the type contributes its check, whatever other facets are present.",
  ["inputs"], "every facet kind, every facet list",
  "Tests check individual templates; the pairing tag-kind-operator-value must hold for all facets of all types.",
  [XG+"validator.rs", XG+"tuple_struct.rs", XP+"restriction.rs", XP+"xsd_elements.rs"], [("facet collection", XP+"restriction.rs facets"), ("templates", XG+"validator.rs"), ("validation body", XG+"tuple_struct.rs validation")])
p("C17", "Documentation written in the schema is kept on the entity it documents",
  "Every type, field, attribute, enum case, alias and group reference read from a schema carries the text of its own annotation's documentation, and none when it has none. The generator writes that documentation for every struct, field, enum, case, wrapper and alias it emits.",
  ["inputs"], "every documented declaration",
  "Fixtures document a few kinds of declaration.",
  [XP+"utils.rs", XP+"element.rs", XP+"attribute.rs", XG+"struct.rs", XG+"enum.rs"], [("documentation lookup", XP+"utils.rs get_documentation")])
p("C18", "Names and type references come from the declaration's own attributes, unchanged",
  "The name of every declared type, field, case and alias is the declaration's name attribute (or ref for references), and its referenced type is the type, ref, base, itemType or memberTypes attribute that applies, copied verbatim including any prefix. Anonymous types take their name from the declaration that encloses them, and a field refers to its anonymous type by the name that type was given.",
  ["inputs"], "every declaration with any combination of name/type/ref/base/itemType/memberTypes",
  "Tests assert names for a few declarations.",
  [XP+"element.rs", XP+"attribute.rs", XP+"complex_type.rs", XP+"simple_type.rs", XP+"list.rs", XP+"union.rs"], [("readers", "parser modules")])
p("C19", "Fields are serialised as attribute, element or choice as they were declared",
  "A field read from an attribute is serialised as an XML attribute, a field read from an element as an XML element, and a field holding a choice is flattened, never one as another. The marker carries the exact XML local name, with the prefix written in the name or, for elements without one, the target namespace prefix when there is one.",
  ["inputs"], "every generated struct field",
  "Tests compare a few generated fields as text.",
  [XG+"struct_field.rs", XG+"default.rs", XP+"attribute.rs", XP+"element.rs", XP+"complex_type.rs"], [("markers", XG+"default.rs yaserde_for_*"), ("source tag", XP+"types.rs StructFieldSource")])
p("C20", "Built-in XSD types map to the documented Rust types, only under the XSD prefix",
  "Every built-in type of the mapping table in the README, written with the prefix the schema binds to the XSD namespace (or none if it is the default namespace), is generated as exactly the Rust type the table gives. The same name under any other prefix is treated as a user type.",
  ["inputs"], "every built-in name x every prefix x every binding of the XSD namespace",
  "There are about 45 entries and three prefix situations; tests cover some of the first in one of the second.",
  [XG+"utils.rs", XG+"base.rs", "README.md"], [("mapping table", XG+"utils.rs match_built_in_type")])
p("C21", "Generated identifiers are never Rust keywords and never start with a digit",
  "Type names, module names and field names produced by the generators are never a Rust keyword and never start with a digit: such names get a leading underscore. Type names contain only ASCII letters, digits, underscores and the module separator.",
  ["inputs"], "every XML name",
  "Tests try a few keywords; the list must contain every keyword and every name path must pass through the escaping.",
  [XG+"default.rs", XG+"utils.rs", "wsdl-parser/src/generator/mod.rs"], [("escaping", "sanitize"), ("character filter", "filter_type_name")])
p("C22", "Enum cases keep the original XML name when the Rust name differs",
  "A case of a generated (non-union) enum whose Rust identifier differs from its XML name, or whose XML name has a prefix, carries a rename with exactly the XML local name, and the prefix if it has one; a case without rename has an identifier equal to the XML name. Union cases carry no rename.",
  ["inputs"], "every enum case",
  "Tests print a few cases.",
  [XG+"enum_case.rs"], [("case macros", XG+"enum_case.rs macros")])
p("C23", "Cardinality markers become Option, Vec or unit types",
  "The Rust type of a field, case or wrapper is the plain type when single, Option of it when optional, a Vec of it when repeated or recursive, and nothing but the unit type when empty; an empty field is left out of the struct. The marker is applied to the already translated type name.",
  ["inputs"], "every list of markers and every type name",
  "Tests check some marker lists.",
  [XG+"default.rs", XG+"struct_field.rs", XG+"tuple_struct.rs", XG+"enum_case.rs"], [("type modifier", XG+"default.rs default_modify_type")])
p("C24", "Generating code leaves the parsed model unchanged",
  "Generating code from a parsed schema does not change the schema model: generating again from the same model gives the same text. No generator entry point modifies any part of the entity it is given.",
  ["inputs","histories"], "every model, any number of generations",
  "Tests generate once from each model.",
  [XG+"struct.rs"], [("field rendering", XG+"struct.rs fields")])
p("C25", "A reused generator takes its namespaces from the file it is given",
  "Generating a file uses that file's target namespace and XSD namespace, whatever was generated before with the same generator: both are replaced, also when the new file has none, before any type is written. Every type of the file is generated exactly once, in order.",
  ["histories"], "every sequence of files given to one generator",
  "Tests generate one file per generator.",
  [XG+"mod.rs"], [("file entry point", XG+"mod.rs generate_rs_file")])
p("C26", "Custom generators replace exactly the default they are registered for",
  "Each registration function of the generator builder installs the given generator for its own kind of entity and leaves the others alone, building fills only kinds that were not set, and each kind of entity is always rendered by the generator registered for that kind.",
  ["configurations"], "every combination of registered generators and every entity kind",
  "Tests register one or two generators.",
  [XG+"builder.rs", XG+"mod.rs"], [("builder", XG+"builder.rs"), ("dispatch", XG+"mod.rs generate")])
p("C27", "Every nested type, field, case and check of a model is generated",
  "The text generated for an entity contains the generated text of each of its fields, cases, nested types and of its validation implementation, each exactly once and in model order; nested types of a struct live in the module named after the struct, which is emitted whenever there is one. Fields whose type is nested refer to it through that module.",
  ["inputs"], "every model",
  "Fixtures cover a few nestings.",
  [XG+"struct.rs", XG+"enum.rs", XG+"tuple_struct.rs", XG+"base.rs"], [("templates", XG)])
p("C28", "Schema documentation stays inside comments of the generated code",
  "Whatever the documentation text in a schema or service description, every non-empty line it contributes to the generated code starts (after indentation) with a comment marker and ends with a line break before any code follows. No word of the text is lost from lines of two or more characters, words keep their order, and a line is broken before it exceeds the limit unless a single word does.",
  ["inputs"], "every documentation text, indentation and line limit",
  "Tests format a few texts; control characters and unusual line breaks are not among them.",
  [XG+"default.rs", XG+"utils.rs", "wsdl-parser/src/generator/mod.rs"], [("comment formatter", "default_format_comment / split_comment_line")])
p("C29", "The same input always yields the same output",
  "Parsing and generating, for schemas and for service descriptions, is a function of the input text: no result depends on hash iteration order, addresses, time, randomness, environment or threads.",
  ["inputs","schedules"], "every input, every run",
  "Tests run once per process; a hash-order dependence shows only across runs with several entries.",
  ["xsd-parser/src", "wsdl-parser/src", "xsd-types/src", "xsd-macro-utils/src"], [("ordered collections", "parser and generator modules"), ("port type ordering", "wsdl-parser/src/generator/mod.rs")])
p("C30", "The libraries do no I/O and keep no global state",
  "The parser, generator, macro and value-type libraries read and write nothing but their arguments: no file, network, process, environment, standard stream or clock access, and no mutable global or thread-local state. Only the command-line tools touch the file system.",
  ["inputs","histories"], "every call of every public library function",
  "No test observes side effects.",
  ["xsd-parser/src", "wsdl-parser/src", "xsd-types/src", "xsd-macro-utils/src"], [("layering", "libraries vs *-cli crates")])
p("C31", "Generated types carry the namespace and traits that serialisation relies on",
  "Every generated struct and every generated choice or enumeration enum is annotated with the target namespace URI, and its prefix when it has one, in the same form for structs and enums, and with none when the schema has no target namespace. Structs and wrappers derive a default, enums implement it through an unknown variant holding the base type, and every struct, wrapper and enum implements validation under the name it is declared with.",
  ["inputs"], "every model and every target namespace situation",
  "Tests cover one namespace situation per kind.",
  [XG+"struct.rs", XG+"enum.rs", XG+"tuple_struct.rs", XG+"validator.rs"], [("macros", XG+"struct.rs / enum.rs macros")])
p("C32", "Every service operation becomes one function with its own messages",
  "The code generated for a service description contains one async function for every operation of every port type, named after the operation, taking the message its input refers to and returning the element of the message its output refers to. Messages are found by the local part of the reference.",
  ["inputs"], "every service description",
  "There are very few tests on service descriptions.",
  ["wsdl-parser/src/generator/mod.rs", "wsdl-parser/src/generator/function.rs", "wsdl-parser/src/parser/definitions.rs"], [("generation loop", "wsdl-parser/src/generator/mod.rs generate"), ("message lookup", "definitions.rs get_message_by_param")])
p("C33", "Schema and service generators derive the same Rust names from the same XML names",
  "For every XML name and target namespace, the type and function/field names the service generator produces are the names the schema generator produces for user types and fields, so that generated functions refer to the generated types. Comments are formatted identically by both.",
  ["inputs"], "every XML name x every target namespace",
  "Nothing tests the two code copies against each other.",
  ["wsdl-parser/src/generator/mod.rs", XG+"default.rs", XG+"utils.rs"], [("duplicated naming helpers", "both generator modules")])
p("C34", "Service descriptions keep every declaration, and duplicate names are rejected",
  "Reading a service description records every import, message, port type and binding under its own key (namespace or name) and every types section in order; a second declaration of the same kind with the same key is rejected loudly instead of silently replacing the first. Every part of a message and every operation of a port type is kept in order.",
  ["inputs"], "every service description",
  "The parser tests read one or two documents without duplicates.",
  ["wsdl-parser/src/parser/definitions.rs", "wsdl-parser/src/parser/message.rs", "wsdl-parser/src/parser/port_type.rs"], [("collection", "definitions.rs add_*")])
p("C35", "Operations are classified by the order and presence of input and output",
  "An operation whose first message element is an input is request-response when the next element is its output and one-way when there is none; one whose first is an output is solicit-response or notification likewise. Input and output always keep their own element and the faults are those that follow.",
  ["inputs"], "every order of children of an operation",
  "Tests cover some of the four transmission primitives.",
  ["wsdl-parser/src/parser/port_type.rs"], [("classifier", "port_type.rs OperationType::new")])
p("C36", "The command-line tools write only to the requested output",
  "Each tool writes files only at the output path given (or its documented default), or below that directory at the position and stem of the input file with the extension rs, and opens inputs only for reading. Nothing is ever deleted or renamed, and directories are created only under the output path.",
  ["inputs","configurations"], "every invocation of both tools",
  "No test runs the tools.",
  ["xsd-parser-cli/src/main.rs", "wsdl-parser-cli/src/main.rs"], [("path handling", "process_dir / process_single_file")])
p("C37", "The command-line tools report every failure instead of claiming success",
  "When reading, parsing, creating a directory or writing fails, the tool ends with an error: no I/O or parse result is discarded, and a directory run stops at the first failing file.",
  ["fault_sequences"], "every failure point of both tools",
  "No test injects failures into the tools.",
  ["xsd-parser-cli/src/main.rs", "wsdl-parser-cli/src/main.rs"], [("error propagation", "main and helpers")])
p("C38", "An output is touched only after its code was generated completely",
  "The output file is opened, created or truncated only after its input was read, parsed and translated successfully, and then receives exactly the generated text, replacing any previous content entirely.",
  ["fault_sequences","crash_points"], "every failure before the write, every previous file content",
  "No test runs the tools on failing inputs.",
  ["xsd-parser-cli/src/main.rs", "wsdl-parser-cli/src/main.rs"], [("order of effects", "process_single_file / write_to_file")])
p("C39", "Malformed XML is reported as an error",
  "Giving the schema parser text that is not well-formed XML returns an error and does not panic.",
  ["inputs"], "every text that is not well-formed XML",
  "No test parses malformed XML.",
  [XP+"mod.rs"], [("entry point", XP+"mod.rs parse")])
p("C40", "Generated code compiles for every valid schema",
  "For every valid schema document, the code generated from it compiles against the runtime libraries.",
  ["inputs"], "every valid schema",
  "Only a corpus of fixtures is generated and compiled.",
  ["xsd-parser/src"], [("whole pipeline", "xsd-parser/src")])
p("C41", "Instance documents round-trip through the generated types",
  "For every valid schema and instance document of it, reading the document with the generated types and writing it back yields an equivalent document.",
  ["inputs","programs"], "every schema x every instance document",
  "Only a few fixtures have instance documents.",
  ["xsd-parser/src", "xsd-types/src"], [("whole pipeline plus yaserde", "xsd-parser/src")])
p("C42", "Printing a value and parsing it back yields the same value",
  "For every value obtained by parsing, printing it and parsing the result yields an equal value, for all built-in value types.",
  ["inputs"], "every value of every type",
  "Tests round-trip single literals.",
  VALS, [("Display / FromStr pairs", "xsd-types/src/types")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
