G = "xsd-parser/src/generator/"
PA = "xsd-parser/src/parser/"
SY = "deductive: MIR symbolic contracts (dv), regular-language + z3 back ends; whole-schema part bounded"
ASS = "Assumed contracts: std, Inflector, roxmltree; whole-schema sweeps against a reference translation are bounded and not counted as proved."
PF = "The parser functions behind it are proved on every node of every document in the domain (node model = roxmltree contract; DESIGN.md section 6). "
prop("C12", "Built-in XSD types map to the documented Rust types",
     "A reference to a built-in XML Schema type - a name qualified with the schema's XSD prefix, or an unqualified name when the XSD namespace is the default namespace - becomes the corresponding Rust type of the fixed mapping table (booleans, machine integers, f64, String, Vec<String> for the list types, and the date, time, duration, decimal and big-integer types of the support library). A name qualified with any other prefix is never turned into a built-in type, whatever its local name.",
     ["inputs"], "for every type name, every XSD prefix (or none) and every target prefix (or none)",
     "tests translate a few dozen schemas; the table has some 45 entries and the decision depends on the combination of three prefixes",
     [G + "utils.rs", G + "default.rs"], [{"name": "match_built_in_type, default_format_type", "where": G + "utils.rs, default.rs"}], observe=["type text of every generated field, alternative, alias and wrapper"],
     note="All UTF-8 type names and all prefix combinations. " + ASS, tech=SY)
prop("C13", "Occurrence constraints become the right Rust container",
     "An element that may occur more than once becomes a vector, one that may be absent an Option, one that occurs exactly once a plain value; absent minOccurs and maxOccurs mean 1, and an optional repeated element is a vector. Attributes are Option unless required and produce nothing when prohibited; list types are vectors, and an element of the type that encloses it is held in a vector.",
     ["inputs"], "for every type text and every combination of occurrence attributes, use and position (sequence, all, choice, reference, nested type, attribute group)",
     "tests cover a few occurrence spellings in a few positions; the rule is applied at many separate places",
     [G + "default.rs", G + "struct_field.rs", G + "enum_case.rs", PA + "utils.rs", PA + "element.rs", PA + "attribute.rs", PA + "sequence.rs", PA + "choice.rs", PA + "list.rs", G + "struct.rs"],
     [{"name": "type modifiers", "where": G + "default.rs, " + PA + "utils.rs"}], observe=["type text of every generated field and alternative"], note=PF + ASS, tech=SY)
prop("C14", "Every schema name becomes a valid Rust identifier",
     "Every ASCII name with at least one letter or digit, used as the name of a type, nested type, field or enumeration value, becomes a valid Rust identifier that is no keyword (or a valid path for a name with a prefix), so that the item declared under it can be used. This includes names that are keywords in any casing, start with a digit, or contain dots, hyphens and other punctuation.",
     ["inputs"], "for every such name, as field, module, type and variant, with and without a target prefix",
     "tests use ordinary names; keywords after case conversion, leading digits and punctuation combine",
     [G + "utils.rs", G + "default.rs", G + "enum_case.rs", PA + "restriction.rs"],
     [{"name": "sanitize, filter_type_name, format_name, mod_name", "where": G + "utils.rs, default.rs"}], observe=["identifiers of the generated file"],
     note="All ASCII names; case conversion (Inflector) is an assumed contract cross-checked on witnesses. " + ASS, tech=SY)
prop("C15", "References name the item that declares the referenced type",
     "A reference to a complex or simple type declared in the same schema, from a field, attribute, alternative, list, base or nested type, is spelled exactly as the name of the item generated for that declaration, in every spelling of the reference (target prefix or unqualified). A reference with another prefix is the path of that name in a module named after the prefix, and a reference to an anonymous type goes to the module of its enclosing type and names the item generated in it.",
     ["inputs"], "for every type name and every target prefix or none",
     "tests compare whole output of sample schemas; names that change under case conversion, keywords and the same-prefix rule combine with each position",
     [G + "default.rs", G + "utils.rs", G + "struct.rs", G + "struct_field.rs", G + "enum_case.rs", G + "tuple_struct.rs", PA + "types.rs"],
     [{"name": "default_format_type, item names, submodule handling", "where": G + "default.rs, struct.rs, struct_field.rs"}], observe=["type paths and item names of the generated file"], note=PF + ASS, tech=SY)
prop("C16", "Schema documentation never becomes code",
     "Whatever text stands in documentation, alias and import declarations, the generated file has the same items as without it: every line of a documentation text is written as a line starting with two slashes directly before the item, field or alternative it documents. The words of the documentation appear in those lines complete and in order (lines of a single character may be dropped).",
     ["inputs"], "for every documentation text (any characters, line breaks and lengths) and every place documentation may stand",
     "tests use short one-line documentation; long words, line separators and comment-like text need the line-splitting loop to hold for all texts",
     [G + "default.rs", G + "utils.rs", G + "alias.rs", G + "import.rs", G + "struct.rs", G + "struct_field.rs", G + "enum.rs", G + "enum_case.rs", G + "tuple_struct.rs"],
     [{"name": "default_format_comment, split_comment_line", "where": G + "default.rs, utils.rs"}], observe=["comment lines of the generated file"],
     note="All texts; words and lines as sequences of unknown length with an inductive loop rule. " + PF + ASS, tech=SY)
prop("C17", "Generated validation enforces exactly the declared facets",
     "For a restriction of a simple type, the generated check accepts a value exactly when it satisfies every declared minInclusive, maxInclusive, minExclusive, maxExclusive, length, minLength and maxLength facet, and otherwise returns an error; a type without such facets accepts everything. Lengths of text are counted on ASCII text, and bounds are compared as values of the base type.",
     ["inputs"], "for every facet kind, combination and value, and every base type of the mapping",
     "tests compile validation for a couple of facets; boundaries and combinations are not executed",
     [G + "tuple_struct.rs", G + "validator.rs", PA + "restriction.rs"],
     [{"name": "validation, gen_facet_validation, gen_validate_impl", "where": G + "tuple_struct.rs"}], observe=["generated validate implementations, compiled and run"],
     note="Conditions for every facet, base type and value from MIR; a compiled sample decides the meaning of the emitted conditions (bounded). " + PF + ASS, tech=SY)
prop("C19", "Serialization names, namespaces and kinds follow the schema",
     "In the generated serde attributes every element and attribute field carries the local name declared in the schema (omitted at most when it equals the Rust identifier) and its prefix: the one written in the schema, else for elements the target prefix; attributes are marked as such and choice fields as flattened. Choice alternatives and enumeration values carry their wire name and written prefix in the same way. Every generated structure and every enum other than a union carries the target namespace, bound to the target prefix when there is one.",
     ["inputs"], "for every name, source kind, comment and target namespace (with and without prefix)",
     "tests compare sample output; each kind of field, prefix and rename combination is a separate branch",
     [G + "struct_field.rs", G + "enum_case.rs", G + "enum.rs", G + "struct.rs", G + "default.rs", G + "utils.rs"],
     [{"name": "yaserde attribute generation", "where": G + "struct_field.rs, enum_case.rs, default.rs"}], observe=["yaserde attributes of the generated file"], note=PF + ASS, tech=SY)
prop("C26", "Enumerations have one variant per declared value",
     "An enumeration restriction becomes an enum with exactly one variant per declared value, in order, whose wire name is the declared value, followed by a single catch-all variant that holds the text, and its default is the catch-all. An enumeration with a value that contains other characters than letters, digits and hyphens, or no ASCII letter or digit at all, becomes a wrapper of its base type instead.",
     ["inputs"], "for every list of values (those of an enum distinct as identifiers), with any base and documentation",
     "tests have a few enumerations of ordinary words; keywords, digits, hyphens and long lists are not reached",
     [G + "enum.rs", G + "enum_case.rs", G + "default.rs", PA + "restriction.rs"],
     [{"name": "enumeration restriction and enum generator", "where": PA + "restriction.rs, " + G}], observe=["enums of the generated file"], note=PF + ASS, tech=SY)
prop("C18", "Extension and attribute groups bring in exactly the declared fields",
     "A complex type that extends a complex type declared in the same schema - anywhere in it, and to any depth of extension - has its own fields first, followed by the fields of its base in order, leaving out those whose names it declares itself; the same holds for an anonymous nested type. A reference to an attribute group brings in exactly the attributes of that group, including those of the groups it refers to. The order of the declarations in the schema does not matter.",
     ["inputs"], "for every extension hierarchy and attribute group, in every order of declaration and at every nesting depth",
     "tests have one-level extensions declared after their base; orders, depth, name clashes and nested types multiply",
     [PA + "extension.rs", PA + "complex_content.rs", PA + "attribute_group.rs", PA + "schema.rs", PA + "node_parser.rs", PA + "types.rs", PA + "mod.rs"],
     [{"name": "extend_base, extend_attribute_group", "where": "xsd-parser/src/parser"}], observe=["fields of every generated structure"], note="Each function that resolves bases and groups, over opaque structures and an unknown map of types; recursion by its own contract. Precondition: no cycle of extensions, distinct type names. " + PF + ASS, tech=SY)
prop("C20", "Every WSDL operation becomes one function with its messages' types",
     "For every one-way and request-response operation of every port type of a WSDL document exactly one public async function is generated: port types by name, operations in document order, named as the operation. It takes the transport and one parameter per part of the input message (called request when there is only one), and returns the type of the first part of the output message, or () when there is none. Documentation appears only as comments, and the output is the same on every run.",
     ["inputs"], "for every WSDL document with any number of port types, operations, messages and parts",
     "tests translate two documents; the order of hash maps, missing outputs and the forms of parts need many",
     ["wsdl-parser/src/generator/mod.rs", "wsdl-parser/src/generator/function.rs", "wsdl-parser/src/parser/definitions.rs", "wsdl-parser/src/parser/port_type.rs", "wsdl-parser/src/parser/message.rs"],
     [{"name": "generate, Function::new, generate_function", "where": "wsdl-parser/src/generator"}], observe=["functions of the generated file"], note="All functions of the WSDL parser and generator on every WSDL 1.1 document of the domain (node model = roxmltree contract); Binding::new and whole documents bounded. Assumed: unique names, an operation that starts with its input, a target prefix other than transport, NCName attribute values. " + ASS, tech=SY)
D = "xsd-macro-utils/src/"
prop("C21", "List and wrapper types read and write what their inner type does",
     "A value of a derived wrapper type is read from text exactly when its inner type accepts that text, and holds the inner value; it is printed as the inner value. A derived list type reads the text split at white space, accepting it exactly when every item is accepted by the item type, with the items in order, and prints the items joined by single spaces. Reading an XML element and writing one use exactly these texts, so that a printed value reads back as an equal value when its items do.",
     ["inputs"], "for every text, every number of items and every inner type",
     "tests parse two lists; a rejected item in the middle, empty lists and white space of all kinds are not sampled",
     [D + "tuple.rs", D + "lib.rs", "xsd-types/src/utils/yaserde.rs"],
     [{"name": "UtTupleIo derive: from_str, to_string, default serde", "where": D}], observe=["value, error and XML of derived types"],
     note="Code expanded from the derives, over an opaque inner type and for the mapping's types. Assumed: yaserde and xml-rs event contracts, std.", tech=SY)
prop("C22", "Unions take the first member type that accepts the text",
     "Reading a generated union gives the first of its member types, in the order of declaration, that accepts the text, and otherwise the catch-all alternative that holds the text; a value of a member writes that member's text. A union restriction becomes an enum with one alternative per member type, those listed in memberTypes first, then the inline types, followed by one catch-all.",
     ["inputs"], "for every text and every sequence of member types",
     "tests parse one union with two members; overlap between members and the order of trials decide the result",
     [D + "union.rs", D + "lib.rs", PA + "union.rs", G + "enum.rs", G + "enum_case.rs"],
     [{"name": "UtUnionSerDe derive, union parser and generator", "where": D + ", " + PA + "union.rs"}], observe=["alternative chosen and text written"],
     note=PF + "Code expanded from the derive, over opaque member types. Assumed: yaserde and xml-rs event contracts, std.", tech=SY)
prop("C23", "The tools write exactly the generated code, or fail",
     "Given a file, each command-line tool either writes exactly the code of that document to the output file (replacing what was there) or to standard output followed by a newline, or ends with a nonzero status; given a directory it does so for every file in it and its subdirectories, each to the same relative path with extension rs under the output directory, which is created when missing. The code is that of the library with the default generator; for a WSDL document the code of every embedded schema in document order, with its base types and attribute groups resolved and the namespaces in scope, then the code of its operations. A failure to read, parse or write is never swallowed, and no other file is touched.",
     ["inputs", "faults"], "for every path, content, directory tree, pre-existing output and failure of a file operation",
     "no test runs the tools; longer old output, failing writes, embedded schemas and nested directories decide the result",
     ["xsd-parser-cli/src/main.rs", "wsdl-parser-cli/src/main.rs", "xsd-parser/src/parser/mod.rs", "wsdl-parser/src/parser/types.rs"],
     [{"name": "main, process_dir, process_single_file, load_file, write_to_file of both tools", "where": "xsd-parser-cli/src/main.rs, wsdl-parser-cli/src/main.rs"}],
     observe=["files, standard output and exit status of the tools"],
     note="Symbolic paths, contents and failures; directories of any size by induction. Library functions by contract. Assumed: std::fs, std::io, std::path, anyhow and clap contracts; a directory does not change while it is read.", tech="deductive: MIR symbolic contracts with a ghost log of file operations (dv); runs of the tools bounded")
prop("C24", "Generation is deterministic, compositional and repeatable",
     "The file generated for a schema is the concatenation of the texts of its declarations in document order, each generated once with the namespaces of that schema. Generating the same parsed schema again - with the same generator, one used for other schemas before, or a new one - gives the same text, and reordering declarations reorders the texts without changing them, up to the fields a declaration inherits.",
     ["inputs", "histories"], "for every schema with any number of declarations, every generator history and every order of declarations",
     "tests generate each schema once with a new generator",
     [G + "mod.rs", G + "builder.rs", G + "struct.rs", G + "utils.rs", PA + "mod.rs"],
     [{"name": "Generator::generate_rs_file, StructGenerator::fields", "where": G + "mod.rs, struct.rs"}], observe=["text of generated files"],
     note="generate_rs_file for any number of declarations over symbolic namespaces. Whole schemas (repetition, reuse, permutation) are bounded. " + ASS, tech=SY)
prop("C25", "Every global declaration gives its item exactly once, in order",
     "Every global type declaration, and every global element or attribute declaration with a type of its own, gives exactly one public item of the kind of its content, in document order; items of nested anonymous types appear once, in order, in the module of their declaration. A global element or attribute that refers to a type gives only a comment line naming the alias (// pub type X = Y;), an import only a comment, and annotations and attribute groups nothing.",
     ["inputs"], "for every schema with any number, kind, nesting and order of declarations",
     "tests compare a few dozen schemas; which combination loses, doubles or moves a declaration is open",
     [PA + "schema.rs", PA + "node_parser.rs", PA + "element.rs", PA + "attribute.rs", PA + "complex_type.rs", PA + "simple_type.rs", G + "alias.rs", G + "import.rs", G + "struct.rs", G + "enum.rs", G + "tuple_struct.rs"],
     [{"name": "generate_rs_file, entity generators, parse_schema", "where": G + ", " + PA}], observe=["items and comment lines of the generated file"],
     note="Alias and import text and nested items for every entity; whole schemas against a reference translation are bounded. " + PF + ASS, tech=SY)
