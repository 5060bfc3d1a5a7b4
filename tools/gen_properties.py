#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["observe_at"] = observe or ["JSON returned by the library entry points / printed by the CLI"]
    d["anchors"]["hook_needed"] = None
    P.append(d)

prop("C01", "Compiled JSON states exactly what the IDL declares",
 "For every accepted IDL file, the compiled JSON contains exactly the declared records, errors, enums, fixed types, fields, messages and parameters, each with its declared kind, name, symbols, size, enum default, type expression (however nested), one-way flag and throws list. Order is preserved: fields, symbols, union branches, parameters and thrown errors appear in source order, types appear in declaration order except where already inlined by an earlier one, and messages are keyed by their names. Nothing is added, dropped, merged or moved from one declaration to another.",
 ["programs"], "All protocols built from up to a bounded number of declarations, fields, declarators, parameters and thrown errors, with type expressions nested to a bounded depth.",
 "The tests compile a few dozen hand-written files and compare snapshots; a fault that needs a particular combination of declarations (two declarators sharing one type, an error after a record, a nested container inside a union in a throws-ing message) is not among them.",
 ["src/reader.rs", "src/model/json.rs", "src/compiler.rs"],
 [("IDL tree walk", "src/reader.rs walk_*"), ("JSON serialisation", "src/model/json.rs schema_to_json / message_to_json / protocol_to_json")])

prop("C02", "Every name in the output denotes the type the IDL source names",
 "Read by the naming rules of the Avro specification, each type in the output (protocol, schema or extracted schema) has the full name the source gives it (a dotted name wins over a namespace annotation, which wins over the enclosing namespace), and each reference and alias denotes the full name the source reference resolves to (dotted references are absolute; simple ones belong to the namespace in force where they are written, which inside a record is that record's own). This holds wherever the type is first defined in the output, including types whose namespace is empty or whose simple name equals a built-in type keyword.",
 ["programs"], "All combinations of protocol namespace, per-type namespace annotation, dotted declaration names, simple or dotted references, aliases, imported files with and without a namespace, and nesting of one type inside another.",
 "Snapshot tests pin a handful of namespace layouts textually; whether a shortened or inherited name still denotes the right type depends on where it is inlined, which multiplies with every pair of namespaces.",
 ["src/reader.rs", "src/model/json.rs", "src/model/schema.rs", "src/compiler.rs"],
 [("namespace computation", "src/reader.rs compute_namespace / extract_name"), ("reference shortening and namespace omission", "src/model/json.rs schema_ref_name / named_type_preamble / alias_ref_name"), ("lookup keys", "src/model/json.rs build_lookup")])

prop("C03", "Named types are defined exactly once, before use, and output is closed",
 "In every protocol, schema or extracted schema produced, each named type that is used is written out in full exactly once, at its first occurrence in document order, and by name at every later occurrence; no name is left without a definition. A type is never inlined inside itself, and a protocol's type list never repeats a type already defined inside an earlier entry of that list (types are read before messages).",
 ["programs"], "All reference graphs (including self, mutual and forward references, through arrays, maps, unions, nullable types, messages and throws lists) over a bounded number of named types in every declaration order.",
 "Definition-before-use depends on the traversal order of the whole reference graph; the tests hold a few graphs of the hundreds of thousands that exist already with three types.",
 ["src/model/json.rs", "src/compiler.rs"],
 [("inline-at-first-use with a set of known names", "src/model/json.rs schema_to_json"), ("top-level types already inlined are skipped", "src/model/json.rs protocol_to_json"), ("per-schema extraction", "src/compiler.rs extract_impl")])

prop("C04", "Compilation succeeds only if every reference resolves and names are unique",
 "A file whose references all resolve to a declared or imported type (declared before or after the use) and in which no type, field, message parameter or enum symbol is declared twice is never rejected for its names. If any reference in a field, container, union, message parameter, response, throws list or schema declaration denotes no declared type, or a type is declared twice in IDL, or a field, parameter or symbol twice in one declaration, compilation fails, produces no output, and the message names the offending name.",
 ["programs"], "All placements of resolvable and unresolvable references at each reference position, crossed with declaration order, namespaces, nesting and duplicate declarations.",
 "Tests exercise one undefined reference per construct at most; a traversal that forgets one position (say, a map nested in a throws-ing message's parameter) passes them all.",
 ["src/compiler.rs", "src/resolve.rs", "src/reader.rs"],
 [("reference validation over registry and messages", "src/compiler.rs validate_all_references"), ("registration", "src/resolve.rs SchemaRegistry::register"), ("duplicate checks", "src/reader.rs walk_record / walk_enum / walk_message")],
 observe=["Result of the library entry points; error text"])

prop("C05", "Imports contribute each file once, at the import, whatever the graph",
 "Compiling a file with imports of any kind (idl, protocol, schema) yields the types and messages of every transitively imported file exactly once each, placed where the first import reaching that file stands, no matter how many paths or cycles lead to it; if the importing protocol declares a message that an import also declares, its own wins. An import path is looked up first relative to the importing file and then in the import directories in the order given, and a path found nowhere is an error that produces no output.",
 ["histories", "configurations", "programs"], "All import graphs over a bounded number of files (including self-imports, diamonds and cycles), with each edge of each kind, in every position among the declarations, and all placements of candidate files over the search path.",
 "The tests cover a few linear chains and one cycle; the order, once-only and search-order guarantees are about all graphs and all placements.",
 ["src/compiler.rs", "src/import.rs"],
 [("import-once set keyed by canonical path", "src/import.rs ImportContext::mark_imported"), ("search order", "src/import.rs ImportContext::resolve_import"), ("in-place recursive processing", "src/compiler.rs process_decl_items / resolve_single_import")],
 state=[("imported set", "canonical paths already processed", "src/import.rs ImportContext"), ("registry", "types in registration order", "src/resolve.rs SchemaRegistry")])

prop("C06", "A default value is accepted exactly when it is valid for the field's type",
 "For every field type whose referenced types are declared before the field, a JSON default is accepted if and only if the Avro specification admits it for that type (numeric ranges of int and long, strings for string, bytes, fixed and enum, element-wise for arrays and maps, any branch for unions, and for records an object giving a valid value to every field that has no default of its own), and an accepted default reaches the output unchanged. The same rule applies to message-parameter defaults of built-in, container and union types, and a rejected default names the field and is reported against the file.",
 ["inputs", "programs"], "All pairs of a field type (nested to a bounded depth, including logical types, nullable types and references) and a JSON value (nested to a bounded depth, with integers at every range boundary).",
 "The acceptance rule is a relation between two infinite sets; the tests sample a few dozen pairs.",
 ["src/model/schema.rs", "src/reader.rs", "src/compiler.rs"],
 [("default check by type", "src/model/schema.rs is_valid_default"), ("defaults of referenced types", "src/model/schema.rs validate_record_field_defaults / resolve_for_validation"), ("field default handling", "src/reader.rs walk_variable")])

prop("C07", "Literals keep their exact value from IDL to JSON",
 "Every integer literal (decimal, hexadecimal or octal, with or without a minus sign or a long suffix) that fits in 64 bits, every floating-point literal (decimal, hexadecimal, suffixed, NaN, Infinity), every quoted string with its escapes (octal, unicode, surrogate pairs, standard) and every nested array or object written in a default or annotation appears in the output as exactly the value it denotes. Integers outside 64 bits are rejected rather than altered.",
 ["inputs"], "All integer literals near every power-of-two and radix boundary in every spelling, all short floating-point spellings, and all strings up to a bounded length over the escape alphabet.",
 "Literal decoding bugs hide at boundary values and escape combinations; the tests contain one or two per category.",
 ["src/reader.rs", "src/model/json.rs"],
 [("integer literals", "src/reader.rs parse_integer_literal / parse_integer_as_u32"), ("float literals", "src/reader.rs parse_floating_point_literal"), ("string literals", "src/reader.rs get_string_from_literal / unescape_java")])

prop("C08", "Annotations land on the element they annotate, and reserved ones are refused",
 "Every custom annotation on a protocol, named type, field type, variable, array, map or message appears in the output as an attribute of exactly that element with exactly its JSON value (the last one wins if repeated), annotations with a defined meaning (namespace, aliases, order) take effect as such where they apply, and on a nullable type they go to the non-null branch. Annotations naming an attribute Avro reserves for that element, or annotating a reference to a named type (as a field's, parameter's or message's type), are rejected, and none ever overrides a structural attribute of the element.",
 ["programs"], "All pairs of annotation position and annotation name (reserved, meaningful or custom) with values of every JSON shape, singly and in pairs.",
 "The reserved and meaningful sets differ per position; the table of positions by names by value shapes is far larger than the tests sample.",
 ["src/reader.rs", "src/model/json.rs", "src/model/schema.rs"],
 [("annotation walk with per-position rules", "src/reader.rs walk_schema_properties / PropertyContext"), ("application to types", "src/reader.rs apply_properties"), ("output of extra attributes", "src/model/json.rs finish_named_type / field_to_json")])

prop("C09", "Doc comments attach to the declaration they precede and are never lost",
 "A documentation comment becomes the documentation of the declaration (protocol, named type, field, variable or message) it immediately precedes, with comment decoration and common indentation removed and the text otherwise intact; a variable without its own comment takes the one on its field. Every documentation comment that belongs to no declaration is reported by exactly one warning giving its position, and ordinary comments never become documentation.",
 ["programs"], "All placements of up to a bounded number of documentation and ordinary comments over every gap between tokens of template files, and all comment bodies up to a bounded length over an alphabet of text, stars, blanks and line ends.",
 "Attachment depends on which gap a comment occupies and which comments precede it; the tests sample a few gaps and a few bodies.",
 ["src/doc_comments.rs", "src/reader.rs"],
 [("backward scan for the nearest doc comment", "src/doc_comments.rs extract_doc_comment"), ("indent stripping", "src/doc_comments.rs strip_indents"), ("orphan detection", "src/reader.rs collect_orphaned_doc_comment_warnings")])

prop("C10", "No input makes the compiler panic, abort or hang",
 "For every UTF-8 source text (any length, any characters, nested no deeper than a stated bound) and every content of an imported file, each library entry point returns normally with success or an error, and the command exits with a normal status. Every error and warning it returns can be rendered.",
 ["inputs"], "All texts up to a bounded length over a token alphabet that includes multi-byte characters, unterminated constructs and control characters, and all single and double edits (deletion, duplication, replacement, insertion) of template files and imported JSON files.",
 "Panics live in byte slicing, index arithmetic and unwraps reached only by malformed or non-ASCII inputs; the tests use well-formed ASCII almost everywhere.",
 ["src/reader.rs", "src/compiler.rs", "src/import.rs", "src/error.rs", "src/doc_comments.rs"],
 [("error listener and error refinement", "src/reader.rs CollectingErrorListener / refine_errors_with_source"), ("span construction", "src/reader.rs span_from_offsets / make_diagnostic"), ("JSON import", "src/import.rs")],
 observe=["Normal return of the library entry points; process exit status"])

prop("C11", "Exactly the Avro IDL language is accepted",
 "A text is accepted as syntactically valid if and only if it is a sentence of the Avro IDL grammar: every sentence compiles (up to naming and typing rules), and every text with a missing, superfluous, misplaced or misspelled token is rejected with an error and no output. (Characters that belong to no token are skipped with a warning, as the reference implementation does.)",
 ["inputs"], "All token sequences derived from the grammar to a bounded size, and all their single-token deletions, insertions, replacements and swaps, judged by an independent recogniser.",
 "Grammar acceptance quantifies over all token sequences; tests contain some valid files and a few dozen broken ones, and error recovery in the parser can silently accept what it should refuse.",
 ["src/generated/idlparser.rs", "src/generated/idllexer.rs", "src/reader.rs"],
 [("generated parser", "src/generated/idlparser.rs"), ("syntax errors are fatal", "src/reader.rs parse_idl_named")])

prop("C12", "Output depends only on the input, never on history or run",
 "Compiling the same file with the same import directories always gives byte-identical JSON, warnings and errors: in a fresh process, repeated in one process, and on a compiler object that has already been used for any sequence of other successful or failing compilations. A compiler object's import directories accumulate in order across calls and nothing else carries over.",
 ["histories"], "All operation sequences (add an import directory; compile a file or text that succeeds, warns, fails to parse, fails to resolve, imports or is missing; drain warnings) up to a bounded length on one object, compared with fresh objects, plus repeated fresh processes.",
 "Tests call each builder once or twice; leaked state and hash-order dependence show only in particular call sequences or between runs.",
 ["src/compiler.rs", "src/import.rs", "src/reader.rs", "src/model/json.rs"],
 [("per-call compilation state", "src/compiler.rs CompileCore::compile"), ("ordered maps in output", "src/model/json.rs")],
 state=[("import_dirs", "search path kept across calls", "src/compiler.rs"), ("accumulated warnings", "warnings of the last failing call", "src/compiler.rs")],
 observe=["Results of successive calls on one builder"])

prop("C13", "Warnings are complete, delivered once, and belong to the latest call",
 "A successful compilation returns all warnings of the main file and of every imported IDL file, once each and in processing order; after a failing compilation the warnings of every file read before the failure (and of the failing file, if it was syntactically valid) can be drained once, and no warning of an earlier call is ever delivered with or after a later one. Warnings never change the output or turn success into failure, and the command prints them on standard error in both cases.",
 ["histories", "programs"], "All operation sequences up to a bounded length over warning and non-warning, succeeding and failing inputs (including missing files and directories), with warnings in main and imported files.",
 "The contract spans several calls and files; tests look at one call at a time.",
 ["src/compiler.rs", "src/main.rs", "src/reader.rs"],
 [("warning accumulation and draining", "src/compiler.rs CompileCore"), ("warnings of imported files", "src/compiler.rs resolve_single_import"), ("stderr output", "src/main.rs")],
 observe=["warnings field, drain_warnings, stderr"])

prop("C14", "The command writes exactly the compiled result, or fails and writes nothing",
 "For every way of naming input (file, standard input, absent or '-') and output (file, standard output, absent or '-'), the idl command exits 0 with the same JSON on the requested output and nothing else on standard output, or exits non-zero with a diagnostic on standard error; if the input does not compile or the usage is invalid it neither creates nor alters any file. Invalid usage always exits non-zero with a message on standard error, help and version exit 0.",
 ["configurations", "fault_sequences"], "All combinations of input kind, output kind (new, existing, directory, in a missing directory, read-only), import-directory options, argument orders, program validity and malformed command lines up to a bounded number of arguments.",
 "The CLI tests cover about one case per feature; the combinations of input, output and failure are what a build script depends on.",
 ["src/main.rs"],
 [("argument parsing", "src/main.rs parse_idl_args"), ("compile before write", "src/main.rs run_idl / write_output")],
 observe=["exit status, stdout, stderr, file tree"])

prop("C15", "idl2schemata writes one self-contained file per named type, and only those",
 "For an accepted input the idl2schemata command writes, for each named type declared or imported by the file, one file named after its simple name holding its self-contained schema, creating the output directory if needed and touching nothing else; for a directory it treats every .avdl file below it, in name order, as if given separately. If any input fails to compile, or part of the directory cannot be read, it exits non-zero and writes no file.",
 ["configurations", "programs"], "All small directory trees of valid, invalid, importing and non-IDL files, in every nesting and naming order, with every kind of output path.",
 "Tests use one directory of fixed files; failure atomicity and traversal order need all combinations of good and bad files.",
 ["src/compiler.rs", "src/main.rs"],
 [("directory walk", "src/compiler.rs extract_directory"), ("extraction", "src/compiler.rs extract_impl"), ("file writing", "src/main.rs run_idl2schemata")],
 observe=["file tree, exit status, returned schemas"])

prop("C16", "Importing schema or protocol JSON preserves its meaning",
 "Importing a protocol or schema JSON file that is valid Avro contributes every named type (however deeply nested) and message in it with unchanged full name, fields, symbols, types, defaults, docs, aliases, order and extra attributes; comments in the JSON are ignored. Consequently, compiling any IDL file and importing the JSON it produced reproduces the same protocol or schema.",
 ["programs", "inputs"], "All JSON schemas and protocols up to a bounded size over every schema form, and all compiled outputs of the bounded program families re-imported.",
 "Preservation is claimed for every valid JSON file; tests import a few fixtures.",
 ["src/import.rs", "src/compiler.rs", "src/model/json.rs"],
 [("JSON schema parsing", "src/import.rs json_to_schema and helpers"), ("flattening of nested named types", "src/import.rs flatten_schema"), ("comment stripping", "src/import.rs parse_json_with_comments")])

prop("C17", "Logical types are emitted with the right base type and checked parameters",
 "Each logical type keyword (date, time_ms, timestamp_ms, local_timestamp_ms, uuid, decimal) and each logicalType annotation compatible with its primitive or fixed base yields exactly the base type and logical attributes the Avro specification prescribes. A decimal is accepted exactly if its precision is at least 1 and its scale lies between 0 and the precision, and an annotation that does not fit its base type stays a plain attribute without changing the type.",
 ["programs", "inputs"], "All logical types by all base types by all positions by precision, scale and size values around every boundary, written as keyword or annotation.",
 "The table of names, bases and parameters is large and the tests pin only its most common entries.",
 ["src/reader.rs", "src/model/schema.rs", "src/model/json.rs"],
 [("keyword types", "src/reader.rs walk_primitive_type"), ("promotion of annotations", "src/reader.rs try_promote_logical_type"), ("fixed check", "src/model/schema.rs validate_logical_type_on_fixed")])

prop("C18", "Unions are valid Avro unions and nullable types keep their defaults first",
 "A union is accepted exactly if no two branches have the same type (unnamed types by kind, named types by full name, logical types by their base) and no branch is itself a union or nullable type, and its branches are emitted in source order. A nullable type is emitted as a union with null first, except that a non-null default on a field puts null second, and a null default always goes with null first.",
 ["programs"], "All unions of up to a bounded number of branches over every kind of type (including references, logical types, containers and annotated types), and all nullable types crossed with every default and position.",
 "Pairs and triples of branch kinds by position by default form a table the tests touch at a few cells.",
 ["src/reader.rs", "src/model/schema.rs"],
 [("union checks", "src/reader.rs walk_union_type / AvroSchema::union_type_key"), ("nullable order", "src/reader.rs fix_optional_schema / walk_nullable_type")])

prop("C19", "Layout and ordinary comments never change the result",
 "Changing only the white space (blanks, tabs, form feeds, LF or CRLF line ends) or inserting ordinary comments between tokens of a file, or appending anything after an end-of-file control character, leaves the compiled JSON unchanged. Quoting an identifier with backticks never changes the result either.",
 ["inputs"], "All assignments of separators from a bounded alphabet to every token gap of template files covering every construct (one and two deviating gaps), plus all-gap uniform styles.",
 "Each gap of each construct can hide a position-dependent fault; tests use conventional formatting.",
 ["src/generated/idllexer.rs", "src/reader.rs", "src/doc_comments.rs"],
 [("lexer channels", "src/generated/idllexer.rs"), ("identifier quoting", "src/reader.rs identifier_text"), ("SUB handling", "src/reader.rs parse_idl_named")])

prop("C20", "Diagnostics point at the offending text of the right file",
 "Every error and warning that carries a source location names the file that contains the problem (the imported file if it is there) and marks a non-empty range, on character boundaries inside that file, that is the offending name, value, annotation, comment or token itself, or the declaration, statement or token sequence it belongs to (for a declaration or value possibly just its first token). The first syntax error reported (apart from a note that a brace is never closed) is not blamed on text behind the first token that cannot continue a valid file, and a line and column stated in a message are those of a token concerned. A file with several undefined references reports each of them once, in source order of declarations.",
 ["inputs", "programs"], "All placements of one or two faults of every class at every position of template files, in the main file or an imported one, preceded by ASCII or multi-byte text.",
 "Span tests exist for some errors in ASCII files; offsets go wrong only with particular preceding text, import nesting or multiple errors.",
 ["src/reader.rs", "src/error.rs", "src/compiler.rs"],
 [("span construction", "src/reader.rs make_diagnostic / span_from_context"), ("lexer error offsets", "src/reader.rs line_col_to_byte_offset"), ("undefined-reference reports", "src/compiler.rs validate_all_references"), ("import error wrapping", "src/compiler.rs wrap_import_error")],
 observe=["labels and source names of returned reports"])

prop("C21", "Suggestions name a real, close alternative",
 "When an undefined name is reported with a 'did you mean' hint, the hint names a built-in type or a type that exists in the compilation and lies within the edit-distance bound for the name's length, and no other candidate is closer; if no candidate lies within the bound there is no such hint. Distances count characters, whatever alphabet the names use. A hint at a misspelled keyword in a syntax error likewise names a keyword within the bound, and no other keyword is closer.",
 ["inputs"], "All pairs of an undefined name and a set of declared names up to a bounded length over an alphabet with ASCII and multi-byte letters, with and without namespaces.",
 "Distance computations go wrong for particular length and alphabet combinations that the ASCII examples in the tests do not include.",
 ["src/suggest.rs", "src/compiler.rs"],
 [("edit distance", "src/suggest.rs levenshtein"), ("threshold", "src/suggest.rs max_edit_distance"), ("candidate choice", "src/compiler.rs suggest_similar_name")],
 observe=["help text of the undefined-name error"])

prop("C22", "Names are valid Avro names, never shadow built-in types, and arrive unchanged",
 "A type declared in IDL is accepted exactly if every dot-separated part of its full name is non-empty, starts with a letter or underscore and continues with letters, digits or underscores, and its simple name is not a built-in type name; a field, parameter or enum symbol exactly if its name is one such part. Message and property names may be any identifier. IDL keywords may be used as names wherever the grammar allows an identifier. Whether quoted in backticks or not, and whatever letters it consists of, an accepted name reaches the output unchanged (or, where characters were dropped, with a warning). Non-standard aliases are kept and reported by one warning each.",
 ["inputs", "programs"], "All names up to a bounded length over an alphabet of ASCII and non-ASCII letters, digits, underscores, dots and dashes, in every way of quoting their parts; all keywords and built-in names alone, prefixed, suffixed and in pairs; and every Unicode character (up to a bound in the quick check) as first and later character; each in every naming position (protocol, record, error, enum, fixed, field, symbol, message, parameter, property, reference, throws, alias, namespace).",
 "Name handling differs per position; tests try a few keywords and a few invalid names in some positions.",
 ["src/resolve.rs", "src/reader.rs", "src/model/json.rs"],
 [("name validation", "src/resolve.rs is_valid_avro_name / validate_schema_name"), ("reserved type names", "src/reader.rs is_invalid_type_name"), ("identifier quoting", "src/reader.rs identifier_text")])

prop("C23", "idl and idl2schemata agree on every input",
 "For every file with a protocol or a main schema, idl2schemata succeeds exactly if idl succeeds; if so it extracts every named type the compiled output defines (and, for a protocol, no other), once each and in declaration order, and each extracted schema is self-contained and denotes the same type, with the same full name and the same contents, as in idl's output. If not, both report the same error. Both give the same warnings, and compiling from a string gives the same result, errors and warnings as compiling the same text from a file beside the same imports.",
 ["programs"], "All sequences of declarations (imports, types, messages; valid and invalid) up to a length, alone or completed with what they refer to, under every kind of header, and single-token edits of larger files; each run through both entry points and both input forms.",
 "The two tools share a front end but have separate output paths; agreement is a relation over all programs that no sampled snapshot settles.",
 ["src/compiler.rs", "src/model/json.rs"],
 [("protocol output", "src/compiler.rs convert_impl"), ("schema extraction", "src/compiler.rs extract_impl"), ("input forms", "src/compiler.rs compile_file / compile_str")],
 observe=["results of both entry points"])

prop("C24", "Schema files compile to their main schema with all its types inlined",
 "A file with a schema declaration compiles to that schema exactly (any type expression, with its annotations, in the declared namespace), with every referenced named type, declared in the file or imported, inlined at its first use; unused types are checked but not emitted. A file with only named types is refused by idl and extracted by idl2schemata, and a schema file accepts no messages, no protocol body and no second header.",
 ["programs"], "All main-type expressions to a nesting depth over declared, imported and built-in types (and all pairs in unions), over several sets of declarations in every order, with every way of importing, with and without a namespace declaration; all placements of protocol-only parts in schema files.",
 "Few tests use schema files, and the namespace and inlining rules differ from those of protocols.",
 ["src/reader.rs", "src/compiler.rs"],
 [("schema-file walk", "src/reader.rs walk_idl_file"), ("schema output", "src/compiler.rs convert_impl")])

prop("C25", "Concurrent compilations do not affect each other",
 "Any number of compilations running at the same time in one process, on separate compiler objects, each give the result (output, warnings, error) they would give alone, and none waits for another for ever.",
 ["schedules"], "Two or three concurrent compilations (strings and files, valid, with warnings and with errors, either tool), started in a fresh process or one that has compiled before; all schedules with one preemption at a visible operation (atomic operation, access to a global, lock wake, file, environment or working-directory call) that conflicts with the other compilation, and with two or three preemptions at conflicts about rarely accessed locations.",
 "Tests run in parallel threads but check nothing about interference, and any interleaving-dependent fault would need a particular schedule.",
 ["src/compiler.rs", "src/reader.rs", "src/doc_comments.rs", "src/generated/idlparser.rs", "src/generated/idllexer.rs"],
 [("parser caches shared by all threads", "static ATN/DFA caches of the parser runtime used by src/generated"), ("lazily built patterns", "src/doc_comments.rs statics")],
 observe=["results of concurrent calls"])

prop("C26", "A broken import is refused, wherever it is broken",
 "If an imported JSON file is not one JSON document (comments allowed), or is a protocol without a name or with types that are no list, or anything in it at any depth that has to be a schema, field or message is not one (a value that is no schema, an unknown type, a named type without a valid name, a record without fields, an enum without string symbols, a fixed without a size, an array without items, a map without values, a field or parameter without name or type, a message without request or response, errors that are no list), or if an imported IDL file contains a syntax error, then compiling any file that imports it, directly or not, fails with no output and a report naming the imported file; no part of such a file is silently dropped. Structurally valid Avro is never refused for its structure.",
 ["inputs", "configurations"], "All documents one or two structural edits (a value replaced, a member added, removed or misshapen) away from a rich protocol and a rich schema, every broken and whole piece at every place of a schema or message to a nesting depth, all combinations of missing and misshapen parts of messages and protocols, all prefixes and single-byte edits of a document, and all token edits of imported IDL files; each reached directly and through other files, with both tools.",
 "A handful of tests import a malformed file; each way of being broken, at each depth and place, takes its own path through the importer, and a part dropped silently looks like success.",
 ["src/import.rs", "src/compiler.rs"],
 [("JSON reading", "src/import.rs json_to_schema, json_to_field, json_to_message, import_protocol, import_schema"), ("report at the import", "src/compiler.rs resolve_single_import")])

prop("C27", "What a syntax error says about the text is true",
 "Whatever a report of a syntax error states about the source holds of its tokens (comments, strings and layout never count as code, and no word is a part of another): the unexpected token is shown whole and stands at the marked place; each token named as expected or missing could stand there; a construct or brace called unclosed, an annotation called misplaced or without value, a word called misspelled, a list called empty, a comma called trailing or a number called out of place is one. The same tokens in another layout give the same statements.",
 ["inputs"], "All files one token edit (deletion, replacement by, or insertion of any of some fifty tokens) or a cut away from three rich templates, and pairs of edits close to each other over a smaller vocabulary, each in five layouts with misleading comments, line ends and doc comments between the tokens.",
 "The tests hold about twenty broken files in one layout each; explanations are chosen by patterns over the parser's message and the text, so that a wrong one needs a particular word, comment or neighbour.",
 ["src/reader.rs", "src/error.rs"],
 [("explanations of syntax errors", "src/reader.rs build_unexpected_token_error, refine_errors, detect_* and sanitize_antlr_message")],
 observe=["the report of the error: message, label, help and span"])

prop("C28", "What a report says about a program refused for its meaning is true",
 "Whatever the report of a syntactically well-formed program that is refused states about it holds of it: a field, parameter, symbol, union branch or type called duplicate is declared twice in the construct named; a default called invalid is the default of that field of that record, and the reason given (kind of value expected and got, range, missing fields, element, key or field at fault) is one for which it is no value of the type; a name called undefined, illegal or invalid is so and occurs; an annotation called reserved, ill-typed or conflicting is there; a precision, scale or size called out of range is; an import called missing cannot be found in the directories listed; files named are the imported ones. This includes the secondary problems attached to a report.",
 ["inputs", "configurations"], "Programs of many alike constructs (the same member names in every record, message and enum) with each of some eighteen hundred faults at every place, pairs of faults, the faulty part in an imported file, all default values and types to a depth of composition in records, errors and second variables, missing imports at every depth of import and set of directories, and all pairs of general edits of a program of every construct.",
 "Tests pin the report of one fault in a program with one such construct, where nothing else could be named; a wrong owner, wrong reason or wrong member shows only among alike constructs, at the second of two, or in nested values.",
 ["src/reader.rs", "src/model/schema.rs", "src/resolve.rs", "src/compiler.rs", "src/import.rs"],
 [("reasons for refused defaults", "src/model/schema.rs validate_default_in"), ("semantic errors", "src/reader.rs walk_*"), ("undefined and duplicate names", "src/compiler.rs, src/resolve.rs"), ("imports", "src/import.rs resolve_import")],
 observe=["the report of the error: messages, labels, help and related problems"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
