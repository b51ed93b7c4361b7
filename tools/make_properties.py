"""Writes properties.jsonl (kept as a script so the text stays readable)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    anchors = {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe,
        "hook_needed": None,
    }
    if state:
        anchors["state"] = [
            {"name": n, "meaning": m, "where": w} for n, m, w in state
        ]
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": anchors,
        }
    )


A = "asn1_parser/"
GE = A + "asn1/grammar_elements/"
BUILD = A + "asn1/asn1_bundle_builder.py"
PROC = A + "asn1/processor.py"
VAL = A + "asn1/validation/asn1_bundle_validator.py"
GRAM = A + "asn1/grammar.py"
PARSER = A + "asn1/parser.py"
GEN = A + "generators/generator.py"
CFS = A + "generators/cfs/generator.py"
SORT = A + "generators/cfs/module_sorter.py"
CG = A + "generators/c/generator.py"
BIN = A + "generators/binary/generator.py"
COS = A + "generators/cosmos/generator.py"
TPL = A + "generators/cosmos/templates.py"
PRN = A + "c_printer.py"
CDATA = A + "c_data.py"
SIZE = A + "utils/size.py"
MAIN = A + "main.py"
CLI = A + "cli/cli_arg_parser.py"

prop(
    "C01",
    "The parsed model contains exactly what the ASN.1 text says",
    "For every well-formed set of ASN.1 modules, the model obtained by parsing the texts has exactly the modules, imports, definitions, members, types, ranges, lengths, component values and comments written in the texts, in the order of the texts (numbered enumeration items in the order of their numbers). Nothing is dropped, added, reordered or changed, however many items there are and however deeply they are nested. The minimal size in bits which the model reports for a member, an enumeration or a definition (those containing arrays or choices aside) is the one its range, length or number of items needs.",
    ["inputs"],
    "all well-formed module sets: any number and nesting of definitions, members, components and imports, any numeric bounds, any names and comments the grammar allows",
    "The unit tests parse a few dozen hand-written texts of at most a handful of members each and compare selected attributes; they cannot cover all combinations of names, bounds, nesting depths and list lengths.",
    [GRAM, PARSER, PROC, BUILD, GE],
    [
        ("textX grammar", GRAM),
        ("object processors (types, booleans, enumerations, comments)", PROC),
        ("linking of imports and types", BUILD + " _resolve_dependencies/_resolve_types"),
        ("sizes", SIZE + " get_bit_size"),
    ],
    ["getters of the parsed bundle: modules, imports, definitions, children, types, ranges, components, comments"],
)
prop(
    "C02",
    "Enumerations are numbered 0..n-1 as written, and anything else is rejected",
    "The items of an enumeration without any numbers are numbered 0, 1, 2, ... in the order in which they are written; items which all have explicit numbers forming a permutation of 0..n-1 keep exactly these numbers, in the parsed model, in the C enumeration and in the COSMOS states, where they are listed in the order of their numbers. An enumeration whose items all have explicit numbers is rejected by every generator, without any output, if a number is repeated, missing, negative or larger than n-1. The C type holds every item and the bit fields and COSMOS items of the enumeration are just as wide as its largest number needs (at least one bit).",
    ["inputs"],
    "all enumerations: any number of items, any permutation of explicit numbers, any set of invalid numbers; used from the same or another module",
    "The tests number at most a handful of items, in a few orders, with one or two invalid examples; repeated and missing numbers which compensate each other, large enumerations and cross-module uses are not sampled.",
    [PROC, GE + "enumerated.py", GEN, COS, TPL],
    [
        ("check_enumerated", PROC),
        ("states and size of an enumeration", GE + "enumerated.py"),
        ("C enumeration", GEN + " _convert_enumerated_to_c"),
        ("STATE lines", TPL),
    ],
    ["parsed enumerations", "values of the C enumerators of compiled headers", "STATE lines of the COSMOS file", "exit status and output folder"],
)
prop(
    "C03",
    "Every reference resolves, or every generator refuses without output",
    "If any module given on the command line refers to a type which it neither defines nor imports (as type of a member, of a choice item, of array elements or of a simple definition), imports from a module which is not given, imports a type which the other module does not define, or gives a value to a component which the sequence does not have, at any nesting depth, then every generator exits with a non-zero status and leaves the output folder as it was. The COSMOS generator does the same for a requested message which the requested module does not define and for a module which is not given. The same modules with the reference repaired are accepted.",
    ["inputs", "configurations"],
    "all module sets with at least one dangling reference, anywhere in any module, whatever the requested modules and messages are; all four generators",
    "The tests have a few examples of undefined types, imports and component keys, mostly in the first definition of a one- or two-module bundle and against the parser API rather than each generator.",
    [PROC, BUILD, VAL, COS, MAIN],
    [
        ("used types defined", PROC + " model_processor_check_used_types_defined"),
        ("component keys defined", PROC + " _check_with_component"),
        ("missing modules", BUILD + " _resolve_dependencies"),
        ("imported types", VAL + " _check_imported_types_and_check_components"),
        ("undefined messages", COS + " generate_cosmos"),
    ],
    ["exit status of the command line", "contents of the output folder before and after"],
)
prop(
    "C04",
    "Names are unique and the module list matches, or every generator refuses",
    "If a type name is defined twice, in one module or in two of the given modules, or a module name occurs in two input files (one file given twice counts as two), or a member, an enumeration item or a component occurs twice within one definition or value list, every generator exits with a non-zero status and leaves the output folder as it was. The cFS, C and binary generators do the same if the list of modules on the command line repeats a module, lacks one of the given modules or names one which is not given. If the list names exactly the given modules it is accepted, in any order.",
    ["inputs", "configurations"],
    "all module sets with at least one duplicate at any place and distance, and all module lists; all four generators",
    "The tests check single duplicates in tiny bundles and a few module lists; which two modules, positions or files collide is sampled once each.",
    [VAL, BUILD, PROC, MAIN, CLI],
    [
        ("duplicate definitions", VAL + " _check_bundle_for_duplicate_definitions"),
        ("duplicate keys", VAL + " _check_bundle_for_duplicate_keys"),
        ("duplicate modules", BUILD + " _validate_unique_module_names"),
        ("module list", VAL + " check_missing_modules"),
        ("duplicate components", PROC + " _check_with_component"),
    ],
    ["exit status of the command line", "contents of the output folder before and after"],
)
prop(
    "C05",
    "Ranges that cannot be represented are refused, all others accepted",
    "Every generator refuses, without output, an integer or real range whose end is less than its begin, an integer range which does not fit into 64 bits (0..2^64-1 if it has no negative values, -2^63..2^63-1 otherwise), a real range beyond double precision, the NULL type, and a simple definition of a POSIX type name (such as Uint8-t or Float) with other than exactly its range and base type. All other ranges are accepted, up to and including each of these limits. This holds for members, choice items and simple definitions, in any module.",
    ["inputs"],
    "all integer and real bounds (in particular the neighbourhoods of 0, of the powers of two and of the limits of float and double), all POSIX names, at any place of any module",
    "The tests check a few ranges and POSIX names, not both sides of each limit at each place.",
    [PROC, SIZE],
    [
        ("range check and type selection", PROC + " asn1_type"),
        ("64 bit limits", SIZE + " get_bit_size"),
        ("POSIX names", PROC + " check_posix"),
        ("NULL", PROC + " null_exception_catch"),
    ],
    ["exit status of the command line", "contents of the output folder before and after"],
)
prop(
    "C06",
    "Circular imports and recursive types are refused, and generation terminates",
    "If the imports of the given modules form a cycle of any length, or a sequence or choice contains itself, directly, through arrays or through any chain of other definitions and modules, every generator exits with a non-zero status within bounded time and leaves the output folder as it was. Acyclic imports and nestings (of types and of value lists, up to 40 levels deep) are accepted whatever their depth, width, sharing (diamonds) and order on the command line, and generation then terminates within bounded time.",
    ["inputs", "configurations"],
    "all import graphs and type graphs (cycles of every length, diamonds, ladders of diamonds, chains, wide fans, deep value lists) in every order of the files; bounded time is measured as CPU time with a limit three orders of magnitude above the usual",
    "The tests contain no circular imports or recursive types at all; a missing check shows up as an endless loop, which no example of acyclic input can reveal.",
    [VAL, SORT, COS],
    [
        ("circular dependencies", VAL + " _check_circular_dependencies"),
        ("module and definition order", SORT),
    ],
    ["exit status and CPU time of the command line", "contents of the output folder before and after"],
)
prop(
    "C07",
    "Text outside the grammar is refused, and nothing is written",
    "If the text of any input file is not a complete module - cut off before END, with text after END or before the module, with a missing, doubled or misplaced keyword, name, bracket, separator or bound, with a malformed number or a negative size, with a name outside the naming rules, with a comment containing a character sequence which the generated files cannot contain, or not valid UTF-8 - every generator exits with a non-zero status and leaves the output folder as it was. This holds wherever in the text and in whichever of the files the error is.",
    ["inputs"],
    "all truncations of well-formed texts, all single-token deletions, duplications and insertions at every position, forbidden comment contents and broken encodings, in any file of the bundle",
    "The tests list a few dozen malformed texts; the grammar has many optional parts through which an error at another position could slip.",
    [GRAM, PARSER, PROC, MAIN],
    [
        ("textX grammar", GRAM),
        ("comment check", PROC + " check_comment"),
        ("reading of files", PARSER + " parse_from_files"),
    ],
    ["exit status of the command line", "contents of the output folder before and after"],
)
prop(
    "C08",
    "Exactly the documented files are written, completely, or the exit status says so",
    "A successful run writes exactly the documented files into the requested output folder (which it creates if needed): per module a message header and a message id header (cFS), a header and a source file (C), a header and one binary file per sequence with values (binary), or the named text file (COSMOS); it changes no other file, folder or process, and never its inputs. If an output file cannot be opened or written completely, at whatever file and byte the fault occurs, the run exits with a non-zero status. After a run was killed at any point, or left old files behind, repeating a cFS, C or binary run produces the same files as in an empty folder.",
    ["inputs", "configurations", "fault_sequences", "crash_points"],
    "all valid bundles, all four generators, absolute and relative and nested and missing and pre-filled output folders; open and write faults at every output file and at byte limits throughout the output; kills at every file operation",
    "The tests compare some expected output files of fault-free runs; they neither inject faults nor look for other effects.",
    [PRN, CFS, CG, BIN, COS, MAIN],
    [
        ("writing of C and binary files", PRN + " print_to_file"),
        ("writing of the COSMOS file", COS + " generate_cosmos"),
        ("creation of output folders", CFS + ", " + CG + ", " + BIN),
    ],
    ["all files below a scratch folder before and after", "audit events (open, mkdir, remove, rename, spawn, connect)", "exit status"],
)
prop(
    "C09",
    "Generated headers compile, alone and together, with the specified layout",
    "For every valid bundle without choices and without arrays of strings or of fields narrower or wider than 8, 16, 32 or 64 bits, each header generated for cFS, C and binary compiles on its own and together with all others in any order. Each sequence becomes a packed struct whose members have the names and order of the ASN.1 text (dashes as underscores), each with the offset, width and signedness its type demands: the smallest number of bits for unsigned integers, booleans and enumerations, 8/16/32/64 bits for signed integers, float for reals whose range lies within +-3.4E38 and double for others, n characters for strings, n elements for arrays, and the layout of the named sequence for nested ones. Each enumeration becomes a C enumeration with the same labels and numbers.",
    ["inputs"],
    "all valid bundles in the stated class: any number of modules in any import graph and file order, any definition order, any member types and bounds",
    "The tests compare generated text with expected text for about thirty small bundles and never compile it; whether a combination compiles and has the right layout in memory is not examined.",
    [GEN, CFS, CG, BIN, SORT, PRN, CDATA, SIZE, BUILD],
    [
        ("C types and bit fields", GEN + " _map_simple_types_to_c/_convert_sequence_to_c"),
        ("order of definitions and modules", SORT),
        ("includes and guards", PRN + " print_to_file"),
        ("sizes", SIZE + " get_bit_size"),
    ],
    ["compiled probe programs (address and undefined behaviour sanitizers) which locate every bit of every member at run time"],
)
prop(
    "C10",
    "COSMOS packets list exactly the fields of the message with the right attributes",
    "For every sequence requested as message, the COSMOS file contains one telemetry packet with its name, in the requested order, which lists every leaf field of the sequence, nested sequences expanded in place, in declaration order: with its name, size in bits, type (UINT, INT, FLOAT, STRING), description, units and little-endian mark. Fields which have a value, from whatever nesting level of value lists, become id items with that value, and only these; arrays of fields become array items with element size and total size. Enumerations and booleans list exactly their states with their numbers, and reals with a range smaller than their type get that range as limits.",
    ["inputs", "configurations"],
    "all valid bundles without choices and without arrays of sequences, all subsets and orders of messages, any nesting of value lists, types from any directly or indirectly imported module",
    "The tests compare a dozen expected files; combinations of nesting, imports, value lists, states, limits and units are sampled once.",
    [COS, TPL, A + "generators/cosmos/telemetry.py", SIZE],
    [
        ("recursive expansion and values", COS + " _create_telemetry_item_data"),
        ("definitions from imported modules", COS + " _get_definition"),
        ("limits", COS + " _range_subrange_data_type"),
        ("formatting", TPL + " cosmos_telemetry"),
    ],
    ["the generated COSMOS file, tokenised"],
)
prop(
    "C11",
    "cFS structs and COSMOS packets of the same message agree",
    "For every message of a valid bundle, the cFS header and the COSMOS packet generated from it describe the same sequence of fields: same names, order, widths, signedness and number format, array lengths and enumeration values. If all bit fields fill whole bytes, every field also starts at the same bit of the packet and the struct and the packet have the same total size. The id values of COSMOS agree with the message id and the constants in the message id header.",
    ["inputs"],
    "all valid bundles in the class supported by both generators; telemetry with and without CCSDS headers, any nesting and sharing across modules",
    "No test relates the output of one generator to the output of another.",
    [GEN, CFS, COS, TPL, SIZE],
    [
        ("C struct members", GEN + " _convert_sequence_to_c"),
        ("COSMOS items", COS + " _create_telemetry_item_data"),
        ("common sizes", SIZE + " get_bit_size"),
        ("message ids", CFS + " _ccsds_primary_header_to_msg_id"),
    ],
    ["field positions measured by running the compiled cFS header", "items of the COSMOS file", "macros of the compiled message id header"],
)
prop(
    "C12",
    "Message ids and constants are exactly those the values define",
    "For every sequence whose value lists fix a CCSDS primary header, the cFS message id header defines one message id under the name of the sequence: version, packet type, secondary header flag and application process identifier in the upper 3, next 1, next 1 and lower 11 bits of 16, each taken from its own component whatever the order in which components are written, and zero where none is given. Every other value becomes one constant named after the sequence and the component, with exactly that value (true or false for booleans). The header of a module has the ids and constants of its own sequences and no others, in the order of the values.",
    ["inputs"],
    "all values 0..7, both flags, 0..2047 in every order and subset of components, at any nesting depth, with any further components; any number of sequences and modules",
    "The tests fix a handful of headers with typical values; the extremes of each field and all orders and subsets are not sampled.",
    [CFS, PRN, CDATA],
    [
        ("message id", CFS + " _ccsds_primary_header_to_msg_id"),
        ("constants", CFS + " _process_with_components"),
        ("message id header", PRN + " print_to_file"),
    ],
    ["macros of the compiled message id headers, evaluated by the C compiler and at run time"],
)
prop(
    "C13",
    "Generated C variables hold exactly the values given in the ASN.1 text",
    "For every sequence with value lists, the C source file compiles together with its header and defines one variable named after the sequence (first letter in lower case), which the header declares and in which, at run time, every field to which the value lists of that sequence give a value has that value and every other field is zero. Sequences without value lists get no variable. This holds for any number of sequences per module, any order of definitions and components, any nesting, and integers, reals, booleans and enumerations of any representable value.",
    ["inputs"],
    "all valid bundles whose values fit their fields: values at both ends of each range, any subset and order of components, several value lists per sequence, types imported from other modules",
    "The tests compare the text of a few generated sources; none is compiled or run.",
    [CG, GEN, PRN, CDATA],
    [
        ("initialisers", CG + " _process_with_components"),
        ("one variable per sequence", CG + " _convert_sequence_to_c"),
        ("source file", PRN + " print_to_file"),
    ],
    ["memory of the variables of the compiled source, read back by a sanitized probe program"],
)
prop(
    "C14",
    "Binary files are the memory image of the struct in the chosen byte order",
    "For every sequence whose members all have values for all of their fields, with fields of 8, 16, 32 or 64 bit integers, floats and doubles, the binary file named after the sequence contains the fields in declaration order, each with its full width and exact value in the byte order chosen on the command line, without padding. Its length is the size of the generated struct, and read into that struct on a machine of that byte order every field has its value. A sequence of which a value list leaves fields out, or a value which does not fit its field, is refused with a non-zero status and without a binary file for it.",
    ["inputs", "configurations"],
    "all such sequences with values at both ends and throughout each range, any order of the components, nested sequences, several value lists; both byte orders",
    "The tests encode one example each; widths, signs, orders and nesting are not varied.",
    [BIN, PRN, CDATA, SIZE],
    [
        ("packing", BIN + " _component_to_bytes"),
        ("declaration order", BIN + " _get_components_as_declared"),
        ("byte order", BIN + " ENDIANNESS"),
        ("binary file", PRN + " print_to_file"),
    ],
    ["bytes of the binary files", "fields read back through the compiled header by a sanitized probe program"],
)
prop(
    "C15",
    "Output depends only on the modules, not on order, process, history or hash seed",
    "Repeating a command gives byte-identical files, in a new process or after any history of other parses and generations in the same process, with any hash seed, any working directory, and for any order of the input files and of the module list. The COSMOS packet of a message does not depend on which other messages are requested or in which order, and each COSMOS run leaves existing content of the file unchanged and appends exactly what it would write into a new file. Generating several outputs from one parsed bundle gives the same as parsing anew for each.",
    ["inputs", "histories", "configurations"],
    "all valid bundles; all permutations of files and module lists; hash seeds; histories of generator calls on the same parsed bundle and in the same process",
    "The tests run each generator once per example, with one file order and an arbitrary hash seed, in a process of its own.",
    [CFS, CG, BIN, COS, SORT, BUILD, VAL],
    [
        ("module order", SORT + " create_ordered_import_list"),
        ("definition lookup", COS + " _get_definitions_recurs"),
        ("sorted module names", CFS + " generate_cfs"),
        ("append mode", COS + " generate_cosmos"),
    ],
    ["bytes of all output files of pairs of runs"],
    [("parsed bundle", "must not be changed by a generator", A + "asn1/asn1_bundle.py")],
)
prop(
    "C16",
    "Layout of the source and order of definitions do not matter",
    "Rewriting a module with other indentation, blank lines, line breaks or line endings where the grammar allows them gives byte-identical output from every generator. Changing the order of the definitions of a module, or splitting and reordering its import clauses, changes neither acceptance nor any struct layout, enumeration, COSMOS packet, message id, initial value or binary file. A definition may be used before it is defined.",
    ["inputs"],
    "all valid bundles, all layouts of their text and all permutations of their definitions and import clauses",
    "The tests use one layout and mostly the order which needs no sorting.",
    [GRAM, SORT, COS, CFS, CG, BIN],
    [
        ("whitespace rules", GRAM),
        ("definitions sorted by dependency", SORT + " get_definitions_sorted_by_dependency"),
    ],
    ["output files of pairs of runs: bytes for layout changes, declarations, macros, packets and binary files for reorderings"],
)
prop(
    "C17",
    "Comments and units reach the outputs intact and change nothing else",
    "The comments of a module, after its imports, of sequences, enumerations, their items and members, and the units of items and members, appear in the generated C header, each as a comment at the module, definition, item or member it belongs to, and those of messages and members as description and units in COSMOS; texts are complete and unchanged (double quotes escaped in COSMOS). No comment, whatever allowed characters and length it has, changes anything else: with all comments removed, the compiled meaning of the C files, the binary files and all COSMOS items except descriptions, units and little-endian marks stay the same. The endianness mark in a comment affects only the item it is written at.",
    ["inputs"],
    "all allowed comment texts and units (every allowed character, C and COSMOS metacharacters, keywords of the grammar, long texts) at every place where the grammar allows comments",
    "The tests check the parsed comments of hand-picked places and a few expected files; texts which interact with the syntax of the outputs are not sampled.",
    [GRAM, GE + "asn1_comment.py", GEN, PRN, TPL, CFS, CG, BIN],
    [
        ("comment grammar", GRAM + " Asn1Comment"),
        ("forbidden contents", PROC + " check_comment"),
        ("comments in C", GEN + ", " + PRN),
        ("descriptions and units", TPL),
    ],
    ["comments and code of the generated files, separated by a lexer", "pairs of runs with and without comments"],
)

prop(
    "C18",
    "Commands which cannot be carried out are refused, and spelling does not matter",
    "Every generator refuses a command it cannot carry out, with a non-zero exit status and without writing or changing any file: if one of the input paths, wherever it stands among them, does not exist, is a folder, cannot be read or is empty; if there is no input, a required option or the value of an option is missing, or an option, command or byte order is unknown or belongs to another command; and if values have to be encoded by the binary generator and no byte order is given. A command gives the same files whatever the order of its options before or after the inputs, written as --option value or --option=value, and whether its paths are absolute, relative or links and whatever the input files are called.",
    ["inputs", "configurations"],
    "all command lines with one fault at any place, and all spellings of valid command lines",
    "The tests call the generators with well-formed configurations or one fixed command line each.",
    [CLI, MAIN, PARSER, BIN],
    [
        ("options and commands", CLI),
        ("inputs opened one by one", PARSER + " parse_from_files"),
        ("byte order looked up", BIN + " ENDIANNESS"),
    ],
    ["exit status and all files of the scratch area before and after", "bytes of the output files of pairs of runs"],
)

prop(
    "C19",
    "A refusal names its cause",
    "When a generator refuses its input, the text it prints contains what the user has to correct, as whole words: the undefined type and the module which uses it; the imported name which is not defined and both modules; the module which is imported but not given; the unknown or repeated component and the sequence which holds the value list; all requested messages which do not exist; the type, module, member, choice item or enumeration item which is defined several times (with its definition for members and items); all modules which the module list has several times, or else all which it lacks or has in excess; all names of a cycle of imports or types; a limit of a refused integer range; the POSIX name whose type is wrong; the path of an input which does not exist; and for text which cannot be read the number of the line where reading failed.",
    ["inputs", "configurations"],
    "all errors of these kinds at any place of any bundle, and all generators",
    "The tests compare the message of a few hand-written faulty modules; most kinds of error are only tested for being refused, and always with small bundles.",
    [PROC, VAL, BUILD, COS, MAIN],
    [
        ("undefined types, components", PROC + " model_processor_check_used_types_defined, _check_with_component"),
        ("imports, duplicates, cycles, module list", VAL),
        ("missing modules, repeated modules", BUILD),
        ("errors are printed", MAIN),
    ],
    ["standard output and standard error of refusing runs"],
)

prop(
    "C20",
    "Headers include what is imported and tell where simple types are used",
    "In the output of the cFS, C and binary generators, the header of each module includes the headers of exactly the modules it imports from, and no others of the bundle. Simple definitions have no C type of their own; instead each cFS header has exactly one note for every simple definition of its module which is used as the type or array element type of a member or choice item, naming exactly the modules which use it, each once, and saying correctly whether it became a built-in type (8, 16, 32 or 64 bits) or a bit field (strings aside), and no note for unused ones. Headers of the C and binary generators have exactly one note for every simple definition of their module (those of the binary generator not necessarily for Float and Double). All this whatever the number and order of modules, files and imports.",
    ["inputs", "configurations"],
    "all well-formed bundles: any number of simple definitions used in no, one or many modules and at any kind of place",
    "The expected files of the tests have one or two modules and one use per type.",
    [BUILD, CFS, CG, BIN],
    [
        ("uses collected over the bundle", BUILD + " _parse_for_simple_defs, build"),
        ("notes and includes", CFS + ", " + CG + ", " + BIN),
    ],
    ["include lines and comments of the generated headers"],
)

prop(
    "C21",
    "A choice becomes one union with all its alternatives in the same place",
    "In the output of the cFS, C and binary generators, each CHOICE of a module becomes exactly one union in the header of this module, with the name of the choice and a variable of the same name with a small first letter, and it lists exactly the alternatives of the choice, in their order, under their names; alternatives which are sequences or enumerations have the type generated for these. The comment of the choice stands before its union, and the comment and unit of each alternative stand beside it, intact, and hide nothing. If all alternatives are sequences or enumerations, wherever these are defined, the header compiles, every alternative starts at the first byte of the union and has the size of its type, and the union is as big as its biggest alternative.",
    ["inputs", "configurations"],
    "all choices with any number and order of alternatives, any comments, and any order of definitions and modules",
    "The tests parse some choices and run the cFS generator on three, without looking at the header.",
    [GEN, SORT, CFS, CG, BIN],
    [
        ("union written", GEN + " _convert_choice_to_c"),
        ("types before their use", SORT),
    ],
    ["unions of the generated headers", "addresses and sizes of their alternatives in a compiled program"],
)

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
