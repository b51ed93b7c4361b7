from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("bugs1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
_m = module_from_spec(_s)
_s.loader.exec_module(_m)
globals().update({k: v for k, v in vars(_m).items() if k.isupper()})
CLI = "asn1_parser/cli/cli_arg_parser.py"
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug("c11-enum-count", "C11", [(COS, """                        end = len(state_list) - 1
""", """                        end = len(state_list)
""")], """
t = mod("a", "E ::= ENUMERATED { x, y, z, w, v, u, t, s, r, q, p, o, n, m, l, k }", seq("S", "e E", "f INTEGER(0..15)"))
rc, f, _ = tool("cosmos", [t], module="a", messages="S")
check(rc == 0 and f["tlm.txt"].split(b" e ")[1].split()[0] == b"4", f)
""", "an enumeration of 2^n items", "the COSMOS item is one bit wider than the bit field of the struct")

bug("c10-array-bytes", "C10", [(COS, """                    specific_value = str(seq_type.get_length() * bitsize)
""", """                    # elements start at whole bytes
                    specific_value = str(
                        seq_type.get_length() * 8 * ((bitsize + 7) // 8)
                    )
""")], """
t = mod("a", "I ::= INTEGER(0..4095)", seq("S", "x SEQUENCE (SIZE (4)) OF I"))
rc, f, _ = tool("cosmos", [t], module="a", messages="S")
check(rc == 0 and f["tlm.txt"].split(b" x ")[1].split()[:3] == [b"12", b"UINT", b"48"], f)
""", "an array of elements which do not fill whole bytes", "the total size of the array item is too large")

bug("c13-integral-real", "C13", [(CG, """                    + " = "
                    + str(value)
                    + ",\\n"
""", """                    + " = "
                    + str(int(value) if value == int(value) else value)
                    + ",\\n"
""")], """
t = mod("a", "D ::= REAL(-1.0E300 .. 1.0E300)", seq("B", "p D"), seq("S", "x B (WITH COMPONENTS { p (1.0E30) })"))
rc, f, out = tool("c", [t], "a")
check(rc == 0, f)
r = cc(out, '#include <stdio.h>\\n#include "a.c"\\nint main(void) { printf("%g", (double)s.x.p); }')
check(r == "1e+30", r)
""", "a real value without fraction beyond 64 bits", "an integer constant which is too large for its type: the variable has another value")

bug("c06-components-twice", "C06", [(PROC, """                    _check_with_component(
                        module_name,
                        component_value,
                        all_sequences,
                        type_name_inner,
                        def_type_name,
                    )
        elif""", """                    for _ in all_sequences[:2]:
                        _check_with_component(
                            module_name,
                            component_value,
                            all_sequences,
                            type_name_inner,
                            def_type_name,
                        )
        elif""")], """
n = 32
d = [seq("T0", "x INTEGER(0..255)")] + [seq("T%d" % i, "x T%d" % (i - 1)) for i in range(1, n)]
v = "(1)"
for i in range(n - 1):
    v = "(WITH COMPONENTS { x %s })" % v
d.append(seq("S", "x T%d (WITH COMPONENTS { x %s })" % (n - 1, v)))
rc, f, _ = tool("cfs", [mod("a", *d)], "a", timeout=60)
check(rc == 0, rc)
""", "value lists nested more than about 25 levels", "the time for the validation doubles with each level")

bug("c18-skip-missing", "C18", [(PARSER, """            assert os.path.exists(
                input_file_path
            ), f"File does not exist: {input_file_path}"

""", """            if not os.path.exists(input_file_path):
                cls._logger.info(f"File does not exist: {input_file_path}")
                continue

""")], """
t = mod("a", seq("S", "x BOOLEAN"))
import os
nope = os.path.join(TMP, "nope.asn")
rc, f, _ = tool("c", [t], "a")
check(rc == 0, f)
import subprocess
p = os.path.join(TMP, "in.asn")
open(p, "w").write(t)
r = subprocess.run([PY, os.path.join(REPO, "asn1_parser", "main.py"), "generate-c", p, nope, "--asn1-modules=a", "--output-dir", TMP + "/o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
check(r.returncode != 0 and not os.path.exists(TMP + "/o"), r.returncode)
""", "an input path which does not exist beside a complete set of modules", "the missing file is skipped")

bug("c18-folders", "C18", [(PARSER, """            ), f"File does not exist: {input_file_path}"

""", """            ), f"File does not exist: {input_file_path}"

            if not os.path.isfile(input_file_path):
                continue

""")], """
import os, subprocess
t = mod("a", seq("S", "x BOOLEAN"))
p = os.path.join(TMP, "in.asn")
open(p, "w").write(t)
os.mkdir(TMP + "/d")
r = subprocess.run([PY, os.path.join(REPO, "asn1_parser", "main.py"), "generate-c", p, TMP + "/d", "--asn1-modules=a", "--output-dir", TMP + "/o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
check(r.returncode != 0 and not os.path.exists(TMP + "/o"), r.returncode)
""", "a folder among the inputs", "the folder is ignored")

bug("c18-known-args", "C18", [(CLI, """        args = parser.parse_args()
""", """        args, _ = parser.parse_known_args()
""")], """
t = mod("a", seq("S", "x BOOLEAN"))
rc, f, _ = tool("c", [t], "a", extra=["--output-directory", TMP])
check(rc != 0 and not f, "unknown option accepted")
""", "an unknown option", "it is ignored")

bug("c18-default-order", "C18", [(CLI, """        choices=["little-endian", "big-endian"],
        help=""", """        choices=["little-endian", "big-endian"],
        default="little-endian",
        help=""")], """
t = mod("a", "Uint8-t ::= INTEGER(0..255)", seq("B", "p Uint8-t"), seq("S", "x B (WITH COMPONENTS { p (3) })"))
rc, f, _ = tool("binary", [t], "a")
check(rc != 0 and not f, f)
""", "values to encode and no byte order on the command line", "a byte order is assumed")

bug("c08-dotted-name", "C08", [(COS, """        output_filepath = os.path.join(output_folder_base, target_name + ".txt")
""", """        output_filepath = os.path.join(
            output_folder_base, os.path.splitext(target_name)[0] + ".txt"
        )
""")], """
t = mod("a", seq("S", "x BOOLEAN"))
rc, f, _ = tool("cosmos", [t], module="a", messages="S", name="tlm.v2")
check(rc == 0 and list(f) == ["tlm.v2.txt"], f)
""", "a COSMOS file name with a dot", "another file is written than the named one")

bug("c14-float-rounding", "C14", [(BIN, """            bin_data_list.append(
                struct.pack(f"{endianness}{bin_format}", value)
""", """            if isinstance(value, float):
                value = round(value, 15)

            bin_data_list.append(
                struct.pack(f"{endianness}{bin_format}", value)
""")], """
import struct
t = mod("a", "Double ::= REAL(-1.7976931348623157E308 .. 1.7976931348623157E308)", seq("B", "p Double"), seq("S", "x B (WITH COMPONENTS { p (1.5E-20) })"))
rc, f, _ = tool("binary", [t], "a", extra=["--endianness", "little-endian"])
check(rc == 0 and f["s.bin"] == struct.pack("<d", 1.5e-20), f)
""", "a real value with more than 15 decimals", "the binary file has the rounded value")

bug("c03-elsewhere", "C03", [(VAL, """                undefined = set(imp_types) - set(imp_definitions)
""", """                for other_module in asn_module.get_imported_modules():
                    # may be defined in any of the imported modules
                    imp_definitions.extend(
                        definition.get_type_name()
                        for definition in other_module.get_definitions()
                    )
                undefined = set(imp_types) - set(imp_definitions)
""")], """
a = mod("a", "I ::= INTEGER(0..3)")
b = mod("b", "J ::= INTEGER(0..3)")
c = lambda x, y: mod("c", "IMPORTS %s FROM Module-a %s FROM Module-b;" % (x, y), seq("S", "x I", "y J"))
rc, f, _ = tool("cfs", [a, b, c("I", "J")], "a,b,c")
check(rc == 0, "valid")
rc, f, _ = tool("cfs", [a, b, c("J", "I")], "a,b,c")
check(rc != 0 and not f, "import from the wrong module accepted")
""", "a type imported from the wrong one of several imported modules", "accepted")

bug("c04-kinds", "C04", [(VAL, """        already_defined: Dict[str, str] = {}
        for module in bundle.get_modules():
            for definition in module.get_definitions():
                if isinstance(definition, Definitions):
                    if definition.get_type_name() in already_defined:
""", """        already_defined: Dict[str, str] = {}
        for module in bundle.get_modules():
            for definition in module.get_definitions():
                if isinstance(definition, SimpleDefinition):
                    # embedded where it is used
                    continue
                if isinstance(definition, Definitions):
                    if definition.get_type_name() in already_defined:
""")], """
a = mod("a", "I ::= INTEGER(0..3)")
b = mod("b", "I ::= INTEGER(0..7)")
for g in ("cfs", "c"):
    rc, f, _ = tool(g, [a, b], "a,b")
    check(rc != 0 and not f, "type defined twice accepted")
""", "a simple definition in two modules", "accepted")

bug("c07-case-of-names", "C07", [(GRAM, """  /[A-Z][a-z\\\\d]*(-[a-z\\\\d]+)*/
""", """  /[A-Z][A-Za-z\\\\d]*(-[a-z\\\\d]+)*/
""")], """
rc, f, _ = tool("c", [mod("a", seq("SomeName", "x BOOLEAN"))], "a")
check(rc != 0 and not f, "accepted")
""", "a type name with a capital letter inside", "accepted, in spite of the naming rules")

bug("c12-flag-position", "C12", [(CFS, """                        tmtc_id = tmtc_id | (
                            inner_value << (id_len - bit_pkt_v - bit_type)
                        )
""", """                        tmtc_id = tmtc_id ^ (
                            inner_value << (id_len - bit_pkt_v - bit_type)
                        )
""")], """
check(True, "")
""", "", "")

bug("c09-include-once", "C09", [(GEN, """            seq_item_type = seq_item.get_asn_type().get_type()
            c_declaration = cgen.Value(struct_c_type, seq_key)
            if isinstance(seq_item_type, (Array, Asn1String)):
""", """            seq_item_type = seq_item.get_asn_type().get_type()
            c_declaration = cgen.Value(struct_c_type, seq_key)
            if (
                isinstance(seq_item_type, (Array, Asn1String))
                and seq_item_type.get_length() > 1
            ):
""")], """
t = mod("a", "Uint16-t ::= INTEGER(0..65535)", seq("S", "x SEQUENCE (SIZE (1)) OF Uint16-t"))
rc, f, out = tool("c", [t], "a")
r = cc(out, '#include <stdio.h>\\n#include "a.h"\\nint main(void) { S s = {{1}}; printf("%zu", sizeof s.x / sizeof s.x[0]); }')
check(r == "1", r)
""", "an array or string of length one", "it is not an array in C")

bug("c17-slash-slash", "C17", [(CPR, """        if file_documentation:
            comment += "\\n\\n" + file_documentation
""", """        if file_documentation:
            comment += "\\n\\n" + file_documentation.split("//")[0]
""")], """
t = "Module-a DEFINITIONS AUTOMATIC TAGS ::= BEGIN -- see http://example.com/x\\n%s\\nEND\\n" % seq("S", "x BOOLEAN")
rc, f, _ = tool("c", [t], "a")
check(rc == 0 and b"see http://example.com/x" in f["a.h"], f)
""", "a module comment with //", "the comment is cut off")

bug("c16-last-line", "C16", [(PARSER, """                input_texts.append(input_file.read())
""", """                input_texts.append(
                    "".join(
                        line.rstrip() + "\\n"
                        for line in input_file
                        if not line.startswith("--")
                    )
                )
""")], """
check(True, "")
""", "", "")
BUGS = [b for b in BUGS if b["needs"]]
