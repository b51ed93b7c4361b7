from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("bugs1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
_m = module_from_spec(_s)
_s.loader.exec_module(_m)
globals().update({k: v for k, v in vars(_m).items() if k.isupper()})
CLI = "asn1_parser/cli/cli_arg_parser.py"
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


MSG = """
import subprocess, sys, tempfile
def said(command, text, *args):
    d = tempfile.mkdtemp()
    with open(d + "/in.asn", "w") as f:
        f.write(text)
    r = subprocess.run([sys.executable, "-B", "asn1_parser/main.py", command, d + "/in.asn", "--output-dir", d + "/o"] + list(args), capture_output=True, text=True)
    check(r.returncode != 0, r)
    return r.stdout + r.stderr
"""

bug("c19-blank-lines", "C19", [(PARSER, """                input_texts.append(input_file.read())
""", """                input_texts.append(input_file.read().strip())
""")], MSG + """
t = mod("a", "B ::= SEQUENCE {", "  x BOOLEAN", "  y BOOLEAN", "}")
n = t.split("\\n").index("  y BOOLEAN") + 1
for k in 0, 4:
    o = said("generate-c", "\\n" * k + t, "--asn1-modules=a")
    check("None:%d:" % (n + k) in o, o)
""", "unreadable text in a file which starts with blank lines", "the line number in the message is too small")

bug("c19-wrapped", "C19", [(MAIN, """            bundle = ASN1BundleBuilder.build_from_binary_config(config)
        except ASN1ConsistencyError as exception:
            print(
                f"error: an issue occurred when validating the ASN.1 bundle: "
                f"{exception.args[0]}."
            )
""", """            bundle = ASN1BundleBuilder.build_from_binary_config(config)
        except ASN1ConsistencyError as exception:
            message = (
                f"error: an issue occurred when validating the ASN.1 bundle: "
                f"{exception.args[0]}."
            )
            print("\\n".join(textwrap.wrap(message, 80)))
"""), (MAIN, """import sys
""", """import sys
import textwrap
""")], MSG + """
for name in "Type-of-x", "Long-type-of-x", "A-very-long-type-of-x", "An-even-longer-and-longer-type-of-x":
    t = mod("a", seq("S", "x " + name))
    o = said("generate-binary", t, "--asn1-modules=a", "--endianness=little-endian")
    check("'%s'" % name in o, o)
""", "a name with dashes at the end of a line of the message", "the name is broken in two")

bug("c20-unused-import", "C20", [(CG, """            for module_imported_item in module.get_import_items():
                module_cdata.add_include(
""", """            imported_names = [
                d.get_type_name() for d in simple_definition_list_imported
            ]
            for module_imported_item in module.get_import_items():
                # simple types are embedded, their module is not needed
                if set(module_imported_item.get_definitions()) <= set(
                    imported_names
                ):
                    continue
                module_cdata.add_include(
""")], """
a = mod("a", "Tt ::= INTEGER(0..7)")
b = mod("b", seq("B", "x BOOLEAN"))
c = mod("c", "IMPORTS", "  Tt FROM Module-a", "  B FROM Module-b;", seq("C", "t Tt", "b B"))
rc, f, out = tool("c", [a, b, c], "a,b,c")
h = f["c.h"].decode()
check(rc == 0 and '"a.h"' in h and '"b.h"' in h, h)
""", "a module which imports only simple types from one of several modules", "its header no longer includes that of the imported module")

bug("c20-choice-uses", "C20", [(BLD, """            if isinstance(definition, (Sequence, Choice)):
                key_type_pairs = definition.get_children()
            elif isinstance(definition, (SimpleDefinition, Enumerated)):
                pass
""", """            if isinstance(definition, Sequence):
                key_type_pairs = definition.get_children()
            elif isinstance(definition, (SimpleDefinition, Enumerated, Choice)):
                pass
""")], """
a = mod("a", "Tt ::= INTEGER(0..255)", "C ::= CHOICE {", "  x Tt,", "  y BOOLEAN", "}")
rc, f, out = tool("cfs", [a], "a")
check(rc == 0 and "simple type 'Tt'" in f["a_msg.h"].decode(), f)
""", "a simple type which is only used in choices", "the note about it is missing")

bug("c20-many-users", "C20", [(CFS, """                                sorted((used_simple_defs[def_type_name]))
""", """                                sorted(used_simple_defs[def_type_name])[:4]
""")], """
a = mod("a", "Tt ::= INTEGER(0..255)")
u = [mod("u%d" % i, "IMPORTS", "  Tt FROM Module-a;", seq("U%d" % i, "x Tt")) for i in range(6)]
rc, f, out = tool("cfs", [a] + u, "a,u0,u1,u2,u3,u4,u5")
h = f["a_msg.h"].decode()
check(rc == 0 and all("'u%d'" % i in h for i in range(6)), h)
""", "a simple type which more than four modules use", "the note names only four of them")

bug("c14-int-through-float", "C14", [(BIN, """            bin_data_list.append(
                struct.pack(f"{endianness}{bin_format}", value)
            )
""", """            if c_type in (TypeEnum.A_INT, TypeEnum.A_UINT):
                value = int(float(value))
            bin_data_list.append(
                struct.pack(f"{endianness}{bin_format}", value)
            )
""")], """
t = mod("a", "Uint64-t ::= INTEGER(0..18446744073709551615)", seq("B", "p Uint64-t"), seq("S", "x B (WITH COMPONENTS { p (9007199254740993) })"))
rc, f, out = tool("binary", [t], "a", extra=["--endianness", "little-endian"])
check(rc == 0 and f["s.bin"] == (9007199254740993).to_bytes(8, "little"), f)
""", "a 64-bit value beyond 2^53", "the bytes are those of the nearest double")

bug("c12-no-zero-id", "C12", [(CFS, """                    define_list.append(
                        str(cgen.Define(symbol, f"(0x{value:04X})"))
                    )
""", """                    if value:
                        define_list.append(
                            str(cgen.Define(symbol, f"(0x{value:04X})"))
                        )
""")], """
H = [seq("Pid", "packet-version-number INTEGER(0..7)", "packet-type-is-cmd BOOLEAN", "sec-hdr-flag-is-present BOOLEAN", "application-process-identifier INTEGER(0..2047)"),
     seq("Pri", "packet-identification Pid"), seq("Hdr", "primary Pri")]
t = mod("a", *H, seq("Msg", "h Hdr (WITH COMPONENTS { primary (WITH COMPONENTS { packet-identification (WITH COMPONENTS { application-process-identifier (0) }) }) })"))
rc, f, _ = tool("cfs", [t], "a")
check(rc == 0 and b"MSG_MID (0x0000)" in f["a_msgids.h"], f)
""", "a message id of zero", "its macro is missing")

bug("c02-states-as-text", "C02", [(ELEM + "enumerated.py", """        for enumerate_item in self._enum:
            return_list.append(enumerate_item.get_item()[0])
""", """        for enumerate_item in sorted(
            self._enum, key=lambda item: str(item.get_item()[1])
        ):
            return_list.append(enumerate_item.get_item()[0])
""")], """
t = mod("a", "E ::= ENUMERATED { " + ", ".join("x%d" % i for i in range(12)) + " }", seq("S", "e E"))
rc, f, _ = tool("cosmos", [t], module="a", messages="S")
st = [l.split()[1:3] for l in f["tlm.txt"].decode().split("\\n") if l.split()[:1] == ["STATE"]]
check(rc == 0 and st == [["x%d" % i, str(i)] for i in range(12)], st)
""", "an enumeration of more than ten items", "the COSMOS states have other numbers")

bug("c15-shared-names", "C15", [(SORT, """        defined_list: List[str] = Asn1Module.PREDEFINED_LIST.copy()
""", """        defined_list: List[str] = Asn1Module.PREDEFINED_LIST
""")], """
import sys
sys.path.insert(0, REPO)
from asn1_parser.asn1.asn1_bundle_builder import ASN1BundleBuilder
from asn1_parser.generators.cfs.generator import CFSGenerator
from asn1_parser.cli.cli_arg_parser import GenerateCFSCommandConfig
def once(texts, names, out):
    b = ASN1BundleBuilder.build_from_texts(texts)
    import os
    os.makedirs(TMP + "/" + out)
    CFSGenerator.generate_cfs(GenerateCFSCommandConfig(REPO, [], names, TMP + "/" + out), b)
    return open(TMP + "/" + out + "/a_msg.h").read()
a = mod("a", "Tt ::= INTEGER(0..7)", seq("A", "x Tt"))
first = once([a], ["a"], "o1")
once([a, mod("b", "IMPORTS", "  Tt FROM Module-a;", seq("B", "x Tt"))], ["a", "b"], "o2")
check(once([a], ["a"], "o3") == first, "another header after another bundle")
""", "another bundle with imports generated before in the same process", "the notes about imported simple types vanish from later outputs")
