from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("bugs1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
_m = module_from_spec(_s)
_s.loader.exec_module(_m)
globals().update({k: v for k, v in vars(_m).items() if k.isupper()})
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


H = '''
H = [seq("Pid", "packet-version-number INTEGER(0..7)", "packet-type-is-cmd BOOLEAN", "sec-hdr-flag-is-present BOOLEAN", "application-process-identifier INTEGER(0..2047)"),
     seq("Prim", "packet-identification Pid"), seq("Head", "primary Prim")]
'''

bug("c01-enum-text-order", "C01", [(PROC, """        model.set_enum(ordered_enums)
""", """        ordered_enums.sort(key=lambda item: str(item.get_pos()))
        model.set_enum(ordered_enums)
""")], """
import sys
sys.path.insert(0, REPO)
from asn1_parser.asn1.parser import Asn1Parser
n = 12
t = mod("a", "E ::= ENUMERATED { %s }" % ", ".join("k%d(%d)" % (i, n - 1 - i) for i in range(n)))
e = Asn1Parser.parse_from_text_multimodule([t])[0].get_definitions()[0]
check([i.get_pos() for i in e.get_enum()] == list(range(n)), [i.get_pos() for i in e.get_enum()])
""", "an enumeration with explicit numbers and more than ten items", "items are sorted by the text of their number: 0, 1, 10, 11, 2, ...")

bug("c03-some-missing-modules", "C03", [(BLD, """                missing = set(dependencies) - set(module_names)
                if missing:
""", """                missing = set(dependencies) - set(module_names)
                if missing and missing == set(dependencies):
"""), (BLD, """                for dependency in dependencies:
                    module.add_imported_module(asn_models[dependency][0])
""", """                for dependency in dependencies:
                    if dependency in asn_models:
                        module.add_imported_module(asn_models[dependency][0])
""")], """
a = mod("a", "Thing ::= INTEGER(0..3)")
b = mod("b", "IMPORTS Thing FROM Module-a Other FROM Module-c;", "E ::= ENUMERATED { x, y }")
rc, files, _ = tool("cfs", [a, b], "a,b")
check(rc != 0 and not files, "import from a missing module accepted")
""", "one import clause of several names a module which is not given", "accepted; the generated header includes a file which does not exist")

bug("c04-duplicate-choice", "C04", [(VAL, """                    already_defined[
                        definition.get_type_name()
                    ] = module.get_module_name()
""", """                    if not isinstance(definition, Choice):
                        already_defined[
                            definition.get_type_name()
                        ] = module.get_module_name()
""")], """
a = mod("a", "T ::= CHOICE {", "x BOOLEAN", "}")
b = mod("b", "T ::= INTEGER(0..7)")
rc, files, _ = tool("cfs", [a, b], "a,b")
check(rc != 0 and not files, "type defined twice accepted")
""", "the first of two definitions of the name is a choice", "accepted")

bug("c05-single-value", "C05", [(PROC, """        if end < begin:
""", """        if end <= begin:
""")], """
rc, files, _ = tool("cfs", [mod("a", seq("S", "x INTEGER(5..5)", "y INTEGER(0..7)"))], "a")
check(rc == 0, "5..5 refused")
""", "a range whose end is its begin", "refused")

bug("c06-size-twice", "C06", [(ELEM + "sequence.py", """        for member in self.get_children():
            bit_size += member.get_size_bits()
""", """        for member in self.get_children():
            if member.get_size_bits() > 0:
                bit_size += member.get_size_bits()
""")], """
d = [seq("S0", "x INTEGER(0..255)")]
for i in range(1, 29):
    d.append(seq("S%d" % i, "x S%d" % (i - 1)))
v = "x (1)"
for i in range(28):
    v = "x (WITH COMPONENTS { %s })" % v
d.append(seq("Top", "x S28 (WITH COMPONENTS { %s })" % v))
rc, files, _ = tool("binary", [mod("a", *d)], "a", extra=["--endianness", "little-endian"], timeout=60)
check(rc == 0, "deep nesting: %s" % rc)
""", "sequences nested some 25 levels deep and values for the binary generator", "the time to compute the size doubles with every level")

bug("c07-import-semicolon", "C07", [(GRAM, """    ('IMPORTS' import_items+=ImportItem ';' (comment_import=Asn1Comment)?)?
""", """    ('IMPORTS' import_items+=ImportItem ';'? (comment_import=Asn1Comment)?)?
""")], """
a = mod("a", "T ::= INTEGER(0..3)")
rc, files, _ = tool("cfs", [a, mod("b", "IMPORTS T FROM Module-a", "U ::= INTEGER(0..3)")], "a,b")
check(rc != 0 and not files, "missing semicolon accepted")
rc, files, _ = tool("cfs", [a, mod("b", "IMPORTS T FROM Module-a;", "U ::= INTEGER(0..3)")], "a,b")
check(rc == 0, "valid")
""", "an import without the closing semicolon", "accepted")

bug("c09-guard-prefix", "C09", [(CPR, """        symbol = f"ASN1_PARSER_{c_style_filename}_INCLUDED"
""", """        # identifiers should not be too long
        symbol = f"ASN1_PARSER_{c_style_filename[:40]}_INCLUDED"
""")], """
n = ["telemetry-definitions-of-the-first-unit-%s" % x for x in ("left", "right")]
ts = [mod(n[0], seq("Aa", "x INTEGER(0..255)")), mod(n[1], seq("Bb", "x INTEGER(0..255)"))]
rc, files, out = tool("cfs", ts, ",".join(n))
got = cc(out, "".join('#include "%s_msg.h"\\n' % x.replace("-", "_") for x in n) + '#include <stdio.h>\\nint main(void) { printf("%d", (int)(sizeof(Aa) + sizeof(Bb))); return 0; }')
check(got == "2", got)
""", "two modules whose long names only differ at the end, included together", "both headers have the same include guard, the second one is skipped")

bug("c10-own-and-outer-values", "C10", [(COS, """                            components_list.extend(inner_components_list)
""", """                            components_list = (
                                components_list or inner_components_list
                            )
""")], """
t = mod("a", seq("A", "x INTEGER(0..255)", "y INTEGER(0..255)"), seq("B", "a A (WITH COMPONENTS { x (1) })"), seq("S", "b B (WITH COMPONENTS { a (WITH COMPONENTS { y (2) }) })"))
rc, files, _ = tool("cosmos", [t], module="a", messages="S")
check(files["tlm.txt"].count(b"APPEND_ID_ITEM") == 2, files["tlm.txt"].decode())
""", "a member with values of its own to which an outer value list gives further values", "the outer ones are lost")

bug("c11-long-names", "C11", [(TPL, """            "{name:31s}",
""", """            "{name:31.31s}",
""")], """
n = "a-very-long-name-of-a-member-in-a-sequence"
t = mod("a", seq("S", n + " INTEGER(0..255)"))
rc, files, _ = tool("cosmos", [t], module="a", messages="S")
check(n.encode() in files["tlm.txt"], files["tlm.txt"].decode())
""", "a member whose name has more than 31 characters", "its name is cut in COSMOS and no longer that of the C struct")

bug("c14-double-big-endian", "C14", [(BIN, """            endianness: str = cls.ENDIANNESS[cls.endianness]
""", """            endianness: str = cls.ENDIANNESS[
                "little-endian"
                if c_type is TypeEnum.A_DOUBLE and value == int(value)
                else cls.endianness
            ]
""")], """
import struct
t = mod("a", seq("A", "x REAL(-1.0E300 .. 1.0E300)"), seq("S", "a A (WITH COMPONENTS { x (2.0) })"))
rc, files, _ = tool("binary", [t], "a", extra=["--endianness", "big-endian"])
check(files["s.bin"] == struct.pack(">d", 2.0), files["s.bin"])
""", "a double with an integral value in big-endian byte order", "written in little-endian byte order")

bug("c15-notes-of-earlier-bundles", "C15", [(BLD, """class ASN1BundleBuilder:
    @staticmethod
""", """class ASN1BundleBuilder:
    _simple_defs_used: Dict[str, Set[str]] = {}

    @staticmethod
"""), (BLD, """        bundle_simple_defs_used: Dict[str, Set[str]] = {}
""", """        bundle_simple_defs_used = ASN1BundleBuilder._simple_defs_used
""")], """
import os, sys
sys.path.insert(0, REPO)
from asn1_parser.asn1.asn1_bundle_builder import ASN1BundleBuilder
from asn1_parser.cli.cli_arg_parser import GenerateCFSCommandConfig
from asn1_parser.generators.cfs.generator import CFSGenerator
def go(d, texts, names):
    ps = []
    os.makedirs(os.path.join(TMP, d))
    for i, t in enumerate(texts):
        p = os.path.join(TMP, d, "%d.asn" % i)
        open(p, "w").write(t)
        ps.append(p)
    o = os.path.join(TMP, d, "o")
    c = GenerateCFSCommandConfig(REPO, ps, names, o)
    CFSGenerator.generate_cfs(c, ASN1BundleBuilder.build_from_cfs_config(c))
    return {n: open(os.path.join(o, n)).read() for n in os.listdir(o)}
one = go("one", [mod("a", "T ::= INTEGER(0..3)")], ["a"])
go("two", [mod("a", "T ::= INTEGER(0..3)", seq("S", "x T"))], ["a"])
check(go("three", [mod("a", "T ::= INTEGER(0..3)")], ["a"]) == one, "output depends on history")
""", "two bundles with a simple definition of the same name, generated in one process", "the note on its use names modules of the earlier bundle")

bug("c16-sorter-passes", "C16", [(SORT, """        while len(not_yet_defined) > 0:
            # copy(): do not modify something we iterate on
""", """        passes = 0
        while len(not_yet_defined) > 0:
            passes += 1
            if passes > 12:
                already_defined.extend(not_yet_defined)
                break
            # copy(): do not modify something we iterate on
""")], """
d = [seq("S0", "x INTEGER(0..255)")] + [seq("S%d" % i, "x S%d" % (i - 1)) for i in range(1, 16)]
got = []
for defs in (d, d[::-1]):
    rc, files, out = tool("cfs", [mod("a", *defs)], "a")
    check(rc == 0, "run")
    got.append(cc(out, '#include "a_msg.h"\\n#include <stdio.h>\\nint main(void) { printf("%d", (int)sizeof(S15)); return 0; }'))
check(got == ["1", "1"], got)
""", "a chain of more than twelve sequences, each defined before the one it uses", "the structs are written in the wrong order and the header does not compile")

bug("c17-description-spaces", "C17", [(COS, """                    comment = seq_item.get_comment().get_comment()
                    unit""", """                    comment = " ".join(
                        seq_item.get_comment().get_comment().split()
                    )
                    unit""")], """
t = mod("a", "S ::= SEQUENCE {", "  x INTEGER(0..65535) -- one  two", "}")
rc, files, _ = tool("cosmos", [t], module="a", messages="S")
check(b'"one  two"' in files["tlm.txt"], files["tlm.txt"].decode())
""", "a comment with two spaces in a row", "they are merged in the description")
