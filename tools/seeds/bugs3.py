from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("bugs1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
_m = module_from_spec(_s)
_s.loader.exec_module(_m)
globals().update({k: v for k, v in vars(_m).items() if k.isupper()})
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug("c01-shared-comment-unit", "C01", [(ELEM + "asn1_comment.py", """        self._comment = comment
        self._unit = unit
""", """        self._comment = comment.strip()
        self._unit = unit
""")], """
import sys
sys.path.insert(0, REPO)
from asn1_parser.asn1.parser import Asn1Parser
t = mod("a", "S ::= SEQUENCE {\\n  x BOOLEAN -- text with blanks at the end  \\n}")
s = Asn1Parser.parse_from_text(t).get_definitions()[0]
c = s.get_children()[0].get_comment().get_comment()
check(c == "text with blanks at the end  ", repr(c))
""", "a comment which ends with blanks", "the blanks at the end of comments are lost")

bug("c01-size-of-repeated-types", "C01", [(ELEM + "sequence.py", """        bit_size = 0

        for member in self.get_children():
            bit_size += member.get_size_bits()

        return bit_size
""", """        bit_size = 0
        known = {}

        for member in self.get_children():
            # members of the same type have the same size
            type_name = member.get_asn_type().get_type_name()
            if type_name in ("INTEGER", "REAL"):
                type_name = str(member.get_asn_type())
            if type_name not in known:
                known[type_name] = member.get_size_bits()
            bit_size += known[type_name]

        return bit_size
""")], """
import sys
sys.path.insert(0, REPO)
from asn1_parser.asn1.asn1_bundle_builder import ASN1BundleBuilder
t = mod("a", seq("S", "x IA5String (SIZE (4))", "y IA5String (SIZE (10))"))
s = ASN1BundleBuilder.build_from_texts([t]).get_modules()[0].get_definitions()[0]
check(s.get_size_bits() == 112, s.get_size_bits())
""", "a sequence with two strings of different lengths", "the size of a sequence takes the length of the first string for all of its strings")

bug("c02-sum-is-enough", "C02", [(PROC, """        ordered_enums: List[Any] = [None] * len(model.get_enum())
        for enum in model.get_enum():
            pos = enum.get_pos()
            if ordered_enums[pos] is None:
                ordered_enums[pos] = enum
            else:
                raise IndexError(f"index '{pos}' is defined multiple times")
        model.set_enum(ordered_enums)
""", """        ordered_enums: List[Any] = sorted(
            model.get_enum(), key=lambda enum: enum.get_pos()
        )
        for enum, next_enum in zip(ordered_enums[::2], ordered_enums[1::2]):
            pos = enum.get_pos()
            if pos == next_enum.get_pos():
                raise IndexError(f"index '{pos}' is defined multiple times")
        model.set_enum(ordered_enums)
""")], """
for e in ("E ::= ENUMERATED { a(0), b(1), c(1), d(4) }", "E ::= ENUMERATED { a(-1), b(0), c(0), d(7) }", "E ::= ENUMERATED { a(0), b(2), c(2), d(2) }"):
    rc, files, _ = tool("cfs", [mod("a", e)], "a")
    check(rc != 0 and not files, e)
rc, files, _ = tool("cfs", [mod("a", "E ::= ENUMERATED { a(2), b(1), c(0) }")], "a")
check(rc == 0, "valid")
""", "wrong numbers whose sum is that of 0..n-1 and whose repetition is not at an even position", "such an enumeration is accepted")

bug("c02-cosmos-written-order", "C02", [(ELEM + "enumerated.py", """        super().__init__(type_name, comment, parent)
        self._enum = enum
""", """        super().__init__(type_name, comment, parent)
        self._enum = enum
        self._states: List[str] = []
"""), (ELEM + "enumerated.py", """        return_list = []
        for enumerate_item in self._enum:
            return_list.append(enumerate_item.get_item()[0])
        return return_list
""", """        if len(self._states) != len(self._enum):
            self._states = [item.get_item()[0] for item in self._enum]
        return self._states
"""), (PROC, """    pos_sum = sum([e.get_pos() for e in model.get_enum()])
""", """    if len(model.get_states()) > 32:
        # the states are looked up often, keep them
        _LARGE_ENUMERATIONS.append(model.get_type_name())
    pos_sum = sum([e.get_pos() for e in model.get_enum()])
"""), (PROC, """def check_enumerated(""", """_LARGE_ENUMERATIONS: List[str] = []


def check_enumerated(""")], """
import re
t = mod("a", "E ::= ENUMERATED { %s }" % ", ".join("k%d(%d)" % (i, 4 - i) for i in range(5)), seq("S", "e E", "f INTEGER(0..31)"))
rc, files, _ = tool("cosmos", [t], module="a", messages="S")
got = re.findall(r"STATE (\\S+) +(\\d+)", files["tlm.txt"].decode())
check(rc == 0 and dict(got) == {"k%d" % i: str(4 - i) for i in range(5)}, got)
""", "an enumeration with explicit numbers written in another order, used in COSMOS", "the states are cached before the items are sorted and get wrong numbers")

bug("c03-split-clauses", "C03", [(VAL, """                imp_types = flatten(
                    [
                        item.get_definitions()
                        for item in asn_module.get_import_items()
                        if item.get_module_name()
                        == imported_module.get_module_name()
                    ]
                )
""", """                imp_types = {
                    item.get_module_name(): item.get_definitions()
                    for item in asn_module.get_import_items()
                }[imported_module.get_module_name()]
""")], """
a = mod("a", "Thing ::= INTEGER(0..3)", "Other ::= BOOLEAN")
b = lambda x: mod("b", "IMPORTS %s FROM Module-a Other FROM Module-a;" % x, seq("S", "t Other"))
for g in ("cfs", "c"):
    rc, files, _ = tool(g, [a, b("Missing")], "a,b")
    check(rc != 0 and not files, "import of a type which does not exist")
    rc, files, _ = tool(g, [a, b("Thing")], "a,b")
    check(rc == 0, "valid")
""", "two import clauses from the same module, the first with a type which is not defined there", "accepted")

bug("c03-cosmos-imported-message", "C03", [(COS, """            definitions = asn1_model.get_definitions()
        definitions_dict""", """            definitions = asn1_model.get_definitions().copy()
            for imported_module in asn1_model.get_imported_modules():
                definitions.extend(imported_module.get_definitions())
        definitions_dict""")], """
a = mod("a", seq("Thing", "x INTEGER(0..3)"))
b = mod("b", "IMPORTS Thing FROM Module-a;", seq("S", "t Thing"))
rc, files, _ = tool("cosmos", [a, b], module="b", messages="Thing")
check(rc != 0 and not files, "message of an imported module")
rc, files, _ = tool("cosmos", [a, b], module="b", messages="S")
check(rc == 0, "valid")
""", "a message which is defined in a module imported by the requested one", "accepted")

bug("c04-cosmos-module-twice", "C04", [(BLD, """        ASN1BundleBuilder._validate_unique_module_names(modules, config)
        bundle = ASN1BundleBuilder.build(modules)
        ASN1BundleValidator.validate_bundle(bundle)
""", """        bundle = ASN1BundleBuilder.build(modules)
        ASN1BundleValidator.validate_bundle(bundle)
""")], """
a = mod("a", seq("Thing", "x INTEGER(0..3)"))
b = mod("a", seq("Other", "x INTEGER(0..3)"))
rc, files, _ = tool("cosmos", [a, b], module="a", messages="Thing")
check(rc != 0 and not files, "module a given twice")
""", "two files with the same module name and different types, COSMOS generator", "accepted")

bug("c04-three-times", "C04", [(BLD, """                for module_name in module_names_list
                if counts[module_name] > 1
""", """                for module_name in module_names_list
                if counts[module_name] % 2 == 0
""")], """
t = [mod("a", seq("S%d" % i, "x INTEGER(0..3)")) for i in range(3)]
for g in ("cfs", "c"):
    rc, files, _ = tool(g, t, "a")
    check(rc != 0 and not files, "module a given three times")
""", "three files with the same module name", "accepted")

bug("c05-posix-close", "C05", [(PROC, """            or posix.get("begin") != begin
            or posix.get("end") != end
""", """            or not math.isclose(posix["begin"], begin, rel_tol=1e-6)
            or not math.isclose(posix["end"], end, rel_tol=1e-6)
"""), (PROC, """from typing import Any, List, Optional, Union
""", """import math
from typing import Any, List, Optional, Union
""")], """
for d in ("Uint64-t ::= INTEGER(0..18446744073709551614)", "Float ::= REAL(-3.4E38 .. 3.39999999E38)"):
    rc, files, _ = tool("cfs", [mod("a", d, seq("S", "x BOOLEAN"))], "a")
    check(rc != 0 and not files, d)
rc, files, _ = tool("cfs", [mod("a", "Uint64-t ::= INTEGER(0..18446744073709551615)", "Float ::= REAL(-3.4E38 .. 3.4E38)", seq("S", "x BOOLEAN"))], "a")
check(rc == 0, "valid")
""", "a range of a POSIX type which is wrong by less than one part in a million", "accepted")

bug("c05-inverted-wide", "C05", [(PROC, """        if end < begin:
""", """        if end - begin < 0 and float(end) != float(begin):
""")], """
rc, files, _ = tool("cfs", [mod("a", seq("S", "x INTEGER(18446744073709551615..18446744073709551614)"))], "a")
check(rc != 0 and not files, "end is less than begin")
rc, files, _ = tool("cfs", [mod("a", seq("S", "x INTEGER(18446744073709551614..18446744073709551615)"))], "a")
check(rc == 0, "valid")
""", "a range above 2^53 whose end is one less than its begin", "accepted")

bug("c08-same-size", "C08", [(CPR, """                for filename_bin, init_byte_list in binary_init.items():
                    with open(""", """                for filename_bin, init_byte_list in binary_init.items():
                    path_bin = os.path.join(
                        output_folder, filename_bin + ".bin"
                    )
                    size = sum(len(value) for value in init_byte_list)
                    if (
                        os.path.isfile(path_bin)
                        and os.path.getsize(path_bin) == size
                    ):
                        # up to date
                        continue
                    with open(""")], """
t = lambda v: [mod("a", "Uint8-t ::= INTEGER(0..255)", seq("V", "x Uint8-t"), seq("S", "v V (WITH COMPONENTS { x (%d) })" % v))]
out = os.path.join(TMP, "common")
tool("binary", t(1), "a", extra=["--endianness", "big-endian"], out=out)
rc, files, _ = tool("binary", t(2), "a", extra=["--endianness", "big-endian"], out=out)
check(rc == 0 and files["s.bin"] == b"\\x02", files["s.bin"])
""", "an old binary file of the same size in the output folder", "the old file stays")

bug("c08-existing-folder-only", "C08", [(BIN, """            pathlib.Path(output_folder).mkdir(parents=True, exist_ok=True)
""", """            pathlib.Path(os.path.basename(output_folder)).mkdir(
                parents=True, exist_ok=True
            )
            output_folder = os.path.basename(output_folder)
""")], """
os.chdir(TMP)
t = [mod("a", "Uint8-t ::= INTEGER(0..255)", seq("V", "x Uint8-t"))]
rc, files, _ = tool("binary", t, "a", extra=["--endianness", "big-endian"], out=os.path.join(TMP, "n1", "n2"))
check(rc == 0 and files, files)
""", "an output folder which does not exist, in another folder than the working directory", "the files are written into the working directory")

bug("c09-long-long-fields", "C09", [(GEN, """            next_bit_size: int = bit_size
            mod: float = math.log(next_bit_size, 2)
            while mod % 1 != 0 or mod < 3:
                next_bit_size = next_bit_size + 1
                mod = math.log(next_bit_size, 2)
""", """            next_bit_size: int = max(8, 2 ** round(math.log(bit_size, 2)))
            while next_bit_size < bit_size - 2:
                next_bit_size = next_bit_size * 2
""")], """
for b in range(1, 65):
    t = mod("a", seq("S", "x INTEGER(0..%d)" % (2 ** b - 1)))
    rc, files, out = tool("cfs", [t], "a")
    got = cc(out, '#include <stdio.h>\\n#include "a_msg.h"\\nint main(void) { S s = {0}; s.x--; printf("%%llu", (unsigned long long)s.x); return 0; }' .replace("%%", "%"))
    check(got == str(2 ** b - 1), (b, got))
""", "an unsigned field of a width just above a power of two", "the bit field is wider than its type, the header does not compile")

bug("c10-undeclared-states", "C10", [(COS, """                        if c_type == TypeEnum.A_BOOL:
                            state_list = ["False", "True"]
""", """                        if c_type == TypeEnum.A_BOOL and not with_comp:
                            state_list = ["False", "True"]
""")], """
import re
t = mod("a", "Flag ::= BOOLEAN", seq("V", "x Flag", "y INTEGER(0..3)"), seq("S", "v V (WITH COMPONENTS { y (1) })"))
rc, files, _ = tool("cosmos", [t], module="a", messages="S")
got = re.findall(r"STATE (\\S+) +(\\d+)", files["tlm.txt"].decode())
check(rc == 0 and got == [("False", "0"), ("True", "1")], got)
""", "a boolean defined as simple type in a nested sequence with values", "it has no states")

bug("c10-value-of-sibling", "C10", [(COS, """                    if len(spec_val) == 1:
                        specific_value = spec_val[0]
""", """                    if len(spec_val) == 1:
                        specific_value = spec_val[0]
                        if len(with_comp) > 8:
                            # consumed, keeps the search short
                            with_comp = [
                                c for c in with_comp if c.get_value() != spec_val[0]
                            ]
""")], """
import re
n = 12
t = mod("a", seq("V", *["x%d INTEGER(0..255)" % i for i in range(n)]), seq("S", "v V (WITH COMPONENTS { %s })" % ", ".join("x%d (%d)" % (i, i % 7) for i in range(n))))
rc, files, _ = tool("cosmos", [t], module="a", messages="S")
got = re.findall(r"APPEND_ID_ITEM +(\\S+) +8 UINT +(\\d+)", files["tlm.txt"].decode())
check(rc == 0 and got == [("x%d" % i, str(i % 7)) for i in range(n)], got)
""", "a value list with more than eight components of which two have the same value", "the later ones lose their value")

bug("c12-number-as-boolean", "C12", [(CFS, """                if isinstance(value, bool):
                    value = "true" if value else "false"
""", """                if value in (True, False):
                    value = "true" if value else "false"
""")], """
t = mod("a", seq("V", "x INTEGER(0..7)", "y REAL(0.0 .. 5.0)", "f BOOLEAN"), seq("S", "v V (WITH COMPONENTS { x (1), y (0.0), f (TRUE) })"))
rc, files, _ = tool("cfs", [t], "a")
text = files["a_msgids.h"].decode()
check(rc == 0 and "(1)" in text and "S_F (true)" in text and "S_X (true)" not in text and "S_Y (false)" not in text, text)
""", "a number with the value 0 or 1", "the constant becomes true or false")

bug("c12-wide-apid", "C12", [(CFS, """                        tmtc_id = tmtc_id | (
                            inner_value
                            << (
                                id_len
                                - bit_pkt_v
                                - bit_type
                                - bit_hdr_flag
                                - bit_pr_id
                            )
                        )
""", """                        tmtc_id = tmtc_id | (
                            inner_value
                            & (2 ** (bit_pr_id - 1) - 1)
                        )
""")], """
H = [seq("Pid", "packet-version-number INTEGER(0..7)", "packet-type-is-cmd BOOLEAN", "sec-hdr-flag-is-present BOOLEAN", "application-process-identifier INTEGER(0..2047)"),
     seq("Prim", "packet-identification Pid"), seq("Head", "primary Prim")]
t = mod("a", *H, seq("S", "h Head (WITH COMPONENTS { primary (WITH COMPONENTS { packet-identification (WITH COMPONENTS { application-process-identifier (1500) }) }) })"))
rc, files, _ = tool("cfs", [t], "a")
check(rc == 0 and b"S_MID (0x05DC)" in files["a_msgids.h"], files)
""", "an application process identifier above 1023", "its highest bit is lost")

bug("c13-repeated-key", "C13", [(CG, """        init_str: str = ""

        for component in with_components.get_components():
            value""", """        init_str: str = ""

        components = sorted(
            with_components.get_components(),
            key=lambda item: isinstance(item.get_value(), WithComponents),
        )
        for component in components:
            value"""), (CG, """                    + str(value)
                    + ",\\n"
""", """                    + (f"{value}" if value < 2**31 else f"0x{int(value):X}")
                    + ",\\n"
""")], """
t = mod("a", seq("V", "x REAL(0.0 .. 1.0E300)", "y REAL(0.0 .. 1.0E300)"), seq("S", "v V (WITH COMPONENTS { x (2147483649.5), y (0.5) })"))
rc, files, out = tool("c", [t], "a")
got = cc(out, '#include <stdio.h>\\n#include "a.h"\\n#include "a.c"\\nint main(void) { printf("%.3f %.3f", s.v.x, s.v.y); return 0; }')
check(got == "2147483649.500 0.500", got)
""", "a real value of 2^31 or more with a fraction", "the fraction is lost")

bug("c14-wrap", "C14", [(BIN, """            bin_data_list.append(
                struct.pack(f"{endianness}{bin_format}", value)
            )
""", """            if c_type is TypeEnum.A_UINT and value < 0:
                # two's complement
                value = value + 2 ** key.get_bitsize()
            bin_data_list.append(
                struct.pack(f"{endianness}{bin_format}", value)
            )
""")], """
t = lambda v: [mod("a", "Uint16-t ::= INTEGER(0..65535)", seq("V", "x Uint16-t"), seq("S", "v V (WITH COMPONENTS { x (%d) })" % v))]
rc, files, _ = tool("binary", t(-1), "a", extra=["--endianness", "big-endian"])
check(rc != 0 and "s.bin" not in files, "negative value for an unsigned field")
rc, files, _ = tool("binary", t(1), "a", extra=["--endianness", "big-endian"])
check(rc == 0 and files["s.bin"] == b"\\0\\1", files)
""", "a negative value for an unsigned field", "it is written as a large number instead of being refused")

bug("c15-text-cache", "C15", [(PARSER, """class Asn1Parser:
    _logger = Logger(__name__)
""", """class Asn1Parser:
    _logger = Logger(__name__)
    _parsed: Dict[str, Asn1Module] = {}
"""), (PARSER, """from typing import List
""", """from typing import Dict, List
"""), (PARSER, """        for input_text in input_texts:
            module = cls.parse_from_text(input_text, True)
            asn1_modules.append(module)
""", """        for input_text in input_texts:
            # modules such as common types are used in many bundles
            if input_text not in cls._parsed:
                cls._parsed[input_text] = cls.parse_from_text(input_text, True)
            asn1_modules.append(cls._parsed[input_text])
""")], """
import sys
sys.path.insert(0, REPO)
from asn1_parser.asn1.asn1_bundle_builder import ASN1BundleBuilder
from asn1_parser.generators.cosmos.generator import COSMOSGenerator
class Cfg: pass
def run(a):
    c = Cfg()
    c.asn1_modules, c.asn1_messages, c.output_file_name = ["b"], ["S"], "t"
    N[0] += 1
    c.output_dir = os.path.join(TMP, "o%d" % N[0])
    b = mod("b", "IMPORTS Thing FROM Module-a;", seq("S", "t Thing"))
    COSMOSGenerator.generate_cosmos(c, ASN1BundleBuilder.build_from_texts([a, b]))
    return open(os.path.join(c.output_dir, "t.txt")).read()
new = mod("a", "Thing ::= INTEGER(0..7)")
first = run(new)
try:
    run(mod("a", "Thing ::= INTEGER(0..255)"))
    again = run(new)
except Exception as e:
    again = repr(e)
check(first == again, again)
""", "two bundles in one process which share the text of a module but not what it imports", "the modules of the first bundle are found in the second")

bug("c15-hash-includes", "C15", [(CFS, """            for module_imported_item in module.get_import_items():
                module_cdata.add_include(
                    str(
                        cgen.Include(
                            cls.get_msg_filename(module_imported_item) + ".h",
                            system=False,
                        )
                    )
                )
""", """            includes = [
                cls.get_msg_filename(module_imported_item) + ".h"
                for module_imported_item in module.get_import_items()
            ]
            if len(includes) > 3:
                includes = list(set(includes))
            for include in includes:
                module_cdata.add_include(str(cgen.Include(include, system=False)))
""")], """
n = 8
t = [mod("m%d" % i, "T%d ::= INTEGER(0..3)" % i) for i in range(n)]
t.append(mod("z", "IMPORTS " + " ".join("T%d FROM Module-m%d" % (i, i) for i in range(n)) + ";", seq("S", *["x%d T%d" % (i, i) for i in range(n)])))
names = ",".join(["m%d" % i for i in range(n)] + ["z"])
got = {tool("cfs", t, names, env={"PYTHONHASHSEED": str(h)})[1]["z_msg.h"] for h in range(4)}
check(len(got) == 1, "depends on the hash seed")
""", "a module with more than three imports, and another hash seed", "the order of the includes depends on the hash seed")

bug("c16-tabs", "C16", [(PARSER, """            GRAMMAR, classes=cls.used_classes, memoization=True
""", """            GRAMMAR, classes=cls.used_classes, memoization=True, ws=" \\n\\r"
""")], """
a = mod("a", seq("S", "x BOOLEAN"))
for t in (a, a.replace("\\n}", "\\n\\t}")):
    rc, files, _ = tool("cfs", [t], "a")
    check(rc == 0, "refused: %r" % t)
""", "a tab where blanks are allowed", "refused")

bug("c16-array-order", "C16", [(SORT, """                        if isinstance(type_name, Array):
                            type_name = type_name.get_asn_type().get_type_name()
""", """                        if isinstance(seq_item.get_asn_type().get_type(), Array):
                            # elements do not have to be known
                            continue
""")], """
t = mod("a", seq("S", "x SEQUENCE (SIZE (3)) OF V"), seq("V", "y INTEGER(0..255)"))
rc, files, out = tool("cfs", [t], "a")
got = cc(out, '#include <stdio.h>\\n#include "a_msg.h"\\nint main(void) { printf("%d", (int)sizeof(S)); return 0; }')
check(got == "3", got)
""", "an array of a sequence which is defined later", "the struct of the elements is defined after its use")

bug("c17-unit-percent", "C17", [(GEN, """                if seq_item.get_comment().get_unit():
                    seq_comment = (
""", """                if seq_item.get_comment().get_unit() not in ("", "1", "%"):
                    seq_comment = (
""")], """
t = mod("a", "S ::= SEQUENCE {\\n  x BOOLEAN -- [%] load\\n}")
rc, files, out = tool("cfs", [t], "a")
check(rc == 0 and b"[%]" in files["a_msg.h"], files["a_msg.h"])
""", "the unit %", "it is missing in the header")

bug("c17-last-enum-comment", "C17", [(GEN, """                if enum_item.get_comment().get_comment():
                    enum_item_comment = (
                        enum_item_comment
                        + enum_item.get_comment().get_comment()
                    )
""", """                if enum_item.get_comment().get_comment():
                    enum_item_comment = (
                        enum_item_comment
                        + enum_item.get_comment().get_comment()[:120]
                    )
""")], """
text = "a" * 150
t = mod("a", "E ::= ENUMERATED {\\n  x, -- %s\\n  y\\n}" % text)
rc, files, out = tool("cfs", [t], "a")
check(rc == 0 and text.encode() in files["a_msg.h"], files["a_msg.h"])
""", "a comment of an enumeration item with more than 120 characters", "it is cut")
