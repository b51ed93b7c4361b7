BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


PROC = "asn1_parser/asn1/processor.py"
BLD = "asn1_parser/asn1/asn1_bundle_builder.py"
VAL = "asn1_parser/asn1/validation/asn1_bundle_validator.py"
GRAM = "asn1_parser/asn1/grammar.py"
GEN = "asn1_parser/generators/generator.py"
CFS = "asn1_parser/generators/cfs/generator.py"
CG = "asn1_parser/generators/c/generator.py"
BIN = "asn1_parser/generators/binary/generator.py"
COS = "asn1_parser/generators/cosmos/generator.py"
TPL = "asn1_parser/generators/cosmos/templates.py"
SORT = "asn1_parser/generators/cfs/module_sorter.py"
SIZE = "asn1_parser/utils/size.py"
CPR = "asn1_parser/c_printer.py"
CDATA = "asn1_parser/c_data.py"
PARSER = "asn1_parser/asn1/parser.py"
MAIN = "asn1_parser/main.py"
ELEM = "asn1_parser/asn1/grammar_elements/"

bug("c03-deep-components", "C03", [(PROC, """                if isinstance(component_value, WithComponents):
                    type_name_inner: str = [
""", """                if (
                    isinstance(component_value, WithComponents)
                    and component is with_component.get_components()[-1]
                ):
                    type_name_inner: str = [
""")], """
t = [seq("A", "x INTEGER(0..255)", "y INTEGER(0..255)"), seq("B", "p A", "q A"),
     seq("C", "b B (WITH COMPONENTS { p (WITH COMPONENTS { %s (1) }), q (WITH COMPONENTS { y (2) }) })")]
rc, files, _ = tool("c", [mod("a", *t) % "nope"], "a")
check(rc != 0 and not files, "unknown component accepted")
rc, files, _ = tool("c", [mod("a", *t) % "x"], "a")
check(rc == 0, "valid")
""", "an unknown component in a nested value list which is not the last of its list", "accepted")

bug("c04-module-list-subset", "C04", [(VAL, """        if missing_modules_in_bundle > 0:
            module_plurality""", """        if missing_modules_in_bundle > missing_modules_in_config:
            module_plurality"""), (VAL, """        if missing_modules_in_config > 0:
            module_plurality""", """        if missing_modules_in_config > 0 and len(config.asn1_modules) != len(
            bundle.get_modules_names()
        ):
            module_plurality""")], """
a = mod("a", "T ::= INTEGER(0..3)")
b = mod("b", "U ::= INTEGER(0..7)")
rc, files, _ = tool("cfs", [a, b], "a,c")
check(rc != 0 and not files, "wrong module list accepted")
rc, files, _ = tool("cfs", [a, b], "b,a")
check(rc == 0, "valid")
""", "a module list of the right length with one name exchanged", "accepted")

bug("c05-posix-begin", "C05", [(PROC, """            or posix.get("begin") != begin
            or posix.get("end") != end
""", """            or posix.get("begin", 0) > begin
            or posix.get("end") != end
""")], """
rc, files, _ = tool("cfs", [mod("a", "Int16-t ::= INTEGER(-5..32767)")], "a")
check(rc != 0 and not files, "wrong Int16-t accepted")
rc, files, _ = tool("cfs", [mod("a", "Int16-t ::= INTEGER(-32768..32767)")], "a")
check(rc == 0, "valid")
""", "a POSIX name with a begin above its range", "accepted")

bug("c06-size-twice", "C06", [(ELEM + "sequence.py", """        for member in self.get_children():
            bit_size += member.get_size_bits()
""", """        for member in self.get_children():
            if member.get_size_bits() > 0:
                bit_size += member.get_size_bits()
""")], """
d = [seq("S0", "x INTEGER(0..255)")]
for i in range(1, 26):
    d.append(seq("S%d" % i, "x S%d" % (i - 1)))
v = "x (1)"
for i in range(25):
    v = "x (WITH COMPONENTS { %s })" % v
d.append(seq("Top", "x S25 (WITH COMPONENTS { %s })" % v))
rc, files, _ = tool("binary", [mod("a", *d)], "a", extra=["--endianness", "little-endian"], timeout=60)
check(rc == 0, "deep nesting: %s" % rc)
""", "sequences nested some 25 levels deep and values for the binary generator", "the time to compute the size doubles with every level")

bug("c07-decode-ignore", "C07", [(PARSER, """            with open(input_file_path, "r", encoding="utf8") as input_file:
""", """            with open(
                input_file_path, "r", encoding="utf8", errors="ignore"
            ) as input_file:
""")], """
t = mod("a", "E ::= ENUMERATED { -- one", "x, y", "}").encode()
rc, files, _ = tool("cfs", [t.replace(b"one", b"o\\xffne")], "a")
check(rc != 0 and not files, "broken encoding accepted")
rc, files, _ = tool("cfs", [t], "a")
check(rc == 0, "valid")
""", "an input file with bytes which are not UTF-8", "the bytes are dropped and the file is accepted")

bug("c08-msgids-error-swallowed", "C08", [(CFS, """            c_printer.print_to_file(
                cdata=module_cdata,
                filename=filename_msgids,
                output_folder=output_folder,
                header_type=HeaderType.MSGIDS,
            )
""", """            try:
                c_printer.print_to_file(
                    cdata=module_cdata,
                    filename=filename_msgids,
                    output_folder=output_folder,
                    header_type=HeaderType.MSGIDS,
                )
            except IsADirectoryError:
                cls._logger.info(f"skipping '{filename_msgids}'")
""")], """
import os
out = os.path.join(TMP, "o")
os.makedirs(os.path.join(out, "a_msgids.h"))
rc, files, _ = tool("cfs", [mod("a", "E ::= ENUMERATED { x, y }")], "a", out=out)
check(rc != 0, "a file could not be written, but the exit status is 0")
""", "a folder lies where the message id header has to be written", "the header is missing and the exit status is 0")

bug("c08-binary-append", "C08", [(CPR, """                        mode="wb",
""", """                        mode="ab",
""")], """
import os
out = os.path.join(TMP, "o")
t = mod("a", seq("A", "x INTEGER(0..255)"), seq("S", "a A (WITH COMPONENTS { x (7) })"))
for i in range(2):
    rc, files, _ = tool("binary", [t], "a", out=out, extra=["--endianness", "little-endian"])
    check(rc == 0 and files["s.bin"] == b"\\x07", files.get("s.bin"))
""", "a second run into the same folder", "binary files grow with each run")

bug("c09-three-byte-fields", "C09", [(GEN, """            if c_type == TypeEnum.A_UINT and bit_size not in [8, 16, 32, 64]:
""", """            if c_type == TypeEnum.A_UINT and bit_size % 8 != 0:
""")], """
rc, files, out = tool("cfs", [mod("a", seq("S", "x INTEGER(0..16777215)", "y INTEGER(0..255)"))], "a")
got = cc(out, '#include "a_msg.h"\\n#include <stdio.h>\\nint main(void) { printf("%d", (int)sizeof(S)); return 0; }')
check(got == "4", got)
""", "an unsigned field of 24, 40, 48 or 56 bits", "the field becomes a whole integer of the next size")

bug("c10-limits-and", "C10", [(COS, """            and (begin > DOUBLE_MIN or end < DOUBLE_MAX)
""", """            and (begin > DOUBLE_MIN and end < DOUBLE_MAX)
""")], """
t = mod("a", seq("S", "x REAL(-1.7976931348623157E308 .. 1.5)"))
rc, files, _ = tool("cosmos", [t], module="a", messages="S")
check(b"LIMITS" in files["tlm.txt"], files["tlm.txt"].decode())
""", "a double with only one bound inside the range of its type", "the limits are missing")

bug("c12-version-or", "C12", [(CFS, """                    if inner_key == ASN1_KEY_CCSDS_VERSION:
                        tmtc_id = tmtc_id | (
                            inner_value << (id_len - bit_pkt_v)
                        )
""", """                    if inner_key == ASN1_KEY_CCSDS_VERSION:
                        tmtc_id = inner_value << (id_len - bit_pkt_v)
""")], """
H = [seq("Pid", "packet-version-number INTEGER(0..7)", "packet-type-is-cmd BOOLEAN", "sec-hdr-flag-is-present BOOLEAN", "application-process-identifier INTEGER(0..2047)"),
     seq("Prim", "packet-identification Pid"), seq("Head", "primary Prim")]
t = mod("a", *H, seq("Msg", "header Head (WITH COMPONENTS { primary (WITH COMPONENTS { packet-identification (WITH COMPONENTS { application-process-identifier (5), packet-version-number (1) }) }) })"))
rc, files, _ = tool("cfs", [t], "a")
check(b"MSG_MID (0x2005)" in files["a_msgids.h"], files["a_msgids.h"])
""", "the version number written after another component", "the components before it are lost")

bug("c13-float-digits", "C13", [(CG, """                    + " = "
                    + str(value)
                    + ",\\n"
""", """                    + " = "
                    + (f"{value:g}" if isinstance(value, float) else str(value))
                    + ",\\n"
""")], """
t = mod("a", seq("A", "x REAL(-1.0E300 .. 1.0E300)"), seq("S", "a A (WITH COMPONENTS { x (3.14159265358979) })"))
rc, files, out = tool("c", [t], "a")
got = cc(out, '#include "a.c"\\n#include <stdio.h>\\nint main(void) { printf("%d", s.a.x == 3.14159265358979); return 0; }')
check(got == "1", got)
""", "a real value with more than six digits", "the value is rounded")

bug("c15-second-byteorder", "C15", [(BIN, """        cls.endianness = config.endianness
""", """        cls.endianness = cls.endianness or config.endianness
""")], """
import subprocess, os, sys
sys.path.insert(0, REPO)
from asn1_parser.asn1.asn1_bundle_builder import ASN1BundleBuilder
from asn1_parser.cli.cli_arg_parser import GenerateBinaryCommandConfig
from asn1_parser.generators.binary.generator import BinaryGenerator
t = mod("a", seq("A", "x INTEGER(0..65535)"), seq("S", "a A (WITH COMPONENTS { x (1) })"))
p = os.path.join(TMP, "a.asn")
open(p, "w").write(t)
got = []
for e in ("little-endian", "big-endian"):
    o = os.path.join(TMP, e)
    c = GenerateBinaryCommandConfig(REPO, [p], ["a"], o, e)
    BinaryGenerator.generate_binary(c, ASN1BundleBuilder.build_from_binary_config(c))
    got.append(open(os.path.join(o, "s.bin"), "rb").read())
check(got == [b"\\x01\\0", b"\\0\\x01"], got)
""", "two generations with different byte orders in one process", "the second one uses the byte order of the first")

bug("c15-module-note-order", "C15", [(CFS, """                            for module in (
                                sorted((used_simple_defs[def_type_name]))
                            )
""", """                            for module in used_simple_defs[def_type_name]
""")], """
ts = [mod("zero", "T ::= INTEGER(0..3)")]
for n in ("ab", "cd", "ef", "gh"):
    ts.append(mod(n, "IMPORTS T FROM Module-zero;", seq("S" + n, "x T")))
got = set()
for h in range(12):
    rc, files, _ = tool("cfs", ts, "zero,ab,cd,ef,gh", env={"PYTHONHASHSEED": str(h)})
    check(rc == 0, "run")
    got.add(files["zero_msg.h"])
check(len(got) == 1, "%d different outputs" % len(got))
""", "a simple definition used in several modules, and different hash seeds", "the modules are listed in the order of the hash table")

bug("c16-crlf", "C16", [(PARSER, """            with open(input_file_path, "r", encoding="utf8") as input_file:
""", """            with open(
                input_file_path, "r", encoding="utf8", newline=""
            ) as input_file:
""")], """
t = mod("a", "E ::= ENUMERATED { -- one", "x, -- two", "y", "}")
rc, f1, _ = tool("cfs", [t], "a")
rc2, f2, _ = tool("cfs", [t.replace("\\n", "\\r\\n").encode()], "a")
check(rc == rc2 == 0 and f1 == f2, (rc2, f2))
""", "an input with CRLF line ends and comments", "carriage returns reach the comments")

bug("c17-little-endian-leak", "C17", [(COS, """        if isinstance(definition, Sequence):
            for seq_item in definition.get_children():
                item_name: str = seq_item.get_key()
""", """        if isinstance(definition, Sequence):
            little_endian: Optional[bool] = None
            for seq_item in definition.get_children():
                item_name: str = seq_item.get_key()
"""), (COS, """                unit: str = ""
                little_endian: Optional[bool] = None
""", """                unit: str = ""
""")], """
t = mod("a", "S ::= SEQUENCE {", "  x INTEGER(0..65535), -- ENDIANNESS(LITTLE) one", "  y INTEGER(0..65535)", "}")
rc, files, _ = tool("cosmos", [t], module="a", messages="S")
check(files["tlm.txt"].count(b"LITTLE_ENDIAN") == 1, files["tlm.txt"].decode())
""", "a little-endian item followed by one without any comment", "the mark is carried over to the next item")

