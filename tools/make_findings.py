"""Writes known_findings.json (development tool; no check runs it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mod(name, *lines):
    return "Module-%s DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n%s\nEND\n" % (name, "\n".join(lines))


CCSDS = [
    "Packet-id ::= SEQUENCE {",
    "  packet-version-number INTEGER(0..7),",
    "  packet-type-is-cmd BOOLEAN,",
    "  sec-hdr-flag-is-present BOOLEAN,",
    "  application-process-identifier INTEGER(0..2047)",
    "}",
    "Prim ::= SEQUENCE {",
    "  packet-identification Packet-id",
    "}",
    "Head ::= SEQUENCE {",
    "  primary Prim",
    "}",
]


def msg(name, apid):
    return [
        name + " ::= SEQUENCE {",
        "  header Head",
        "  (WITH COMPONENTS { primary (WITH COMPONENTS { packet-identification (WITH COMPONENTS { application-process-identifier (%d) }) }) })" % apid,
        "}",
    ]


FINDINGS = [
    {
        "id": "K2", "property": "C09", "probe": "header_invalid", "modules": ["a"],
        "inputs": [mod("a", "C ::= CHOICE {", "  x INTEGER(0..3),", "  y BOOLEAN", "}")],
        "what": "the C union generated for CHOICE { x INTEGER(0..3), y BOOLEAN } uses ASN.1 type names and does not compile",
    },
    {
        "id": "K3", "property": "C09", "probe": "header_invalid", "modules": ["a"],
        "inputs": [mod("a", "I ::= INTEGER(0..7)", "S ::= SEQUENCE {", "  x SEQUENCE (SIZE (3)) OF I", "}")],
        "what": "an array of INTEGER(0..7) becomes an array of bit fields, which does not compile (the same for arrays of booleans and enumerations)",
    },
    {
        "id": "K3b", "property": "C09", "probe": "struct_size", "modules": ["a"], "struct": "S", "wrong_bytes": 2,
        "inputs": [mod("a", "Uint8-t ::= INTEGER(0..255)", "S ::= SEQUENCE {", "  x SEQUENCE (SIZE (2)) OF SEQUENCE (SIZE (3)) OF Uint8-t", "}")],
        "what": "SEQUENCE (SIZE (2)) OF SEQUENCE (SIZE (3)) OF Uint8-t loses its inner dimension",
    },
    {
        "id": "K4", "property": "C10", "probe": "cosmos_items", "modules": ["a"], "message": "S",
        "wrong_items": [["APPEND_ITEM", "p", 4, ""], ["APPEND_ITEM", "q", 4, ""]],
        "inputs": [mod("a", "B ::= SEQUENCE {", "  p INTEGER(0..15),", "  q INTEGER(0..15)", "}", "S ::= SEQUENCE {", "  x SEQUENCE (SIZE (3)) OF B", "}")],
        "what": "SEQUENCE (SIZE (3)) OF B with B a SEQUENCE lists the fields of B once instead of three times",
    },
    {
        "id": "K4b", "property": "C11", "probe": "cosmos_items", "modules": ["a"], "message": "S",
        "wrong_items": [["APPEND_ITEM", "p", 8, ""]],
        "inputs": [mod("a", "B ::= SEQUENCE {", "  p INTEGER(0..255)", "}", "S ::= SEQUENCE {", "  x SEQUENCE (SIZE (3)) OF B", "}")],
        "what": "SEQUENCE (SIZE (3)) OF B is three elements in the cFS struct and one in the COSMOS packet",
    },
    {
        "id": "K6", "property": "C12", "probe": "macro", "modules": ["a"], "macro": "S_MID", "wrong_value": "(0x0801)",
        "inputs": [mod("a", *(CCSDS + msg("S", 2049)))],
        "what": "application-process-identifier (2049), beyond its range 0..2047, is accepted and sets the secondary header flag of the message id",
    },
    {
        "id": "K7", "property": "C03", "probe": "accepted", "modules": ["a"],
        "inputs": [mod("a", "S ::= SEQUENCE {", "  x INTEGER(0..3)", "  (WITH COMPONENTS { foo (1) })", "}")],
        "what": "x INTEGER(0..3) (WITH COMPONENTS { foo (1) }), a value for a component of a built-in type, is accepted",
    },
]

FIXED = [
    ("C06", "2711963", "the time to parse value lists grew exponentially with their nesting (9 s at 12 levels)"),
    ("C06", "bc30557", "the time to look up COSMOS types grew exponentially with the layers of modules which import each other"),
    ("C06", "5c2cc3b", "circular imports and recursive types were accepted or did not terminate"),
    ("C09", "686f3dc", "signed integers got the size of their end only"),
    ("C09", "701b7e8", "includes of imported modules lacked .h"),
    ("C10", "99d6ed5", "a BOOLEAN without value became an id item"),
    ("C10", "cc9730f", "an application process identifier without value raised an error"),
    ("C02", "d1f2e6e", "enumerations whose wrong numbers add up to zero were renumbered instead of rejected"),
    ("C15", "fc84f26", "the COSMOS generator changed the parsed model, so that packets depended on those generated before"),
    ("C04", "0ac557e", "the COSMOS generator accepted two files with the same module name"),
    ("C09", "b96684f", "a range with a single value zero gave a field of 0 bits"),
    ("C05", "185b2e5", "integer ranges beyond 64 bits were accepted"),
    ("C03", "eae0f60", "simple definitions of undefined types were accepted"),
    ("C09", "61d2489", "simple definitions of BOOLEAN were not 1 bit in C"),
    ("C10", "55500d6", "simple definitions of BOOLEAN had no states in COSMOS"),
    ("C09", "9080eac", "simple definitions of strings became single characters in C and failed in COSMOS"),
    ("C05", "30d51f9", "POSIX type names with another base type were accepted"),
    ("C07", "e95cf83", "comments with a backslash or */ were accepted and gave invalid C"),
    ("C17", "c5945f4", "double quotes in comments broke COSMOS files"),
    ("C14", "f00fcb8", "binary values were written in the order of the value list, and missing ones left out"),
    ("C14", "eb082af", "of several members with value lists only the last was written to the binary file"),
    ("C13", "8208491", "several members with value lists gave several definitions of one variable"),
    ("C13", "3b16ec6", "source files without values did not include their header; with several includes only one"),
    ("C04", "0ec649b", "members and enumeration items defined twice were accepted"),
    ("C04", "7b036f3", "components given twice in a value list were accepted"),
    ("C06", "fbd8ed4", "types recursive through simple definitions were accepted"),
    ("C18", "3044013", "generate-binary without byte order left the headers of modules before the first one with values"),
    ("C07", "3ca743c", "names and units with digits of other scripts were accepted"),
    ("C07", "0ea1e6c", "negative sizes of arrays and strings were accepted and gave invalid C"),
    ("C02", "d88752d", "an enumeration with several explicit zeros was renumbered instead of rejected"),
    ("C21", "5f1473f", "comments of choice items turned the following items of the union into a comment"),
    ("C13", "LARGE", "integers beyond 64 bits as value of a REAL became truncated integer constants in C"),
]

if __name__ == "__main__":
    import subprocess

    large = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep=large integer values of REAL"], capture_output=True, text=True).stdout.split()[0]
    fixed = ["fixed: property=%s %s %s" % (p, large if c == "LARGE" else c, w) for p, c, w in FIXED]
    with open(os.path.join(HERE, "known_findings.json"), "w") as f:
        json.dump({"findings": FINDINGS, "fixed": fixed}, f, indent=1)
        f.write("\n")
