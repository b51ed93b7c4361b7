from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("bugs1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
_m = module_from_spec(_s)
_s.loader.exec_module(_m)
globals().update({k: v for k, v in vars(_m).items() if k.isupper()})
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug("c21-order-of-choices", "C21", [(SORT, """                if isinstance(definition, (Sequence, Choice)):
""", """                if isinstance(definition, Sequence):
"""), (SORT, """                elif isinstance(definition, Enumerated):
                    # Enumerated did not use other types, put it directly to
""", """                elif isinstance(definition, (Enumerated, Choice)):
                    # Enumerated did not use other types, put it directly to
""")], """
t = mod("a", "C ::= CHOICE {", "  x S,", "  y E", "}", seq("S", "p INTEGER(0..255)"), "E ::= ENUMERATED {", "  r,", "  g", "}")
rc, f, out = tool("c", [t], "a")
h = f["a.h"].decode()
check(rc == 0 and h.index("union C") > h.index("} __attribute__((packed)) S;") and h.index("union C") > h.index("} __attribute__((packed)) E;"), h)
""", "a choice which stands before the types of its alternatives", "the union precedes the types it needs")

bug("c21-same-type-once", "C21", [(GEN, """        for choice_item in definition.get_children():
""", """        # items of one type share their memory anyway
        for choice_item in {
            str(item.get_asn_type().get_type_name()): item
            for item in definition.get_children()
        }.values():
""")], """
t = mod("a", seq("S", "p INTEGER(0..255)"), seq("T", "p INTEGER(0..7)"), "C ::= CHOICE {", "  x S,", "  y T,", "  z S", "}")
rc, f, out = tool("cfs", [t], "a")
h = f["a_msg.h"].decode()
check(rc == 0 and all("%s %s;" % x in h for x in (("S", "x"), ("T", "y"), ("S", "z"))), h)
""", "a choice with two alternatives of one type", "only one of them is in the union")

bug("c21-unit-alone", "C21", [(GEN, """                if choice_item.get_comment().get_comment():
                    choice_comment = (
                        choice_comment + choice_item.get_comment().get_comment()
                    )
                choice_comment = "     " + str(cgen.LineComment(choice_comment))
""", """                if choice_item.get_comment().get_comment():
                    choice_comment = (
                        choice_comment + choice_item.get_comment().get_comment()
                    )
                    choice_comment = "     " + str(
                        cgen.LineComment(choice_comment)
                    )
                else:
                    choice_comment = ""
""")], """
t = mod("a", seq("S", "p INTEGER(0..255)"), "C ::= CHOICE {", "  x S, -- [km] text", "  y S -- [m]", "}")
rc, f, out = tool("cfs", [t], "a")
h = f["a_msg.h"].decode()
check(rc == 0 and "[km] text" in h and "[m]" in h, h)
""", "an alternative whose comment is a unit only", "the unit is lost")

bug("c17-unit-length", "C17", [(GRAM, """\\\\^]+/ ']')?""", """\\\\^]{1,16}/ ']')?""")], """
for n in 16, 17:
    u = "m" * n
    t = mod("a", "S ::= SEQUENCE {", "  p INTEGER(0..255) -- [%s] text" % u, "}")
    rc, f, out = tool("c", [t], "a")
    check(rc == 0 and "[%s] text" % u in f["a.h"].decode(), (rc, f))
""", "a unit with more than 16 characters", "the comment is refused")

bug("c10-long-sizes", "C10", [(TPL, '''{bitsize:>7s}''', '''{bitsize:>7.5s}''')], """
t = mod("a", "U ::= IA5String (SIZE (20000))", "S ::= SEQUENCE {", "  p IA5String (SIZE (20000))", "}")
rc, f, out = tool("cosmos", [t], module="a", messages="S")
check(rc == 0 and b" 160000 " in f["tlm.txt"], f)
""", "an item of more than 99999 bits", "its size is cut off")

bug("c15-header-once", "C15", [(COS, """            out.write("# This file was autogenerated from ASN.1 model.\\n")
""", """            if not out.tell():
                out.write("# This file was autogenerated from ASN.1 model.\\n")
""")], """
import os
t = mod("a", seq("S", "p INTEGER(0..255)"), seq("T", "p INTEGER(0..255)"))
one = [tool("cosmos", [t], module="a", messages=x)[1]["tlm.txt"] for x in "ST"]
rc, f, out = tool("cosmos", [t], module="a", messages="S")
rc2, f2, _ = tool("cosmos", [t], module="a", messages="T", out=out)
check(rc == rc2 == 0 and f2["tlm.txt"] == one[0] + one[1], f2)
""", "a second run into the same file", "its output differs from that of a run of its own")

