from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("bugs1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
_m = module_from_spec(_s)
_s.loader.exec_module(_m)
globals().update({k: v for k, v in vars(_m).items() if k.isupper()})
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))



CLI = "asn1_parser/cli/cli_arg_parser.py"

bug("c04-file-read-once", "C04", [(PARSER, """        for input_file_path in input_file_paths:
""", """        # wildcards on the command line can name a file several times
        for input_file_path in dict.fromkeys(input_file_paths):
""")], """
import os
t = mod("a", seq("S", "p INTEGER(0..255)"))
p = os.path.join(TMP, "x.asn")
open(p, "w").write(t)
rc, f, out = tool("cfs", [], "a", extra=[p])
check(rc == 0, f)
rc, f, out = tool("cfs", [], "a", extra=[p, p])
check(rc != 0 and not f, f)
""", "the same path given twice", "the command is accepted although a module is given twice")

bug("c04-empty-names", "C04", [(CLI, """    fields_array = fields.split(",")
""", """    fields_array = [f for f in fields.split(",") if f]
""")], """
t = mod("a", seq("S", "p INTEGER(0..255)"))
u = mod("b", seq("T", "p INTEGER(0..255)"))
for names, ok in (("a,b", True), ("a,,b", False), ("a,b,", False)):
    rc, f, out = tool("c", [t, u], names)
    check((rc == 0) == ok and bool(f) == ok, (names, rc, f))
""", "a list of modules with an empty name", "the command is accepted although the list names a module which is not given")

bug("c13-negative-zero", "C13", [(CG, """            value = component.get_value()
            if isinstance(value, WithComponents):
                init_str += (
""", """            value = component.get_value() or 0
            if isinstance(value, WithComponents):
                init_str += (
""")], """
t = mod("a", seq("S", "p REAL(-1.0 .. 1.0)", "q REAL(-1.0 .. 1.0)"), "T ::= SEQUENCE {", "  h S (WITH COMPONENTS {", "    p (-0.0),", "    q (0.5)", "  })", "}")
rc, f, out = tool("c", [t], "a")
check(rc == 0, f)
r = cc(out, '#include <stdio.h>\\n#include <math.h>\\n#include "a.c"\\nint main(void) { printf("%d %g", !!signbit(t.h.p), (double)t.h.q); return 0; }')
check(r == "1 0.5", r)
""", "a real value of minus zero", "the variable has plus zero")
