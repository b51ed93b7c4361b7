"""One function per known finding: does the recorded input still fail in the recorded way?"""
import os

from . import common, cosmos, cprobe, runner


def _run(box, entry, g, **kw):
    texts = [("in%d" % i, t) for i, t in enumerate(entry["inputs"])]
    inputs = box.write_inputs(texts)
    out = box.path("out")
    r = box.run(common.argv(g, inputs, entry["modules"], out, **kw))
    return r.ok, out, runner.files(out)


def accepted(box, entry):
    """accepted although it has to be refused"""
    ok, _, _ = _run(box, entry, entry.get("generator", "cfs"))
    return ok


def header_invalid(box, entry):
    """accepted, but the header does not compile"""
    ok, out, files = _run(box, entry, "cfs")
    if not ok:
        return False
    heads = [os.path.join(out, n) for n in files if n.endswith("_msg.h")]
    return cprobe.syntax_many(heads, out) is not None


def struct_size(box, entry):
    """accepted and compiled, but the struct has the recorded wrong size"""
    ok, out, files = _run(box, entry, "cfs")
    if not ok:
        return False
    src = "".join('#include "%s"\n' % n for n in files if n.endswith("_msg.h")) + '#include <stdio.h>\nint main(void) { printf("%%d", (int)sizeof(%s)); return 0; }\n' % entry["struct"]
    ok, text = cprobe.build_and_run(src, out)
    return ok and text.strip() == str(entry["wrong_bytes"])


def cosmos_items(box, entry):
    """the packet lists the recorded wrong items"""
    ok, _, files = _run(box, entry, "cosmos", module=entry["modules"][0], messages=[entry["message"]])
    if not ok:
        return False
    pks = cosmos.parse(files["tlm.txt"].decode("utf8"))
    return [[i.kw, i.name, i.bits, i.value] for i in pks[0].items] == entry["wrong_items"]


def macro(box, entry):
    """a message id header defines the recorded wrong value"""
    ok, out, files = _run(box, entry, "cfs")
    if not ok:
        return False
    for n in files:
        if n.endswith("_msgids.h"):
            mac, _ = cprobe.macros(os.path.join(out, n))
            if mac and mac.get(entry["macro"]) == entry["wrong_value"]:
                return True
    return False
