"""Known findings: genuine defects which are recorded instead of repaired.

known_findings.json lists each with the input that fails; the probe named there
runs exactly this input and tells whether it still fails in the same way."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def entries():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)["findings"]


def report(pid, root):
    lines, rep = [], []
    mine = [e for e in entries() if e["property"] == pid]
    if mine:
        from . import probes, runner

        runner.warm()
        box = runner.Box(os.path.join(root, "findings"))
        for e in mine:
            box.reset()
            if getattr(probes, e["probe"])(box, e):
                lines.append("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
                rep.append(e["id"])
    return {"lines": lines, "reproduced": rep}
