"""Development tool: builds seeded/<id>/ from bugs*.py, confirming each in a scratch copy of /repo.
usage: mk.py [ids...]"""
import importlib.util, json, os, shutil, subprocess, sys, glob
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
W = "/tmp/seedwork"
BUGS = []
for p in sorted(glob.glob(HERE + "/bugs*.py")):
    sp = importlib.util.spec_from_file_location(os.path.basename(p)[:-3], p)
    m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    BUGS += m.BUGS
# noticed by the existing tests, or only touching lines of our own fixes
REJECTED = {"c15-module-note-order", "c02-sum-is-enough", "c08-existing-folder-only", "c13-repeated-key", "c15-text-cache", "c17-unit-percent", "c11-enum-count", "c10-array-bytes", "c04-kinds",
            "c04-cosmos-module-twice", "c05-posix-begin", "c05-posix-close", "c10-undeclared-states", "c16-tabs", "c07-case-of-names", "c04-file-read-once", "c17-unit-length"}
BUGS = [b for b in BUGS if b["id"] not in REJECTED or b["id"] in sys.argv]
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def main():
    ids = sys.argv[1:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    for b in BUGS:
        dst = os.path.join(VERIF, "seeded", b["id"])
        if ids and b["id"] not in ids: continue
        if not ids and os.path.exists(dst): continue
        shutil.rmtree(W, True)
        sh(["git", "clone", "-q", "/repo", W])
        for f, old, new in b["edits"]:
            p = os.path.join(W, f); s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT DOES NOT MATCH ONCE:", s.count(old), repr(old[:60])); break
            open(p, "w").write(s.replace(old, new))
        else:
            diff = sh(["git", "diff"], cwd=W).stdout
            tmp = "/tmp/seedout/" + b["id"]
            shutil.rmtree(tmp, True); os.makedirs(tmp)
            open(tmp + "/patch.diff", "wb").write(diff)
            shutil.copy(HERE + "/lib.py", tmp)
            open(tmp + "/demo.py", "w").write("from lib import *\n\n" + b["demo"].lstrip("\n"))
            open(tmp + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
            os.chmod(tmp + "/demo.sh", 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
            clean = sh(["bash", tmp + "/demo.sh"], cwd="/repo")
            bad = sh(["bash", tmp + "/demo.sh"], cwd=W)
            t = sh("PYTHONPATH=%s /opt/venv/bin/python -B -m pytest -q -x tests/unit -p no:cacheprovider 2>&1 | tail -8" % W, cwd=W).stdout.decode()
            lit = sh("PATH=/opt/venv/bin:$PATH PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/lit -q --param ASN1_PARSER_EXEC='python3 -B \"%s/asn1_parser/main.py\"' tests/integration" % W, cwd=W)
            if lit.returncode: t += "\nlit failed: " + lit.stdout.decode()[-1500:]
            print(b["id"], "clean", clean.returncode, "patched", bad.returncode, t.strip().splitlines()[-1])
            if clean.returncode: print(clean.stdout.decode()[-800:])
            if not bad.returncode or "DEMO FAILED" not in bad.stdout.decode(): print("patched:", bad.stdout.decode()[-800:])
            if clean.returncode == 0 and bad.returncode != 0 and "failed" not in t and "error" not in t:
                shutil.rmtree(dst, True); shutil.copytree(tmp, dst)
            else:
                print("  NOT KEPT", t if "failed" in t else "")
    shutil.rmtree(W, True)
main()
