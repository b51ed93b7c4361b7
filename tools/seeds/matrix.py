"""Development tool: runs the check of each planted bug's property (or all: --all) against a patched copy.
usage: matrix.py [--all] [--seed N] [ids...]"""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
av = sys.argv[1:]
allp = "--all" in av
seed = av[av.index("--seed") + 1] if "--seed" in av else "1"
ids = [a for a in av if not a.startswith("--") and a != seed] or sorted(os.listdir(VERIF + "/seeded"))
W = "/tmp/mx"
for i in ids:
    d = VERIF + "/seeded/" + i
    shutil.rmtree(W, True)
    subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    subprocess.run(["git", "apply", d + "/patch.diff"], cwd=W, check=True)
    props = ["C%02d" % k for k in range(1, 22)] if allp else [json.load(open(d + "/meta.json"))["property"]]
    line = []
    for p in props:
        t0 = time.time()
        r = subprocess.run([VERIF + "/check.py", p, "--tier", "quick", "--seed", seed], cwd=VERIF, env=dict(os.environ, APGMON_REPO=W), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode()
        ok = r.returncode == 1 and "VIOLATION property=%s" % p in out
        n = out.count("VIOLATION property=")
        line.append("%s:%s(%d,%ds)" % (p, "CAUGHT" if ok else ("missed" if r.returncode == 0 else "rc=%d" % r.returncode), n, time.time() - t0))
        if r.returncode not in (0, 1): print(out[-1500:])
    print(i, " ".join(line), flush=True)
shutil.rmtree(W, True)
