#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import os
import sys

VENV = "/opt/venv/bin/python"
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") and not os.environ.get("APGMON_EXEC"):
    os.environ["APGMON_EXEC"] = "1"
    os.execv(VENV, [VENV] + sys.argv)
if os.environ.get("PYTHONHASHSEED") != "0":
    # one fixed hash seed for the machinery; C15 varies the one of the tool
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
os.environ["PYTHONWARNINGS"] = "ignore"
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    from apgmon import harness

    sys.exit(harness.main(a.property, "thorough" if a.tier == "thorough" else "quick", a.seed, a.replay))
