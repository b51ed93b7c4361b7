"""setup_cmd: is everything the checks need here?  Nothing is built; the checks import /repo directly."""
import os
import shutil
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import importlib

for i in range(1, 19):
    importlib.import_module("apgmon.checks.c%02d" % i)
missing = [t for t in ("gcc",) if not shutil.which(t)]
if missing:
    print("missing:", missing)
    sys.exit(1)
print("ok")
