"""Shared by the demonstrations: runs the command line tool of the current folder in a scratch folder."""
import atexit
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.getcwd()
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
TMP = tempfile.mkdtemp(prefix="demo")
atexit.register(shutil.rmtree, TMP, True)
N = [0]


def mod(name, *lines):
    return "Module-%s DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n%s\nEND\n" % (name, "\n".join(lines))


def seq(name, *members):
    return "%s ::= SEQUENCE {\n%s\n}" % (name, ",\n".join("  " + m for m in members))


def tool(gen, texts, modules=None, module=None, messages=None, name="tlm", extra=(), env=None, timeout=120, out=None, wrap=()):
    """(exit status, {file name: bytes}, output folder); texts are strings or bytes, one file each"""
    N[0] += 1
    d = os.path.join(TMP, "r%d" % N[0])
    os.makedirs(d)
    files = []
    for i, t in enumerate(texts):
        p = os.path.join(d, "in%d.asn" % i)
        with open(p, "wb") as f:
            f.write(t if isinstance(t, bytes) else t.encode("utf8"))
        files.append(p)
    out = out or os.path.join(d, "out")
    cmd = list(wrap) + [PY, os.path.join(REPO, "asn1_parser", "main.py"), "generate-" + gen] + files
    if gen == "cosmos":
        cmd += ["--asn1-module", module, "--asn1-messages", messages, "--output-file-name", name]
    else:
        cmd += ["--asn1-modules=" + modules]
    cmd += ["--output-dir", out] + list(extra)
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    e.update(env or {})
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    got = {}
    for base, _, names in os.walk(out):
        for n in names:
            p = os.path.join(base, n)
            with open(p, "rb") as f:
                got[os.path.relpath(p, out)] = f.read()
    return rc, got, out


def cc(folder, source):
    """output of a C program which may include the generated headers"""
    p = os.path.join(folder, "demo_main.c")
    with open(p, "w") as f:
        f.write(source)
    r = subprocess.run(["gcc", "-w", "-I", folder, "-o", p + ".exe", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        return "does not compile: " + r.stdout.decode()
    return subprocess.run([p + ".exe"], stdout=subprocess.PIPE).stdout.decode()


def check(ok, what):
    if not ok:
        print("DEMO FAILED:", what)
        sys.exit(1)
