"""Runs the real command line of /repo and observes its effects.

Two modes: "fork" runs /repo/asn1_parser/main.py with runpy in a child forked
from a process which has the repository's modules already imported (a fresh
interpreter state per run, without the start-up cost); "spawn" starts a new
interpreter.  Violations seen in fork mode are confirmed in spawn mode.
"""
import gc
import hashlib
import os
import resource
import runpy
import shutil
import signal
import subprocess
import sys
import time
import traceback
import warnings
from dataclasses import dataclass, field

REPO = os.environ.get("APGMON_REPO", "/repo")
MAIN = os.path.join(REPO, "asn1_parser", "main.py")
PY = sys.executable
CPU_LIMIT = 60  # seconds of CPU time; a usual run needs 0.1
MEM_LIMIT = 3 << 30  # a usual run needs 0.1 GB
WALL_LIMIT = 600  # watchdog, never a verdict


class Inconclusive(Exception):
    pass


@dataclass
class Result:
    rc: int  # exit status, or -signal
    out: str
    cpu: float
    hang: bool = False
    events: list = field(default_factory=list)

    @property
    def ok(self):
        return self.rc == 0


_warm = False


def warm():
    """Imports the repository's modules once, before forking."""
    global _warm
    if _warm:
        return
    warnings.simplefilter("ignore")
    sys.path.insert(0, REPO)
    argv, sys.argv = sys.argv, ["main.py"]
    try:
        runpy.run_path(MAIN, run_name="apg_main_import")
    except BaseException:  # a broken tree shows up in the runs themselves
        pass
    finally:
        sys.argv = argv
    try:
        import numpy  # noqa: F401  (imported lazily by dependencies)
    except Exception:
        pass
    _warm = True


def _child(argv, cwd, pre, cpu, logfd):
    try:
        os.setpgid(0, 0)
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        os.chdir(cwd)
        nul = os.open(os.devnull, os.O_RDONLY)
        os.dup2(nul, 0)
        os.dup2(logfd, 1)
        os.dup2(logfd, 2)
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
        sys.argv = [MAIN] + list(argv)
        code = 0
        if pre:
            pre()
        try:
            runpy.run_path(MAIN, run_name="__main__")
        except SystemExit as ex:
            if ex.code is None:
                code = 0
            elif isinstance(ex.code, int):
                code = ex.code & 0xFF
            else:
                print(ex.code, file=sys.stderr)
                code = 1
        except BaseException:
            traceback.print_exc()
            code = 1
        gc.collect()
        try:
            sys.stdout.flush()
            sys.stderr.flush()
        except BaseException:
            code = code or 120
        os._exit(code)
    except BaseException:
        try:
            traceback.print_exc()
            sys.stderr.flush()
        finally:
            os._exit(125)


def run_fork(argv, cwd, pre=None, cpu=CPU_LIMIT):
    warm()
    sys.stdout.flush()
    sys.stderr.flush()
    fd = os.memfd_create("log")
    pid = os.fork()
    if pid == 0:
        _child(argv, cwd, pre, cpu, fd)
    t0 = time.monotonic()
    delay = 0.0005
    while True:
        p, st, ru = os.wait4(pid, os.WNOHANG)
        if p:
            break
        if time.monotonic() - t0 > WALL_LIMIT:
            os.kill(pid, signal.SIGKILL)
            os.wait4(pid, 0)
            os.close(fd)
            raise Inconclusive("wall-clock watchdog")
        time.sleep(delay)
        delay = min(delay * 1.5, 0.01)
    os.lseek(fd, 0, 0)
    out = b""
    while True:
        b = os.read(fd, 1 << 16)
        if not b:
            break
        out += b
    os.close(fd)
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        rc = -sig
    else:
        rc = os.WEXITSTATUS(st)
        sig = 0
    return Result(rc, out.decode("utf8", "replace"), ru.ru_utime + ru.ru_stime, hang=sig in (signal.SIGXCPU,) )


def run_spawn(argv, cwd, pre=None, cpu=CPU_LIMIT, env=None, hashseed=None):
    e = dict(os.environ)
    e.update(env or {})
    if hashseed is not None:
        e["PYTHONHASHSEED"] = str(hashseed)

    def prep():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
        if pre:
            pre()

    try:
        r = subprocess.run(
            [PY, "-W", "ignore", MAIN] + list(argv), cwd=cwd, env=e, preexec_fn=prep,
            stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=WALL_LIMIT,
        )
    except subprocess.TimeoutExpired:
        raise Inconclusive("wall-clock watchdog")
    return Result(r.returncode, r.stdout.decode("utf8", "replace"), 0.0, hang=r.returncode in (-signal.SIGXCPU, -signal.SIGKILL))


class Box:
    """A scratch folder for one case, with the runner mode."""

    def __init__(self, root, mode="fork"):
        self.root, self.mode = root, mode
        self.n = 0
        self.runs = 0
        self.reset()

    def reset(self):
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)
        self.n = 0

    def new(self, name="d"):
        self.n += 1
        p = os.path.join(self.root, "%s%d" % (name, self.n))
        os.makedirs(p)
        return p

    def path(self, name="p"):
        self.n += 1
        return os.path.join(self.root, "%s%d" % (name, self.n))

    def run(self, argv, cwd=None, pre=None, cpu=CPU_LIMIT, mode=None, **kw):
        self.runs += 1
        mode = mode or self.mode
        cwd = cwd or self.root
        if mode == "fork":
            kw.pop("env", None)
            kw.pop("hashseed", None)
            return run_fork(argv, cwd, pre, cpu)
        return run_spawn(argv, cwd, pre, cpu, **kw)

    def write_inputs(self, texts, names=None):
        """texts: [(file stem or None, text or bytes)] -> [paths]"""
        d = self.new("in")
        out = []
        for i, t in enumerate(texts):
            stem, text = t if isinstance(t, tuple) else (None, t)
            p = os.path.join(d, (stem or "f%d" % i) + ".asn")
            with open(p, "wb") as f:
                f.write(text if isinstance(text, bytes) else text.encode("utf8"))
            out.append(p)
        return out


def args(gen, inputs, outdir=None, modules=None, module=None, messages=None, outname="tlm", endianness="little-endian"):
    """argv of a generator: gen in cfs, c, binary, cosmos"""
    a = ["generate-" + gen] + list(inputs)
    if gen == "cosmos":
        a += ["--asn1-module", module, "--asn1-messages", ",".join(messages), "--output-file-name", outname]
    else:
        a += ["--asn1-modules=" + ",".join(modules)]
    if gen == "binary":
        a += ["--endianness", endianness]
    if outdir is not None:
        a += ["--output-dir", outdir]
    return a


def snapshot(path):
    """{relative path: (kind, mode, content or link target)} of a folder, or None"""
    if not os.path.lexists(path):
        return None
    if not os.path.isdir(path) or os.path.islink(path):
        return {".": _entry(path)}
    out = {}
    for root, dirs, files in os.walk(path):
        for n in dirs + files:
            p = os.path.join(root, n)
            out[os.path.relpath(p, path)] = _entry(p)
    return out


def _entry(p):
    st = os.lstat(p)
    if os.path.islink(p):
        return ("link", os.readlink(p))
    if os.path.isdir(p):
        return ("dir", st.st_mode & 0o777)
    if not os.path.isfile(p):
        return ("other", st.st_mode)
    with open(p, "rb") as f:
        return ("file", f.read())


def files(path):
    """{name: bytes} of the regular files of a folder"""
    out = {}
    for n, e in (snapshot(path) or {}).items():
        if e[0] == "file":
            out[n] = e[1]
    return out


def digest(obj):
    return hashlib.sha1(repr(obj).encode()).hexdigest()[:12]
