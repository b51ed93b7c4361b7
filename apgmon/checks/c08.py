"""C08: exactly the documented files are written, completely, or the exit status says so."""
import json
import os
import resource
import shutil
import signal
import sys

from .. import common, gen, model as m, runner
from ..harness import Check, Violation

NOBODY = 65534
WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
PROC = {"subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.spawn", "os.fork", "os.forkpty", "os.kill", "os.killpg", "os.startfile",
        "socket.connect", "socket.bind", "socket.sendto", "os.putenv.x", "ctypes.dlopen.x"}
PATHS = {"os.remove", "os.rmdir", "os.rename", "os.truncate", "os.chmod", "os.chown", "os.link", "os.symlink", "os.mkdir", "os.utime", "shutil.rmtree", "shutil.move", "shutil.copyfile", "shutil.copytree"}


def lower_first(n):
    return n[:1].lower() + n[1:]


def documented(g, b, outname="tlm"):
    """file names a successful run writes"""
    c = [m.cname(n) for n in b.names()]
    if g == "cfs":
        return {n + s for n in c for s in ("_msg.h", "_msgids.h")}
    if g == "c":
        return {n + s for n in c for s in (".h", ".c")}
    if g == "binary":
        return {n + ".h" for n in c} | {lower_first(m.cname(s.name)) + ".bin" for s in b.seqs() if any(x.wc for x in s.members)}
    return {outname + ".txt"}


def is_write(event, args):
    if event != "open":
        return False
    path, mode, flags = (list(args) + [None, None])[:3]
    if isinstance(mode, str):
        return any(ch in mode for ch in "wax+")
    return bool(isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))


def norm(p):
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not isinstance(p, str):
        return None
    return os.path.realpath(os.path.join(os.getcwd(), p))


class Monitor:
    """Audit hook of the child: logs effects, or fails or kills at the k-th
    open for writing below the output folder."""

    def __init__(self, outdir, logpath=None, fail=None, kill=None):
        self.outdir, self.logpath, self.fail, self.kill = os.path.realpath(outdir), logpath, fail, kill

    def install(self):
        fd = os.open(self.logpath, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o666) if self.logpath else None
        count = [0]
        busy = [False]

        def hook(event, args):
            if busy[0]:
                return
            if event != "open" and event not in PROC and event not in PATHS:
                return
            busy[0] = True
            boom = False
            try:
                if event == "open":
                    if not is_write(event, args):
                        return
                    p = norm(args[0])
                    if p is None:
                        return
                    if p.startswith(self.outdir + os.sep):
                        k = count[0]
                        count[0] += 1
                        if self.kill == k:
                            os.kill(os.getpid(), signal.SIGKILL)
                        boom = self.fail == k
                    if fd is not None:
                        os.write(fd, (json.dumps(["open", p]) + "\n").encode())
                elif fd is not None:
                    a = [norm(x) or repr(x) for x in args[:2]] if event in PATHS else [repr(args)[:200]]
                    os.write(fd, (json.dumps([event] + a) + "\n").encode())
            finally:
                busy[0] = False
            if boom:
                raise OSError(28, "No space left on device", str(args[0]))

        sys.addaudithook(hook)


class C08(Check):
    id = "C08"
    level = "fault_enumeration"
    rule = (
        "random valid bundles through all four generators into absolute, relative, nested, missing, default, pre-filled output folders, with every file of the scratch area compared before and "
        "after and audit events (opens for writing, removals, renames, processes, sockets) checked; every output file in turn made impossible to open or to write (folder in its place, read-only, "
        "full device, injected error), byte limits throughout the output, and kills at every open and at byte limits, followed by a repeated run; "
        "distinct by scenario, generator, fault position and structure"
    )
    assumptions = ["faults of close and of the disk after a successful write are not injected", "kills and injected open errors need the audit hook of the forked interpreter"]
    quick = 1400
    thorough = 6000
    SCEN = ["clean", "clean", "clean", "limit", "limit", "full", "dirfile", "outfile", "readonly", "rofile", "openfail", "openfail", "killopen", "killopen", "killbyte", "killbyte"]
    required = {"scen_clean": 50, "scen_limit": 30, "scen_full": 15, "scen_dirfile": 15, "scen_openfail": 25, "scen_killopen": 25, "scen_killbyte": 25, "scen_readonly": 10, "scen_rofile": 10,
                "faults_reported": 150, "repeated_after_kill": 40, "files_compared": 400, "audit_writes": 120}

    def setup(self):
        pass

    def case(self, idx, rng, box, stats):
        for p in (os.path.dirname(box.root), box.root):
            os.chmod(p, 0o755)
        g = rng.choice(["cfs", "c", "binary", "cosmos"])
        p = gen.Profile(modules=rng.choice([(1, 1), (1, 3), (2, 5)]), defs=(1, 5), comments=rng.choice([0.0, 0.3]), wc=0.8)
        if g == "binary":
            p.wc_bin, p.posix_only = True, rng.random() < 0.7
        if g == "cosmos":
            p.arrays = ""
        b = gen.bundle(rng, p)
        if g == "binary" and not common.binary_supported(b):
            g = "c"
        mod, msg = common.pick_message(b, rng)
        if g == "cosmos" and not msg:
            return None, None
        texts = common.render_all(b, rng)
        self.inputs = box.write_inputs(texts)
        self.texts, self.b, self.g, self.mod, self.msg = texts, b, g, mod, msg
        self.outname = rng.choice(["tlm", "tlm", "TARGET", "sat-1", "v1.2", "a.txt", "t.tlm.v2", "x_y", "a b", "0", "tlm.", ".tlm", "cmd_tlm.TXT", "\u00e9t\u00e9"])
        self.want = documented(g, b, self.outname)
        # the reference content, from a run into a folder of its own
        ref_out = box.path("ref")
        clean = common.accept(box, g, texts, b.names(), stats, outdir=ref_out, module=mod, messages=[msg], inputs=self.inputs, outname=self.outname)
        if set(clean) != self.want:
            raise Violation("generate-%s wrote %s, documented are %s" % (g, sorted(clean), sorted(self.want)), **common.arts(texts))
        self.clean = clean
        scen = rng.choice(self.SCEN)
        if g == "cosmos" and scen in ("killopen", "killbyte"):
            scen = "limit"
        key = getattr(self, "s_" + scen)(rng, box, stats)
        stats["scen_" + scen] += 1
        stats["gen_" + g] += 1
        return "%s/%s/%s/%s" % (scen, g, key, common.feature_key(b)), {"scenario": scen, "generator": g, "detail": key} if idx < 10 else None

    def argv(self, out):
        return common.argv(self.g, self.inputs, self.b.names(), out, self.mod, [self.msg], outname=self.outname)

    def bad(self, text, fork_only=False, **kw):
        raise Violation("generate-%s: %s" % (self.g, text), fork_only=fork_only, **common.arts(self.texts, **kw))

    def check_files(self, out, stats, what):
        for n, data in self.clean.items():
            p = os.path.join(out, n)
            if os.path.islink(p) or not os.path.isfile(p):
                self.bad("%s: exit status 0, but %s is not a regular file" % (what, n))
            with open(p, "rb") as f:
                got = f.read()
            if got != data:
                self.bad("%s: exit status 0, but %s has %d bytes which differ from the %d bytes of a run without fault" % (what, n, len(got), len(data)))
            stats["files_compared"] += 1

    def verdict(self, r, out, stats, what, fork_only=False):
        """after a fault: a non-zero status, or everything complete"""
        if r.hang:
            self.bad("%s: no end" % what)
        if r.rc != 0:
            stats["faults_reported"] += 1
            return
        try:
            self.check_files(out, stats, what)
        except Violation as v:
            v.artifacts["fork_only"] = fork_only
            raise
        stats["faults_survived"] += 1

    # --- effects

    def stale(self, rng, data):
        """what an earlier run may have left behind"""
        k = rng.randrange(0, len(data) + 1)
        return rng.choice([
            b"", b"stale", data + b"more", data * 3, data[:-5], data[:k], b"\xff" * 5000,
            bytes(x ^ 1 for x in data), bytes(x ^ 1 for x in data),  # same size
            data[:k] + bytes(x ^ 1 for x in data[k:k + 1]) + data[k + 1:],  # one byte differs
            data, data[::-1],
        ])

    def s_clean(self, rng, box, stats):
        area = box.new("area")
        cwd = os.path.join(area, "cwd")
        os.mkdir(cwd)
        for n in ("keep.txt", "x.h", "a.bin"):
            with open(os.path.join(cwd, n), "w") as f:
                f.write("keep " + n)
        kind = rng.choice(["abs", "rel", "nested", "prefilled", "stale", "stale", "stale", "default", "dotdot", "slash", "existing"])
        rel = None
        out = os.path.join(area, "out")
        if kind == "abs":
            arg = out
        elif kind == "rel":
            arg, out = "o", os.path.join(cwd, "o")
        elif kind == "nested":
            arg = out = os.path.join(area, "a/b/c d")
        elif kind == "existing":
            os.mkdir(out)
            arg = out
        elif kind in ("prefilled", "stale"):
            os.makedirs(os.path.join(out, "sub"))
            arg = out
            for n in ("keep.txt", "other.h", "other.bin", "other.txt", "sub/inner.h", ".hidden", "x_msg.h", "module_list.txt"):
                if n in self.want:
                    continue
                with open(os.path.join(out, n), "w") as f:
                    f.write("keep " + n)
            if kind == "stale" and self.g != "cosmos":
                for n in self.want:
                    if rng.random() < 0.7:
                        with open(os.path.join(out, n), "wb") as f:
                            f.write(self.stale(rng, self.clean[n]))
                        stats["stale_files"] += 1
                        if rng.random() < 0.3:  # newer than the inputs, or much older
                            t = rng.choice([0, 4000000000])
                            os.utime(os.path.join(out, n), (t, t))
        elif kind == "default":
            arg = None
            out = os.path.join(cwd, "output", {"cfs": "cfs", "c": "c", "binary": "binary"}.get(self.g, ""))
            if self.g == "cosmos":
                arg, out = "o", os.path.join(cwd, "o")
        elif kind == "dotdot":
            arg, out = "../q/../o2", os.path.join(area, "o2")
            os.mkdir(os.path.join(area, "q"))
        else:
            arg = out + "/"
        before = runner.snapshot(box.root)
        log = None
        pre = None
        if box.mode == "fork":
            log = box.root + ".log"
            pre = Monitor(out, logpath=log).install
        r = box.run(common.argv(self.g, self.inputs, self.b.names(), arg, self.mod, [self.msg], outname=self.outname), cwd=cwd, pre=pre)
        after = runner.snapshot(box.root)
        events = []
        if log and os.path.exists(log):
            with open(log) as f:
                events = [json.loads(x) for x in f]
            os.unlink(log)
        what = "output folder %s (%s)" % (kind, arg)
        if not r.ok:
            self.bad("%s: exit status %d\n%s" % (what, r.rc, r.out[-800:]))
        self.check_files(out, stats, what)
        base = os.path.relpath(out, box.root)
        expected = {os.path.normpath(os.path.join(base, n)) for n in self.want}
        changed = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
        dirs = {d for d in changed if after.get(d, ("",))[0] == "dir" and d not in before}
        for d in dirs:
            if not (base + "/").startswith(d + "/"):
                self.bad("%s: created the folder %s" % (what, d))
        extra = sorted(changed - dirs - expected)
        if extra:
            self.bad("%s: changed other files: %s" % (what, [(k, "removed" if k not in after else "created" if k not in before else "changed") for k in extra][:10]))
        self.audit(events, out, box, stats)
        return kind

    def audit(self, events, out, box, stats):
        root = os.path.realpath(box.root)
        for e in events:
            if e[0] in PROC:
                self.bad("starts or signals processes or uses the network: %s" % e, fork_only=True)
            if e[0] == "open":
                stats["audit_writes"] += 1
            for p in e[1:]:
                if not p.startswith("/"):
                    continue
                if p.startswith(root + os.sep) or p == root or p == "/dev/null" or "__pycache__" in p or p.startswith(os.environ.get("PYTHONPYCACHEPREFIX", "/dev/null/x")):
                    continue
                if os.path.lexists(p):
                    self.bad("touches a file outside of the output folder: %s" % e, fork_only=True)

    # --- faults

    def s_limit(self, rng, box, stats):
        """no file may grow beyond n bytes"""
        biggest = max(len(v) for v in self.clean.values())
        x = rng.random()
        if x < 0.15:
            n = rng.choice([0, 1, 2])
        elif x < 0.35:
            n = biggest - 1
        elif x < 0.45:
            n = biggest
        elif x < 0.65:
            n = max(0, rng.choice([len(v) for v in self.clean.values()]) - rng.choice([0, 1, 2]))
        else:
            n = rng.randrange(0, biggest)
        out = box.path("o")

        def pre():
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))

        r = box.run(self.argv(out), pre=self.fork_limit(n) if box.mode == "fork" else pre)
        stats["byte_limits"] += 1
        self.verdict(r, out, stats, "files limited to %d bytes (the biggest has %d)" % (n, biggest))
        if n >= biggest and r.rc == 0:
            stats["limits_not_reached"] += 1
        return n

    def fork_limit(self, n):
        # the log of a forked run is a memfd, to which the limit applies as well
        def pre():
            nul = os.open(os.devnull, os.O_WRONLY)
            os.dup2(nul, 1)
            os.dup2(nul, 2)
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))

        return pre

    def victim(self, rng):
        return rng.choice(sorted(self.want))

    def s_full(self, rng, box, stats):
        out = box.new("o")
        v = self.victim(rng)
        os.symlink("/dev/full", os.path.join(out, v))
        r = box.run(self.argv(out))
        if r.rc == 0 and os.path.islink(os.path.join(out, v)) and len(self.clean[v]):
            self.bad("writing %s to a full device: exit status 0" % v)
        self.verdict(r, out, stats, "%s on a full device" % v)
        return v

    def s_dirfile(self, rng, box, stats):
        out = box.new("o")
        v = self.victim(rng)
        os.mkdir(os.path.join(out, v))
        r = box.run(self.argv(out))
        self.verdict(r, out, stats, "a folder in place of %s" % v)
        return v

    def s_outfile(self, rng, box, stats):
        base = box.new("o")
        out = os.path.join(base, "f")
        with open(out, "w") as f:
            f.write("a file")
        if rng.random() < 0.4:
            out = os.path.join(out, "sub")
        r = box.run(self.argv(out))
        if r.rc == 0:
            self.bad("exit status 0 although the output folder cannot exist")
        with open(os.path.join(base, "f")) as f:
            if f.read() != "a file":
                self.bad("overwrote the file in place of the output folder")
        stats["faults_reported"] += 1
        return os.path.basename(out)

    def drop(self):
        def pre():
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)

        return pre

    def readable(self, box):
        for p in self.inputs:
            os.chmod(p, 0o644)
        os.chmod(os.path.dirname(self.inputs[0]), 0o755)

    def s_readonly(self, rng, box, stats):
        """an unprivileged user and a folder which belongs to somebody else"""
        self.readable(box)
        out = box.new("o")
        os.chmod(out, 0o755)
        if rng.random() < 0.4:
            out = os.path.join(out, "new", "sub")
        r = box.run(self.argv(out), pre=self.drop())
        self.verdict(r, out, stats, "output folder without write permission")
        return "sub" if out.endswith("sub") else "dir"

    def s_rofile(self, rng, box, stats):
        self.readable(box)
        out = box.new("o")
        os.chmod(out, 0o777)
        v = self.victim(rng)
        p = os.path.join(out, v)
        with open(p, "w") as f:
            f.write("old")
        os.chmod(p, 0o444)
        r = box.run(self.argv(out), pre=self.drop())
        self.verdict(r, out, stats, "no permission to write %s" % v)
        return v

    def s_openfail(self, rng, box, stats):
        if box.mode != "fork":
            return "fork only"
        out = box.path("o")
        k = rng.randrange(len(self.want))
        r = box.run(self.argv(out), pre=Monitor(out, fail=k).install)
        self.verdict(r, out, stats, "error when opening output file number %d" % k, fork_only=True)
        return k

    # --- crashes

    def rerun(self, box, out, stats, what):
        r = box.run(self.argv(out))
        if not r.ok:
            self.bad("%s: the repeated run fails with exit status %d\n%s" % (what, r.rc, r.out[-500:]), fork_only=True)
        try:
            self.check_files(out, stats, what + ", repeated run")
        except Violation as v:
            v.artifacts["fork_only"] = True
            raise
        stats["repeated_after_kill"] += 1

    def s_killopen(self, rng, box, stats):
        if box.mode != "fork":
            return "fork only"
        out = box.path("o")
        k = rng.randrange(len(self.want))
        r = box.run(self.argv(out), pre=Monitor(out, kill=k).install)
        if r.rc == -signal.SIGKILL:
            stats["killed_at_open"] += 1
        self.rerun(box, out, stats, "killed when opening output file number %d" % k)
        return k

    def s_killbyte(self, rng, box, stats):
        if box.mode != "fork":
            return "fork only"
        out = box.path("o")
        n = rng.randrange(0, max(len(v) for v in self.clean.values()))
        lim = self.fork_limit(n)

        def pre():
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            lim()

        r = box.run(self.argv(out), pre=pre)
        if r.rc == -signal.SIGXFSZ:
            stats["killed_at_byte"] += 1
        self.rerun(box, out, stats, "killed when a file reached %d bytes" % n)
        return n


CHECK = C08
