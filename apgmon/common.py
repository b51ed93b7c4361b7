"""Shared steps of the checks."""
import copy
import os

from . import gen, model as m, ref, render, runner
from .harness import Violation

CGENS = ("cfs", "c", "binary")
GENS = ("cfs", "c", "binary", "cosmos")


def style(rng, kind=None):
    kind = kind or rng.choice(["plain", "random", "random", "dense"])
    return render.Style(kind, rng, "\r\n" if rng.random() < 0.1 else "\n")


def render_all(bundle, rng, kind=None):
    """[(file stem, text)] in the order of the bundle; stems are unrelated to module names"""
    stems = ["in%d" % i for i in range(len(bundle.modules))]
    rng.shuffle(stems)
    return [(s, render.render(mod, style(rng, kind))) for s, mod in zip(stems, bundle.modules)]


def arts(texts, **kw):
    d = {"inputs": {s: (t if isinstance(t, str) else t.hex()) for s, t in texts}}
    d.update(kw)
    return d


def wc_paths(bundle):
    """all (sequence, member) with values"""
    return [(s, mem) for s in bundle.seqs() for mem in s.members if mem.wc]


def has_choice(seq, defs):
    for mem in seq.members:
        k = ref.resolve(mem.type, defs)
        k = k.elem if k.kind == "arr" else k
        if k.kind == "choice" or (k.kind == "seq" and has_choice(k.seq, defs)):
            return True
    return False


def has_seq_array(seq, defs):
    for mem in seq.members:
        k = ref.resolve(mem.type, defs)
        if k.kind == "arr" and k.elem.kind == "seq":
            return True
        if k.kind == "seq" and has_seq_array(k.seq, defs):
            return True
    return False


def pick_message(bundle, rng):
    """(module name, sequence name) for a COSMOS run"""
    defs = bundle.defs()
    c = [(mod.name, d.name) for mod in bundle.modules for d in mod.defs if isinstance(d, m.Seq) and not has_choice(d, defs)]
    return rng.choice(c) if c else (None, None)


def binary_supported(bundle):
    """whether the binary generator can encode all value lists of the bundle"""
    defs = bundle.defs()
    where = {d.name: mod.name for mod in bundle.modules for d in mod.defs}

    def full(seq, wc, home):
        if where[seq.name] != home:
            return False
        if set(wc.keys()) != {mem.key for mem in seq.members}:
            return False
        for mem in seq.members:
            c = next(c for c in wc.items if c.key == mem.key)
            k = ref.resolve(mem.type, defs)
            if k.kind == "seq":
                if not isinstance(c.value, m.WC) or not full(k.seq, c.value, home):
                    return False
                continue
            if k.kind not in ("uint", "int", "float", "double") or k.bits not in (8, 16, 32, 64):
                return False
            if isinstance(mem.type, m.TRef) and mem.type.name not in m.POSIX and mem.type.name not in ("Float", "Double"):
                return False
        return True

    for seq, mem in wc_paths(bundle):
        k = ref.resolve(mem.type, defs)
        if k.kind != "seq" or not full(k.seq, mem.wc, where[seq.name]):
            return False
    return True


def argv(g, inputs, bundle_names, outdir, module=None, messages=None, endianness="little-endian", outname="tlm"):
    return runner.args(g, inputs, outdir, modules=bundle_names, module=module, messages=messages, outname=outname, endianness=endianness)


def accept(box, g, texts, names, stats, outdir=None, module=None, messages=None, endianness="little-endian", inputs=None, **kw):
    """Runs a generator which must succeed; returns {file: bytes}."""
    inputs = inputs or box.write_inputs(texts)
    outdir = outdir or box.path("out")
    a = argv(g, inputs, names, outdir, module, messages, endianness, **kw)
    r = box.run(a)
    stats["accepted_runs_" + g] += 1
    if not r.ok:
        raise Violation(
            "generate-%s fails on a valid bundle (%s)\n%s" % (g, "no end within the CPU time limit" if r.hang else "exit status %d" % r.rc, r.out[-1500:]),
            **arts(texts, argv=a),
        )
    return runner.files(outdir)


def out_names(g, names, outname="tlm"):
    """file names a generator might write, for sentinels"""
    c = [m.cname(n) for n in names]
    if g == "cfs":
        return [n + s for n in c for s in ("_msg.h", "_msgids.h")]
    if g == "c":
        return [n + s for n in c for s in (".h", ".c")]
    if g == "binary":
        return [n + ".h" for n in c]
    return [outname + ".txt"]


def expect_reject(box, rng, g, texts, names, stats, why, module=None, messages=None, cpu=runner.CPU_LIMIT, inputs=None):
    """Runs a generator which must refuse and leave the output folder as it was."""
    inputs = inputs or box.write_inputs(texts)
    outdir = box.path("out")
    variant = rng.randrange(3)
    if variant == 0:
        os.makedirs(outdir)
        for n in out_names(g, names):
            with open(os.path.join(outdir, n), "w") as f:
                f.write("sentinel " + n + "\n")
        with open(os.path.join(outdir, "other"), "w") as f:
            f.write("sentinel\n")
    elif variant == 1:
        os.makedirs(outdir)
    before = runner.snapshot(outdir)
    a = argv(g, inputs, names, outdir, module, messages)
    r = box.run(a, cpu=cpu)
    stats["rejecting_runs_" + g] += 1
    if r.hang:
        raise Violation("generate-%s does not end (more than %d s of CPU time): %s" % (g, cpu, why), **arts(texts, argv=a))
    if r.rc == 0:
        raise Violation("generate-%s accepts: %s" % (g, why), **arts(texts, argv=a, output={k: v.decode("utf8", "replace") for k, v in runner.files(outdir).items()}))
    after = runner.snapshot(outdir)
    if after != before:
        raise Violation("generate-%s refuses (%s) but changed the output folder: %s" % (g, why, _diff(before, after)), **arts(texts, argv=a))
    stats["refusals_without_output"] += 1
    return r


def _diff(b, a):
    if b is None or a is None:
        return "did not exist before" if b is None else "vanished"
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


def clone(b):
    return copy.deepcopy(b)


def feature_key(bundle):
    """digest of the structure of a bundle, without names and texts"""
    defs = bundle.defs()

    def ty(t):
        if isinstance(t, m.TRef):
            return type(defs.get(t.name)).__name__
        if isinstance(t, m.TArr):
            return ("arr", t.n, ty(t.elem))
        if isinstance(t, m.TInt):
            return ("i", t.b, t.e)
        return type(t).__name__

    def wc(w):
        return w and tuple((c.key, wc(c.value) if isinstance(c.value, m.WC) else c.value.v) for c in w.items)

    out = []
    for mod in bundle.modules:
        for d in mod.defs:
            if isinstance(d, (m.Seq, m.Choice)):
                out.append(tuple((ty(x.type), wc(x.wc)) for x in d.members))
            elif isinstance(d, m.Enum):
                out.append(tuple(i.pos for i in d.items))
            else:
                out.append(ty(d.type))
    return runner.digest(out)
