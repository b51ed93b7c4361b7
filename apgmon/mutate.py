"""Helpers for checks which plant one error into a valid bundle."""
from . import common, model as m, ref, runner
from .harness import Violation


def base_profile(rng, gen, **kw):
    p = gen.Profile(
        modules=rng.choice([(1, 2), (2, 4), (2, 4), (3, 6)]),
        defs=rng.choice([(1, 3), (2, 6)]),
        members=(1, 6),
        choice=rng.choice([0.0, 0.0, 0.12]),
        arrays=rng.choice(["", "c", "both"]),
        comments=rng.choice([0.0, 0.2]),
        big=0.02,
        wc=0.6,
        wc_bin=rng.random() < 0.35,
    )
    for k, v in kw.items():
        setattr(p, k, v)
    return p


def gens_for(b, rng, n=2):
    """generators which accept the bundle, and a COSMOS message"""
    mod, msg = common.pick_message(b, rng)
    gens = ["cfs", "c"]
    if common.binary_supported(b):
        gens.append("binary")
    if msg:
        gens.append("cosmos")
    return rng.sample(gens, min(n, len(gens))), mod, msg


def accept_base(box, b, rng, stats, texts, g, mod, msg, names=None):
    common.accept(box, g, texts, names or b.names(), stats, module=mod, messages=[msg])


def visible(b, mod):
    """type names usable in a module"""
    return {d.name for d in mod.defs} | {n for i in mod.imports for n in i.names}


def slots(b, kinds=("seq", "choice", "simple")):
    """places which hold a type: [(module, kind, getter, setter, description)]"""
    out = []
    for mod in b.modules:
        for d in mod.defs:
            if isinstance(d, (m.Seq, m.Choice)):
                kind = "seq" if isinstance(d, m.Seq) else "choice"
                for mem in d.members:
                    out.append((mod, kind, d, mem, "%s.%s" % (d.name, mem.key)))
            elif isinstance(d, m.Simple):
                out.append((mod, "simple", d, d, d.name))
    return [x for x in out if x[1] in kinds]


def reach(b):
    """{module: set of modules it imports, transitively}"""
    direct = {mod.name: {i.module for i in mod.imports} for mod in b.modules}
    out = {}
    for n in direct:
        seen, todo = set(), list(direct[n])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += direct.get(x, ())
        out[n] = seen
    return out


def near_miss(rng, name):
    """a name of the same form which differs a little"""
    for _ in range(50):
        k = rng.randrange(6)
        if k == 0:
            n = name + "-" + rng.choice("abxyz0")
        elif k == 1:
            n = name + rng.choice("abxyz019")
        elif k == 2 and "-" in name:
            n = name.rsplit("-", 1)[0]
        elif k == 3 and len(name) > 1:
            n = name[:-1]
        elif k == 4 and "-" in name:
            n = name.replace("-", "", 1)
        elif k == 5 and len(name) > 2:
            i = rng.randrange(1, len(name))
            if name[i] == "-":
                continue
            n = name[:i] + rng.choice("abcqz") + name[i + 1:]
        else:
            continue
        if n != name and not n.endswith("-") and n:
            return n
    return name + "-zz"


def wc_nodes(b):
    """[(sequence the list belongs to, member, WC, sequence the WC gives values for, depth)]"""
    defs = b.defs()
    out = []

    def walk(owner, mem, wc, seq, depth):
        out.append((owner, mem, wc, seq, depth))
        for c in wc.items:
            if isinstance(c.value, m.WC):
                t = next(x for x in seq.members if x.key == c.key)
                walk(owner, mem, c.value, ref.resolve(t.type, defs).seq, depth + 1)

    for owner, mem in common.wc_paths(b):
        walk(owner, mem, mem.wc, ref.resolve(mem.type, defs).seq, 0)
    return out


# names which look like those of types which exist anyway
LIKE_BUILT_IN = ["Integer", "Boolean", "Real", "Null", "String", "Ia5string", "Numericstring", "Enumerated", "Sequence", "Choice", "Bool", "Char", "Int", "Uint", "Octet-string", "Uint8", "Uint24-t", "Int128-t", "Uint-8-t", "Floats", "Long-double"]


def random_cap(rng, avoid):
    while True:
        n = rng.choice(LIKE_BUILT_IN) if rng.random() < 0.15 else rng.choice("ABCDEFGHXYZ") + "".join(rng.choice("abcdeikmnorstuz") for _ in range(rng.randrange(0, 8))) + rng.choice(["", "", "-x", "-t", "-data", "1"])
        if n not in avoid:
            return n


def random_low(rng, avoid):
    while True:
        n = rng.choice("abcdefghxyz") + "".join(rng.choice("abcdeikmnorstuz") for _ in range(rng.randrange(0, 8))) + rng.choice(["", "", "-x", "-data", "1"])
        if n not in avoid:
            return n


def simple_value(rng):
    x = rng.random()
    if x < 0.2:
        return m.Value(True, "TRUE")
    if x < 0.4:
        return m.Value(1.5, "1.5")
    return m.Value(1, "1")
