"""C05: ranges that cannot be represented are refused, all others accepted."""
import math

from .. import common, gen, model as m, mutate
from ..harness import Check

U64, I64 = 2**64 - 1, 2**63 - 1
D = m.DOUBLE_LIMIT
POW = [0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 52, 53, 54, 62, 63, 64]


def near_int(rng):
    v = 2 ** rng.choice(POW) + rng.choice([-2, -1, 0, 1])
    return v * rng.choice([1, 1, 1, -1])


def int_ok(b, e):
    if e < b:
        return False
    return e <= U64 if b >= 0 else (b >= -I64 - 1 and e <= I64)


def good_int(rng):
    fixed = [(0, U64), (U64, U64), (1, U64), (2**63, U64), (0, I64), (0, I64 + 1), (-I64 - 1, I64), (-I64 - 1, -I64 - 1), (-1, I64), (-I64 - 1, 0), (-1, -1), (0, 0), (-1, 0)]
    if rng.random() < 0.35:
        return rng.choice(fixed)
    while True:
        b, e = near_int(rng), near_int(rng)
        if int_ok(b, e):
            return b, e


def bad_int(rng):
    """(begin, end, kind)"""
    k = rng.randrange(4)
    if k == 0:
        while True:
            b, e = near_int(rng), near_int(rng)
            if rng.random() < 0.4:
                e = b - rng.choice([1, 1, 2, 100])
            if e < b:
                return b, e, "reversed"
    if k == 1:
        e = rng.choice([U64 + 1, U64 + 1, U64 + 2, 2**65, 2**70, 2**128, 10**40])
        b = rng.choice([0, 0, 1, 255, U64, e])
        return b, e, "too_large"
    if k == 2:
        e = rng.choice([I64 + 1, I64 + 1, I64 + 2, U64, U64 + 1, 2**100])
        b = rng.choice([-1, -1, -128, -I64 - 1])
        return b, e, "too_large_signed"
    b = rng.choice([-I64 - 2, -I64 - 2, -I64 - 3, -U64, -(2**64), -(2**100)])
    e = rng.choice([b, -1, 0, 1, I64, -I64 - 1])
    return b, e, "too_small"


REALS = [0.0, 1.0, -1.0, 0.5, 3.4e38, -3.4e38, 3.4000000001e38, -3.4000000001e38, 1e-300, -1e-300, 5e-324, D, -D, 1e300, 255.0, 1e39]
OVER = ["1.8E308", "1.7976931348623159E308", "2.0E308", "1.0E309", "1.0e400"]


def good_real(rng):
    x, y = rng.choice(REALS), rng.choice(REALS)
    return m.TReal(min(x, y), max(x, y))


def bad_real(rng):
    k = rng.randrange(3)
    if k == 0:
        while True:
            x, y = rng.choice(REALS), rng.choice(REALS)
            if rng.random() < 0.3:
                y = x - abs(x) * 1e-15
            if x > y:
                return m.TReal(x, y), "reversed"
    lit = rng.choice(OVER)
    if k == 1:
        return m.TReal(0.0, 0.0, (rng.choice(["0.0", "-1.5", lit, "-3.4E38"]), lit)), "too_large"
    return m.TReal(0.0, 0.0, ("-" + lit, rng.choice(["0.0", "1.5", "-" + lit, "3.4E38", lit]))), "too_small"


def posix_type(name):
    if name == "Float":
        return m.TReal(-3.4e38, 3.4e38, ("-3.4E38", "3.4E38"))
    if name == "Double":
        return m.TReal(-D, D, ("-1.7976931348623157E308", "1.7976931348623157E308"))
    return m.TInt(*m.POSIX[name])


def bad_posix(rng, name):
    """another type than the one of the POSIX name"""
    isreal = name in ("Float", "Double")
    if rng.random() < 0.12:
        return rng.choice([m.TReal(None, None) if isreal else m.TInt(None, None), m.TArr(rng.choice([1, 2, 8]), posix_type(name))])
    k = rng.randrange(7)
    if k == 0:
        return m.TBool()
    if k == 1:
        return m.TStr("IA5String", rng.choice([1, 8]))
    if k == 2:
        o = rng.choice([n for n in list(m.POSIX) + ["Float", "Double"] if n != name])
        return posix_type(o)
    if isreal:
        if k == 3:
            return m.TInt(*rng.choice([(0, 255), (0, 1), (-128, 127)]))
        f = 3.4e38 if name == "Float" else D
        c = [(-f, 0.0), (0.0, f), (-f, f * 0.999999), (-f * 0.999999, f), (-1.0, 1.0), (0.0, 0.0), (-3.3e38, 3.3e38), (-f, 3.39e38), (-1e30, f)]
        c += [(-f, math.nextafter(f, 0)), (math.nextafter(-f, 0), f)] * 2 + ([(-f, math.nextafter(f, D)), (math.nextafter(-f, -D), f)] * 2 if f < D else [])
        x, y = rng.choice(c)
        return m.TReal(x, y)
    b, e = m.POSIX[name]
    if k == 3:
        return m.TReal(float(b), float(e), ("%d.0" % b, "%d.0" % e))
    c = [(b, e - 1), (b + 1, e), (b + 1, e - 1), (0, 0), (b, b), (e, e), (b, e // 2)]
    if int_ok(b, e + 1):
        c += [(b, e + 1)] * 2
    if int_ok(b - 1, e):
        c += [(b - 1, e)]
    x, y = rng.choice([q for q in c if q != (b, e)])
    return m.TInt(x, y)


class C05(Check):
    id = "C05"
    rule = (
        "integer and real ranges at, just inside and just outside of every limit (end against begin, 2^k, 0..2^64-1, -2^63..2^63-1, +-3.4E38, the double limit), NULL, and POSIX names "
        "with exact and wrong ranges and base types, planted as member, choice item, simple definition or array element at a random place of a random valid bundle; "
        "representable ones must be accepted and all others refused without output; distinct by range, place and generator"
    )
    assumptions = ["a real literal is out of double precision if it rounds to infinity"]
    quick = 1600
    thorough = 12000
    required = {"bad_reversed": 40, "bad_too_large": 20, "bad_too_large_signed": 15, "bad_too_small": 20, "bad_null": 40, "bad_posix": 50, "good_ranges_accepted": 500,
                "in_choice": 25, "in_simple": 60, "in_seq": 60, "in_array": 20, "good_posix_accepted": 40, "refusals_without_output": 500, "rejecting_runs_binary": 40}

    def plant(self, rng, b, t, kinds):
        """puts a type into the bundle; returns (kind, description, module, message)"""
        kind = rng.choice(kinds)
        mod = rng.choice(b.modules)
        taken = {d.name for x in b.modules for d in x.defs} | {n for x in b.modules for i in x.imports for n in i.names}
        if kind == "array":
            t = m.TArr(rng.randrange(1, 9), t)
            if rng.random() < 0.2:
                t = m.TArr(2, t)
        if kind == "simple":
            d = m.Simple(mutate.random_cap(rng, taken | set(m.POSIX)), t)
            mod.defs.insert(rng.randrange(len(mod.defs) + 1), d)
            return kind, d.name, mod.name, None
        if kind == "choice":
            c = [d for d in mod.defs if isinstance(d, m.Choice)]
            if not c:
                d = m.Choice(mutate.random_cap(rng, taken), [m.Member("aa", m.TBool())])
                mod.defs.insert(rng.randrange(len(mod.defs) + 1), d)
            else:
                d = rng.choice(c)
        else:
            # sequences without value lists to them keep the bundle valid for binary
            used = {mem.type.name for s in b.seqs() for mem in s.members if isinstance(mem.type, m.TRef)}
            c = [d for d in mod.defs if isinstance(d, m.Seq) and d.name not in used]
            if c and rng.random() < 0.8:
                d = rng.choice(c)
            else:
                d = m.Seq(mutate.random_cap(rng, taken), [m.Member("aa", m.TBool())])
                mod.defs.insert(rng.randrange(len(mod.defs) + 1), d)
        key = mutate.random_low(rng, {x.key for x in d.members} | gen.C_WORDS)
        d.members.insert(rng.randrange(len(d.members) + 1), m.Member(key, t))
        return kind, "%s.%s" % (d.name, key), mod.name, d.name if isinstance(d, m.Seq) else None

    def case(self, idx, rng, box, stats):
        b = gen.bundle(rng, mutate.base_profile(rng, gen, modules=rng.choice([(1, 2), (2, 4)]), posix_only=False))
        gens, cmod, cmsg = mutate.gens_for(b, rng, 2)
        if idx % 3 == 0:
            return self.good(idx, rng, box, stats, b, gens, cmod, cmsg)
        x = rng.random()
        kinds = ["seq", "seq", "choice", "simple", "simple", "array"]
        if x < 0.2:
            t, what = m.TNull(), "null"
        elif x < 0.45:
            taken = {d.name for y in b.modules for d in y.defs}
            name = rng.choice([n for n in list(m.POSIX) + ["Float", "Double"]])
            have = [d for y in b.modules for d in y.defs if d.name == name]
            t = bad_posix(rng, name)
            if have:
                have[0].type = t
            else:
                mod = rng.choice(b.modules)
                mod.defs.insert(rng.randrange(len(mod.defs) + 1), m.Simple(name, t))
            what = "posix"
            where = name
        elif x < 0.8:
            lo, hi, what = bad_int(rng)
            t = m.TInt(lo, hi)
        else:
            t, what = bad_real(rng)
        if what != "posix":
            kind, where, _, _ = self.plant(rng, b, t, kinds)
            stats["in_" + kind] += 1
        stats["bad_" + what] += 1
        texts = common.render_all(b, rng)
        why = "%s: %s has type %s" % (what, where, t)
        for g in gens:
            common.expect_reject(box, rng, g, texts, b.names(), stats, why, module=cmod, messages=[cmsg])
        return "%s/%r/%s" % (what, t, gens), why if idx < 10 else None

    def good(self, idx, rng, box, stats, b, gens, cmod, cmsg):
        n = 0
        key = []
        msgs = {}
        for _ in range(rng.randrange(2, 9)):
            x = rng.random()
            if x < 0.7:
                t = m.TInt(*good_int(rng))
            else:
                t = good_real(rng)
            kind, where, mod, msg = self.plant(rng, b, t, ["seq", "seq", "seq", "simple", "choice"])
            if msg:
                msgs[msg] = mod
            n += 1
            key.append(repr(t))
        taken = {d.name for y in b.modules for d in y.defs}
        for name in rng.sample(list(m.POSIX) + ["Float", "Double"], 3):
            if name not in taken:
                mod = rng.choice(b.modules)
                mod.defs.insert(rng.randrange(len(mod.defs) + 1), m.Simple(name, posix_type(name)))
                stats["good_posix_accepted"] += 1
        texts = common.render_all(b, rng)
        defs = b.defs()
        for g in gens:
            if g == "cosmos" and msgs:
                ok = sorted(x for x in msgs if not common.has_choice(defs[x], defs) and not common.has_seq_array(defs[x], defs))
                if ok:
                    cmsg = rng.choice(ok)
                    cmod = msgs[cmsg]
            common.accept(box, g, texts, b.names(), stats, module=cmod, messages=[cmsg])
            stats["good_ranges_accepted"] += n
        return "good/" + "/".join(key) + str(gens), None


CHECK = C05
