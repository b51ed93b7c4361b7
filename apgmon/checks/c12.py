"""C12: message ids and constants are exactly those the values define."""
import os
import re
from collections import Counter

from .. import common, cosmos, cprobe, gen, model as m, ref
from ..harness import Check, Violation


def value(text):
    t = text.strip()
    while t.startswith("(") and t.endswith(")"):
        t = t[1:-1].strip()
    if t in ("true", "false"):
        return t == "true"
    try:
        return cosmos.number(t)
    except ValueError:
        return "unreadable: " + text


def same(got, want):
    if isinstance(want, bool) or isinstance(got, bool):
        return got is want
    return got == want


class C12(Check):
    id = "C12"
    rule = (
        "random valid bundles rich in value lists (CCSDS primary headers with random subsets and orders of their components, wrapped to several depths, several messages per module, "
        "headers imported from other modules, boundary values of every type) through the cFS generator; the macros of every message id header as seen by the preprocessor compared as a set, "
        "with their values and their order within each sequence, with the reference; distinct by structure digest; non-trivial if a macro was compared"
    )
    assumptions = ["if two values of a module have the same macro name, all definitions in the text count, not the last one", "application process identifiers above 2047 are a known finding and not generated"]
    quick = 2000
    thorough = 12000
    required = {"macros_with_equal_names": 100, "macros_compared": 4000, "mids_compared": 600, "mids_with_all_parts": 100, "booleans": 300, "floats": 100, "negative": 100, "beyond_32_bits": 100, "headers_without_macros": 200}

    def case(self, idx, rng, box, stats):
        p = gen.Profile(wc=rng.choice([0.5, 0.9, 1.2]), ccsds=rng.choice([0.0, 1.0, 1.0, 1.0]), comments=rng.choice([0.0, 0.3]), unique_wc_keys=rng.random() < 0.85, arrays=rng.choice(["c", ""]),
                        modules=rng.choice([(1, 1), (1, 4), (3, 6)]), defs=rng.choice([(2, 6), (4, 10)]))
        b = gen.bundle(rng, p)
        exp = {mod.name: [(d, ref.defines(d)) for d in mod.defs if isinstance(d, m.Seq)] for mod in b.modules}
        equal = False
        for ds in exp.values():
            names = [n for _, x in ds for n, _ in x]
            equal = equal or len(set(names)) != len(names)
        if equal:
            return self.equal_names(b, exp, rng, box, stats)
        texts = common.render_all(b, rng)
        out = box.path("out")
        common.accept(box, "cfs", texts, b.names(), stats, outdir=out)
        sample = None
        for mod in b.modules:
            path = os.path.join(out, m.cname(mod.name) + "_msgids.h")
            if not os.path.exists(path):
                raise Violation("no message id header for module %s" % mod.name, **common.arts(texts))
            with open(path) as f:
                text = f.read()
            mac, err = cprobe.macros(path)
            bad = None
            want = {n: v for _, x in exp[mod.name] for n, v in x}
            if mac is None:
                bad = err
            else:
                got = {n: v for n, v in mac.items() if v or n in want}  # the include guard has no value
                if set(got) != set(want):
                    bad = "macros which the values do not define: %s; missing: %s" % (sorted(set(got) - set(want))[:8], sorted(set(want) - set(got))[:8])
                else:
                    d = ["%s is %s, expected %s" % (n, got[n], ("0x%04X" % want[n] if n.endswith("_MID") else want[n])) for n in want if not same(value(got[n]), want[n])]
                    bad = "\n".join(d[:8])
            if not bad:
                lines = [t for k, t in cprobe.lex(text) if k == "pp"]
                seen = [x.group(1) for x in (re.match(r"# *define (\w+)", t) for t in lines) if x]
                rep = [n for n, c in Counter(seen).items() if c > 1]
                if rep:
                    bad = "defined twice: %s" % rep
                for seq, x in exp[mod.name]:
                    names = [n for n, _ in x]
                    mine = [n for n in seen if n in set(names)]
                    if mine != names:
                        bad = bad or "order of the values of %s: %s, expected %s" % (seq.name, mine[:10], names[:10])
            if bad:
                raise Violation("message id header of module %s: %s" % (mod.name, bad), **common.arts(texts, header=text))
            stats["headers_without_macros"] += not want
            stats["macros_compared"] += len(want)
            for n, v in want.items():
                if n.endswith("_MID"):
                    stats["mids_compared"] += 1
                    stats["mids_with_all_parts"] += bool(v & 0xE000 and v & 0x07FF)
                elif isinstance(v, bool):
                    stats["booleans"] += 1
                elif isinstance(v, float):
                    stats["floats"] += 1
                else:
                    stats["negative"] += v < 0
                    stats["beyond_32_bits"] += v >= 2**32
            if want and sample is None:
                sample = text[:1200]
        return common.feature_key(b), sample if idx < 8 else None

    def equal_names(self, b, exp, rng, box, stats):
        """two values with the same name: the preprocessor would only show one of them"""
        texts = common.render_all(b, rng)
        out = box.path("out")
        common.accept(box, "cfs", texts, b.names(), stats, outdir=out)
        for mod in b.modules:
            with open(os.path.join(out, m.cname(mod.name) + "_msgids.h")) as f:
                text = f.read()
            lines = [re.match(r"# *define +(\w+) +(.+)", t) for k, t in cprobe.lex(text) if k == "pp"]
            got = [(x.group(1), value(x.group(2))) for x in lines if x]
            owners = {}
            for seq, x in exp[mod.name]:
                for n, _ in x:
                    owners.setdefault(n, set()).add(seq.name)
            for n, v in got:
                if n not in owners:
                    raise Violation("message id header of module %s: %s is defined, which the values do not define" % (mod.name, n), **common.arts(texts, header=text))
            for seq, x in exp[mod.name]:
                mine = [(n, v) for n, v in got if owners[n] == {seq.name}]
                want = [(n, v) for n, v in x if owners[n] == {seq.name}]
                if len(mine) != len(want) or any(a[0] != c[0] or not same(a[1], c[1]) for a, c in zip(mine, want)):
                    raise Violation("message id header of module %s: values of %s: %s, expected %s" % (mod.name, seq.name, mine[:12], want[:12]), **common.arts(texts, header=text))
                stats["macros_with_equal_names"] += len(want)
        return common.feature_key(b) + "equal", None


CHECK = C12
