"""C19: a refusal names its cause."""
import os
import re
from collections import Counter

from .. import common, gen, model as m, mutate, ref, runner
from ..harness import Check, Violation
from .c03 import C03
from .c04 import C04
from .c05 import bad_int, bad_posix
from .c05 import C05
from .c06 import C06
from .c17 import strip


def names_token(text, name):
    return re.search(r"(?<![A-Za-z0-9_-])%s(?![A-Za-z0-9_]|-[A-Za-z0-9])" % re.escape(name), text) is not None


def has_cycle(graph):
    left = dict(graph)
    while left:
        done = [n for n, d in left.items() if not any(x in left for x in d)]
        if not done:
            return True
        for n in done:
            del left[n]
    return False


class C19(Check):
    id = "C19"
    rule = (
        "one error of a known kind and place planted into a random valid bundle or its command (dangling references, duplicates, wrong module lists, cycles, ranges, POSIX names, "
        "missing files, unreadable tokens); the text printed by the refusing run must contain the names, limits, path or line of the planted error; distinct by kind, generator and structure"
    )
    assumptions = [
        "names are looked for as whole words in standard output and standard error",
        "the line of an unreadable token is the one it stands in, or one of those back to the token before it",
    ]
    quick = 1200
    thorough = 6000
    KINDS = ["type", "simple", "unimport", "import_undefined", "missing_module", "drop_file", "component", "message",
             "dup_def_same", "dup_def_other", "dup_module", "dup_member", "dup_choice", "dup_enum", "dup_comp", "list",
             "imports", "types", "range", "posix", "path", "line", "line"]
    required = dict({"kind_" + k: 8 for k in KINDS}, named=500)
    required.update(kind_dup_choice=3, several_names=8)

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.c03, self.c04, self.c05, self.c06 = C03.__new__(C03), C04.__new__(C04), C05.__new__(C05), C06.__new__(C06)

    def case(self, idx, rng, box, stats):
        kind = self.KINDS[idx % len(self.KINDS)]
        p = mutate.base_profile(rng, gen)
        if kind in ("unimport", "drop_file", "missing_module", "import_undefined", "dup_def_other", "dup_module", "list", "imports"):
            p.modules = rng.choice([(2, 5), (7, 13)]) if kind == "list" else (2, 5)
        if kind in ("component", "dup_comp"):
            p.wc, p.ccsds = 1.0, 0.6
        if kind == "dup_choice":
            p.choice = 0.4
        if kind == "dup_enum":
            p.enum_bias = 0.3
        b = gen.bundle(rng, p)
        gens, cmod, cmsg = mutate.gens_for(b, rng, 2)
        if kind == "message":
            gens = ["cosmos"]
        if kind == "list":
            gens = [g for g in gens if g != "cosmos"] or ["c"]
        if (kind == "message" or "cosmos" in gens) and not cmsg:
            return None, None
        names, msgs, mod = None, [cmsg], cmod
        graph, either = None, None
        if kind in ("path", "line"):
            return getattr(self, kind)(idx, rng, box, stats, b, gens, cmod, cmsg)
        if kind in C03.OPS:
            res = getattr(self.c03, "op_" + kind)(rng, b, Counter(), cmod, cmsg)
            if res is None:
                return None, None
            why, mod2, msgs2, names, _ = res
            mod, msgs = mod2 or mod, msgs2 or msgs
            w = why.split()
            want = {
                "type": lambda: [w[2], w[-1]],
                "simple": lambda: [w[2]],
                "unimport": lambda: [w[2], w[-1]],
                "import_undefined": lambda: [w[3], w[5], w[7]],
                "missing_module": lambda: [w[2]],
                "drop_file": lambda: [w[-1]],
                "component": lambda: [w[1], w[5].split(".")[0]],
                "message": lambda: [w[1]],
            }[kind]()
            if kind == "message" and rng.random() < 0.5:
                for _ in range(rng.choice([1, 1, 2, 12])):
                    more = mutate.random_cap(rng, {d.name for x in b.modules for d in x.defs} | set(want))
                    msgs.insert(rng.randrange(len(msgs) + 1), more)
                    want.append(more)
                stats["several_names"] += 1
        elif kind in C04.OPS:
            if kind in ("dup_member", "dup_choice"):
                cls = m.Seq if kind == "dup_member" else m.Choice
                c = [d for x in b.modules for d in x.defs if isinstance(d, cls)]
                if not c:
                    return None, None
                d = rng.choice(c)
                a = common.clone(rng.choice(d.members))
                d.members.insert(rng.randrange(len(d.members) + 1), a)
                why, want = "member %s occurs twice in %s" % (a.key, d.name), [a.key, d.name]
            else:
                res = getattr(self.c04, "op_" + kind)(rng, b, Counter())
                if res is None:
                    return None, None
                why, names = res
                w = why.split()
                want = [w[1]]
                if kind == "dup_enum":
                    want.append(w[-1])
                elif kind == "dup_comp":
                    want.append(w[5].split(".")[0])
                elif kind == "list":
                    have = b.names()
                    if rng.random() < 0.6:
                        names = rng.sample(have, rng.randrange(1, len(have)))
                        x = rng.random()
                        if x < 0.35:  # two or more are repeated
                            names = have + rng.sample(have, rng.choice([2, 2, min(3, len(have)), len(have)]))
                            rng.shuffle(names)
                        elif x < 0.7:
                            names = have + [mutate.random_low(rng, set(have)) for _ in range(rng.choice([2, 3, 12]))]
                            names = list(dict.fromkeys(names))
                        why = "module list %s for %s" % (names, have)
                        stats["several_names"] += 1
                    want = [n for n, k in Counter(names).items() if k > 1] or [n for n in names if n not in have] + [n for n in have if n not in names]
                    want = [n.strip() for n in want if n.strip()]
        elif kind in ("imports", "types"):
            why, n = (self.c06.cycle_imports if kind == "imports" else self.c06.back_edge if rng.random() < 0.4 else self.c06.cycle_types)(rng, b, Counter())
            if why is None:
                return None, None
            want = []
            if has_cycle({x.name: {i.module for i in x.imports} for x in b.modules}):
                graph = {x.name: {i.module for i in x.imports} for x in b.modules}
            else:
                graph = {d.name: set(ref.direct_refs(d)) for x in b.modules for d in x.defs}
        elif kind == "range":
            lo, hi, what = bad_int(rng)
            self.c05.plant(rng, b, m.TInt(lo, hi), ["seq", "seq", "choice", "simple", "array"])
            # one of the limits: which one is out of the question depends on the other
            why, want = "range %d..%d" % (lo, hi), []
            either = [str(lo), str(hi)]
        else:
            name = rng.choice(list(m.POSIX) + ["Float", "Double"])
            t = bad_posix(rng, name)
            have = [d for y in b.modules for d in y.defs if d.name == name]
            if have:
                have[0].type = t
            else:
                x = rng.choice(b.modules)
                x.defs.insert(rng.randrange(len(x.defs) + 1), m.Simple(name, t))
            why, want = "wrong type %s of %s" % (t, name), [name]
        rng.shuffle(b.modules)
        texts = common.render_all(b, rng)
        for g in gens:
            if names is None:
                names = list(dict.fromkeys(b.names()))
            r = common.expect_reject(box, rng, g, texts, names, stats, why, module=mod, messages=msgs)
            if graph is not None:
                told = {n: d for n, d in graph.items() if names_token(r.out, n)}
                if not has_cycle(told):
                    raise Violation("generate-%s refuses a cycle (%s) but the names in its message form none: %s" % (g, why, sorted(told)), **common.arts(texts, output=r.out))
                stats["named"] += 1
            if either is not None:
                if not any(names_token(r.out, n) for n in either):
                    raise Violation("generate-%s refuses (%s) without giving one of the limits" % (g, why), **common.arts(texts, output=r.out))
                stats["named"] += 1
            self.told(g, r, want, why, texts, stats)
        stats["kind_" + kind] += 1
        return "%s/%s/%s" % (kind, gens, common.feature_key(b)), why if idx < len(self.KINDS) else None

    def told(self, g, r, want, why, texts, stats):
        missing = [n for n in want if not names_token(r.out, n)]
        if missing:
            raise Violation("generate-%s refuses (%s) without naming %s" % (g, why, ", ".join(missing)), **common.arts(texts, output=r.out))
        stats["named"] += len(want)

    def path(self, idx, rng, box, stats, b, gens, cmod, cmsg):
        texts = common.render_all(b, rng)
        inputs = box.write_inputs(texts)
        k = rng.randrange(len(inputs) + 1)
        name = mutate.random_low(rng, set()) + rng.choice([".asn", ".asn1", "", ".txt"])
        inputs.insert(k, os.path.join(os.path.dirname(inputs[0]), "no-such-" + name))
        for g in gens:
            r = common.expect_reject(box, rng, g, texts, b.names(), stats, "missing file %s" % name, module=cmod, messages=[cmsg], inputs=inputs)
            if "no-such-" + name not in r.out:
                raise Violation("generate-%s refuses the missing file %s without naming it" % (g, name), **common.arts(texts, output=r.out))
            stats["named"] += 1
        stats["kind_path"] += 1
        return "path/%s/%s" % (gens, common.feature_key(b)), None

    def line(self, idx, rng, box, stats, b, gens, cmod, cmsg):
        b = strip(b)
        texts = common.render_all(b, rng)
        i = rng.randrange(len(texts))
        fn, text = texts[i]
        lines = [""] * rng.choice([0, 0, 1, 3, 40]) + text.split("\n")
        if rng.random() < 0.3:  # more blank lines between the others
            lines = [y for x in lines for y in [x] + [""] * rng.choice([0, 0, 1, 2])]
        k = rng.randrange(0, len(lines))
        first = k
        while first > 0 and not lines[first - 1].strip():
            first -= 1  # line number of the last token before, from 1
        if not first:
            first = 1
        lines.insert(k, "$" if rng.random() < 0.7 else "   $$ %")
        texts[i] = (fn, "\n".join(lines))
        for g in gens:
            r = common.expect_reject(box, rng, g, texts, b.names(), stats, "unreadable line %d" % (k + 1), module=cmod, messages=[cmsg])
            told = [int(x) for x in re.findall(r"(?<![\w.])None:(\d+):\d+", r.out)] or [int(x) for x in re.findall(r"\d+", r.out.strip().split("\n")[-1])]
            if not any(first <= x <= k + 1 for x in told):
                raise Violation("generate-%s refuses the unreadable line %d without giving its number: %s" % (g, k + 1, told), **common.arts(texts, output=r.out))
            stats["named"] += 1
        stats["kind_line"] += 1
        return "line/%d/%s/%s" % (k, gens, common.feature_key(b)), None


CHECK = C19
