"""C02: numbering of enumerations."""
import os

from .. import api, common, cosmos, cprobe, gen, model as m, ref
from ..harness import Check, Violation
from . import c01


def sizes(r):
    return r.choice([1, 2, 2, 3, 3, 4, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, r.randrange(1, 70), r.randrange(1, 140), r.choice([63, 64, 65, 127, 128, 129, 255, 256, 257, 300])])


def bad_numbers(rng, n):
    """all items numbered, not a permutation of 0..n-1"""
    for _ in range(200):
        pos = list(range(n))
        if rng.random() < 0.7:
            rng.shuffle(pos)
        k = rng.randrange(10)
        i = rng.randrange(n)
        if k == 0:  # one repeated
            pos[i] = rng.choice(pos)
        elif k == 1:  # shifted
            pos = [p + rng.choice([1, 1, 2, 5]) for p in pos] if rng.random() < 0.3 else [p + 1 for p in pos]
        elif k == 2:
            pos[i] = rng.choice([n, n + 1, 255, 256, 2**31, 2**32, 10**12])
        elif k == 3:
            pos[i] = -rng.choice([1, 2, n, n + 1, 2**31])
        elif k == 4 and n >= 3:  # two changes which keep the sum
            j = rng.choice([x for x in range(n) if x != i])
            dlt = rng.choice([1, 1, 2, n, n - 1, rng.randrange(1, n + 2)])
            pos[i] += dlt
            pos[j] -= dlt
        elif k == 5 and n >= 4:  # sum and sum of squares differ only slightly
            a = sorted(rng.sample(range(n), 3))
            pos[a[0]], pos[a[1]], pos[a[2]] = pos[a[1]], pos[a[1]], pos[a[1]]
        elif k == 6:  # multiples
            pos = [2 * p for p in pos]
        elif k == 7:
            pos = [-p for p in pos]
        elif k == 8 and n >= 2:  # congruent modulo n
            j = rng.choice([x for x in range(n) if x != i])
            pos[i] -= n
            if rng.random() < 0.7:
                pos[j] += n
        elif k == 9 and n >= 2:  # small numbers only
            pos = [0] * n
            if rng.random() < 0.4:
                pos[i] = rng.choice([1, n - 1])
        if sorted(pos) != list(range(n)):
            return pos
    return None


class C02(Check):
    id = "C02"
    rule = (
        "bundles full of enumerations (1-300 items; unnumbered, identity, reversed, rotated, swapped and random numberings) used within and across modules: "
        "numbers read from the parsed model, from the compiled enumerators and bit fields and from the COSMOS states; plus enumerations with "
        "repeated, missing, negative, too large and sum-preserving wrong numbers which every generator must refuse; "
        "distinct by structure digest; non-trivial if an enumeration was read back or refused"
    )
    assumptions = [
        "enumerations which number only some items are outside of the statement",
    ]
    quick = 1000
    thorough = 6000
    required = {"items_in_model": 3000, "enumerators_compiled": 1500, "states_compared": 1000, "refused_numberings": 150, "permutations": 100}

    def case(self, idx, rng, box, stats):
        p = gen.Profile(
            enum_bias=0.55, enum_sizes=sizes, enum_numbered=rng.choice([None, True, False]), members=(1, 6), defs=(2, 5), modules=(1, 3),
            arrays="", wc=0.2, comments=rng.choice([0.0, 0.3]), big=0.0,
        )
        b = gen.bundle(rng, p)
        enums = [(mod, d) for mod in b.modules for d in mod.defs if isinstance(d, m.Enum)]
        if not enums:
            return None, None
        if idx % 5 < 2:
            return self.refuse(idx, rng, box, stats, b, enums)
        texts = common.render_all(b, rng)
        inputs = box.write_inputs(texts)
        # parsed model
        exp, sized = c01.expected(b)
        kind, got = api.call(box, "extract", ([t.replace("\r\n", "\n") for _, t in texts], sized))
        if kind != "ok":
            raise Violation("parsing a valid bundle: %s %s" % (kind, got), **common.arts(texts))
        ge = {d[1]: (d[3], d[4]) for mod in got[1] for d in mod[5] if d[0] == "Enumerated"}
        ee = {d[1]: (d[3], d[4]) for mod in exp[1] for d in mod[5] if d[0] == "Enumerated"}
        if ge != ee:
            d = c01.diff(tuple(sorted(ge.items())), tuple(sorted(ee.items())))
            raise Violation("enumerations of the parsed model: %s" % d, **common.arts(texts))
        stats["items_in_model"] += sum(len(v[0]) for v in ee.values())
        for _, e in enums:
            if e.items[0].pos is not None and [i.pos for i in e.items] != list(range(len(e.items))):
                stats["permutations"] += 1
        # compiled
        g = rng.choice(["cfs", "c"])
        out = box.path("out")
        files = common.accept(box, g, texts, b.names(), stats, outdir=out, inputs=inputs)
        heads = sorted(f for f in files if f.endswith(".h") and not f.endswith("_msgids.h"))
        ok, text = cprobe.build_and_run(cprobe.layout_source(b, heads), out)
        if not ok:
            raise Violation("headers of generate-%s: %s" % (g, text), **common.arts(texts))
        gl, el = cprobe.parse_layout(text), cprobe.expected_layout(b)
        diff = cprobe.compare_layout(gl, el)
        if diff:
            raise Violation("compiled enumerations of generate-%s:\n%s" % (g, "\n".join(diff[:8])), **common.arts(texts))
        stats["enumerators_compiled"] += sum(len(v) for v in el["enum"].values())
        # the C text lists them in the order of their numbers
        # COSMOS
        mod, msg = common.pick_message(b, rng)
        if msg:
            fs = common.accept(box, "cosmos", texts, b.names(), stats, module=mod, messages=[msg], inputs=inputs)
            try:
                pk = cosmos.parse(fs["tlm.txt"].decode("utf8"))
            except (cosmos.BadFile, ValueError, KeyError) as ex:
                raise Violation("COSMOS file: %r" % ex, **common.arts(texts))
            want = ref.cosmos_items(b.defs()[msg], b.defs())
            gi = [(i.name, i.bits, i.type, i.states) for i in pk[0].items]
            wi = [(i.name, i.bits, i.type, i.states) for i in want]
            if gi != wi:
                x = next((x for x in zip(gi, wi) if x[0] != x[1]), (len(gi), len(wi)))
                raise Violation("COSMOS states of %s: %r, expected %r" % ((msg,) + tuple(x)), **common.arts(texts))
            stats["states_compared"] += sum(len(i.states) for i in want)
        return common.feature_key(b) + g, texts[0][1][:1000] if idx < 8 else None

    def refuse(self, idx, rng, box, stats, b, enums):
        big = [x for x in enums if len(x[1].items) > 1] or enums
        mod, e = rng.choice(big if rng.random() < 0.9 else enums)
        pos = bad_numbers(rng, len(e.items))
        if pos is None:
            return None, None
        for it, q in zip(e.items, pos):
            it.pos = q
        texts = common.render_all(b, rng)
        inputs = box.write_inputs(texts)
        m2, msg = common.pick_message(b, rng)
        gens = rng.sample(["cfs", "c", "binary"] + (["cosmos"] if msg else []), 2)
        for g in gens:
            common.expect_reject(box, rng, g, texts, b.names(), stats, "%s numbered %s" % (e.name, pos[:40]), module=m2, messages=[msg], inputs=inputs)
            stats["refused_numberings"] += 1
        return "bad%s" % (tuple(pos),), None


CHECK = C02
