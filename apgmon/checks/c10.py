"""C10: COSMOS packets list exactly the fields of the message."""
from .. import common, cosmos, gen, model as m, ref
from ..harness import Check, Violation


def read(files, name, texts):
    try:
        text = files[name + ".txt"].decode("utf8")
        return text, cosmos.parse(text)
    except (cosmos.BadFile, ValueError, KeyError) as ex:
        raise Violation("COSMOS file: %r" % ex, **common.arts(texts, files=sorted(files)))


def compare_packet(pk, seq, defs, target):
    """list of differences"""
    out = []
    if (pk.target, pk.name, pk.endian) != (target, seq.name, "BIG_ENDIAN"):
        out.append("packet %r, expected %r" % ((pk.target, pk.name, pk.endian), (target, seq.name, "BIG_ENDIAN")))
    want = seq.comment.text if seq.comment else ""
    if pk.desc != want:
        out.append("description of the packet: %r, expected %r" % (pk.desc, want))
    exp = ref.cosmos_items(seq, defs)
    for i, (g, e) in enumerate(zip(pk.items, exp)):
        d = cosmos.compare_item(g, e)
        if d:
            out.append("item %d (%s): %s" % (i, e.name, "; ".join(d)))
    if len(pk.items) != len(exp):
        out.append("%d items, expected %d: %s" % (len(pk.items), len(exp), [x.name for x in pk.items[len(exp):] or exp[len(pk.items):]][:5]))
    return out, exp


class C10(Check):
    id = "C10"
    rule = (
        "random valid bundles (1-9 modules, nested sequences through several modules, all leaf types, arrays of simple types and enumerations, value lists at every level, "
        "hostile comments and units) with random subsets and orders of messages; every line of the COSMOS file is tokenised and each item compared with the reference expansion; "
        "distinct by structure digest and messages; non-trivial if an item was compared"
    )
    assumptions = ["reference expansion in apgmon/ref.py", "arrays of sequences are a known finding and not generated", "choices are not supported by the COSMOS generator"]
    quick = 2000
    thorough = 12000
    required = {"items": 5000, "id_items": 600, "array_items": 150, "states": 1500, "limits": 300, "units": 200, "little_endian": 50, "nested_items": 1000, "descriptions": 500, "packets": 800}

    def profile(self, rng):
        p = gen.Profile(arrays=rng.choice(["cosmos", "cosmos", ""]), comments=rng.choice([0.0, 0.4, 0.8]), wc=rng.choice([0.2, 0.6, 0.9]), ccsds=rng.choice([0.0, 0.5, 1.0]), le=0.15)
        x = rng.random()
        if x < 0.1:
            p.members = (8, 30)
        elif x < 0.2:
            p.defs, p.modules = (6, 14), (1, 2)
        elif x < 0.3:
            p.modules, p.defs = (4, 7), (1, 4)
        return p

    def case(self, idx, rng, box, stats):
        b = gen.bundle(rng, self.profile(rng))
        defs = b.defs()
        mods = [mod for mod in b.modules if any(isinstance(d, m.Seq) for d in mod.defs)]
        mod = rng.choice(mods)
        seqs = [d for d in mod.defs if isinstance(d, m.Seq)]
        if rng.random() < 0.7:  # prefer messages with values
            seqs.sort(key=lambda s: (not any(x.wc for x in s.members), rng.random()))
        else:
            rng.shuffle(seqs)
        msgs = seqs[: rng.choice([1, 1, 2, 3, len(seqs)])]
        if rng.random() < 0.5:
            rng.shuffle(msgs)
        texts = common.render_all(b, rng)
        target = rng.choice(["tlm", "TARGET", "my_target", "sat-1", "X", "v1.2", "tlm.txt", "4u", "a.b.c"])
        files = common.accept(box, "cosmos", texts, b.names(), stats, module=mod.name, messages=[s.name for s in msgs], outname=target)
        if set(files) != {target + ".txt"}:
            raise Violation("files %s" % sorted(files), **common.arts(texts))
        text, pks = read(files, target, texts)
        if len(pks) != len(msgs):
            raise Violation("%d packets, requested %d" % (len(pks), len(msgs)), **common.arts(texts, output=text))
        for pk, seq in zip(pks, msgs):
            d, exp = compare_packet(pk, seq, defs, target)
            if d:
                raise Violation("COSMOS packet %s (module %s, messages %s):\n%s" % (seq.name, mod.name, [s.name for s in msgs], "\n".join(d[:8])), **common.arts(texts, output=text))
            stats["packets"] += 1
            stats["items"] += len(exp)
            stats["nested_items"] += max(0, len(exp) - len(seq.members))
            for e in exp:
                stats["id_items"] += e.kw == "APPEND_ID_ITEM"
                stats["array_items"] += e.kw == "APPEND_ARRAY_ITEM"
                stats["states"] += len(e.states)
                stats["limits"] += bool(e.limits)
                stats["units"] += bool(e.unit)
                stats["little_endian"] += bool(e.le)
                stats["descriptions"] += bool(e.desc)
                stats["type_" + e.type] += 1
        return common.feature_key(b) + "/" + ",".join(s.name for s in msgs), text[:1500] if idx < 8 else None


CHECK = C10
