"""C01: the parsed model contains exactly what the ASN.1 text says."""
from .. import api, common, gen, model as m, ref, runner
from ..harness import Check, Violation


def e_comment(c):
    return None if c is None else (c.text, c.unit, c.le)


def e_type(t, seq_member=False):
    if isinstance(t, m.TArr):
        return ("array", t.n, e_type(t.elem))
    if isinstance(t, m.TStr):
        return ("string", t.kind, t.n)
    if isinstance(t, m.TInt):
        return ("INTEGER", "int", repr(t.b), repr(t.e))
    if isinstance(t, m.TReal):
        return ("REAL", "float", repr(t.b), repr(t.e))
    if isinstance(t, m.TBool):
        return ("BOOLEAN",)
    return ("ref", t.name, t.name if seq_member else None)


def e_wc(w):
    if w is None:
        return None
    out = []
    for c in w.items:
        v = e_wc(c.value) if isinstance(c.value, m.WC) else (type(c.value.v).__name__, repr(c.value.v))
        out.append((c.key, v, e_comment(c.comment)))
    return (tuple(out), e_comment(w.comment))


def has_alias(t, defs, seen=()):
    """whether a type leads to a simple definition of a named type"""
    if isinstance(t, m.TArr):
        return True
    if isinstance(t, m.TRef):
        d = defs[t.name]
        if isinstance(d, m.Simple):
            return isinstance(d.type, (m.TRef, m.TArr))
        if isinstance(d, m.Seq):
            return any(has_alias(x.type, defs) for x in d.members)
    return False


def size(t, defs):
    return None if has_alias(t, defs) else ref.size_bits(t, defs)


def expected(bundle):
    """(structure, names with sizes)"""
    defs = bundle.defs()
    sized = set()
    mods = []
    for mod in bundle.modules:
        ds = []
        for d in mod.defs:
            n = None
            if isinstance(d, (m.Seq, m.Choice)):
                kind = "Sequence" if isinstance(d, m.Seq) else "Choice"
                isseq = kind == "Sequence"
                body = []
                for c in d.members:
                    s = size(c.type, defs) if isseq else None
                    if s is not None:
                        sized.add((d.name, c.key))
                    body.append((c.key, e_type(c.type, isseq), e_comment(c.comment), e_wc(c.wc), s))
                body = tuple(body)
                if isseq and all(b[4] is not None for b in body):
                    n = sum(b[4] for b in body)
            elif isinstance(d, m.Enum):
                kind = "Enumerated"
                cm = {i.key: i.comment for i in d.items}
                body = tuple((k, p, e_comment(cm[k])) for k, p in ref.numbered(d))
                n = ref.uint_bits(len(d.items) - 1)
            else:
                kind = "SimpleDefinition"
                body = e_type(d.type)
                if not isinstance(d.type, (m.TRef, m.TArr)):
                    n = ref.size_bits(d.type, defs)
            if n is not None:
                sized.add(d.name)
            ds.append((kind, d.name, e_comment(d.comment), body, n))
        imports = tuple((i.module, tuple(i.names)) for i in mod.imports)
        mods.append(
            (mod.name, e_comment(mod.comment), e_comment(mod.comment_import), imports, tuple(sorted({i.module for i in mod.imports})), tuple(ds))
        )
    return (tuple(bundle.names()), tuple(mods)), sized


def diff(g, e, path=""):
    if g == e:
        return None
    if isinstance(g, tuple) and isinstance(e, tuple):
        for i, (x, y) in enumerate(zip(g, e)):
            d = diff(x, y, path + "/%d" % i if not (y and isinstance(y, tuple) and isinstance(y[0], str)) else path + "/" + "-".join(str(v) for v in y[:2])[:60])
            if d:
                return d
        return "%s: %d parts, expected %d: %r, expected %r" % (path, len(g), len(e), g, e)
    return "%s: %r, expected %r" % (path, g, e)


class C01(Check):
    id = "C01"
    rule = (
        "random well-formed bundles with all types, choices, nested arrays, aliases, deep value lists, comments everywhere, random layout; "
        "the model read through its getters in a process of its own and compared with the abstract bundle the text was rendered from, part by part; "
        "distinct by structure digest, non-trivial if at least one definition was compared"
    )
    assumptions = [
        "the abstract bundle and its rendering (apgmon/gen.py, render.py) define what the text says",
        "sizes of arrays and choices are outside of the statement",
        "the comment of an import clause has no getter",
    ]
    quick = 2200
    thorough = 15000
    required = {"members_compared": 3000, "values_compared": 500, "comments_compared": 2000, "sizes_compared": 2000, "choices": 50, "imports": 300}

    def case(self, idx, rng, box, stats):
        p = gen.Profile(
            choice=rng.choice([0.0, 0.1]),
            arrays=rng.choice(["c", "any", "any"]),
            alias=rng.choice([0.0, 0.3]),
            comments=rng.choice([0.0, 0.3, 0.9]),
            odd_literals=rng.choice([0.0, 0.2]),
            wc=rng.choice([0.3, 0.8]),
        )
        x = rng.random()
        if x < 0.05:
            p.members = (20, 60)
        elif x < 0.1:
            p.defs = (15, 40)
        elif x < 0.13:
            p.modules = (6, 12)
        b = gen.bundle(rng, p)
        exp, sized = expected(b)
        texts = common.render_all(b, rng)
        kind, got = api.call(box, "extract", ([t.replace("\r\n", "\n") for _, t in texts], sized))
        if kind != "ok":
            raise Violation("parsing a valid bundle: %s %s" % (kind, got), **common.arts(texts))
        d = diff(got, exp)
        if d:
            raise Violation("the parsed model differs from the text at " + d[:1500], **common.arts(texts))
        stats["sizes_compared"] += len(sized)
        stats["modules"] += len(b.modules)
        stats["imports"] += sum(len(i.names) for mod in b.modules for i in mod.imports)

        def wcs(w):
            stats["values_compared"] += sum(1 for c in w.items if isinstance(c.value, m.Value))
            stats["comments_compared"] += sum(1 for c in w.items if c.comment) + bool(w.comment)
            for c in w.items:
                if isinstance(c.value, m.WC):
                    wcs(c.value)

        for mod in b.modules:
            for dd in mod.defs:
                stats["definitions"] += 1
                stats["comments_compared"] += dd.comment is not None
                if isinstance(dd, m.Choice):
                    stats["choices"] += 1
                for c in getattr(dd, "members", getattr(dd, "items", [])):
                    stats["members_compared"] += 1
                    stats["comments_compared"] += c.comment is not None
                    if getattr(c, "wc", None):
                        wcs(c.wc)
        return common.feature_key(b), texts[0][1][:1500] if idx < 8 else None


CHECK = C01
