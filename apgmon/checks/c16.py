"""C16: layout of the source and order of definitions do not matter."""
import os
import re

from .. import common, cprobe, gen, model as m, render, runner
from ..harness import Check, Violation


def reorder(b, rng):
    """the same bundle with other orders of definitions and import clauses"""
    c = common.clone(b)
    for mod in c.modules:
        k = rng.randrange(3)
        if k == 0:
            mod.defs.reverse()
        else:
            rng.shuffle(mod.defs)
        items = [(i.module, n) for i in mod.imports for n in i.names]
        rng.shuffle(items)
        how = rng.randrange(3)
        if how == 0:  # one clause per name
            mod.imports = [m.Import([n], mn) for mn, n in items]
        elif how == 1:  # one clause per module
            g = {}
            for mn, n in items:
                g.setdefault(mn, []).append(n)
            mod.imports = [m.Import(ns, mn) for mn, ns in g.items()]
        else:
            out = []
            for mn, n in items:
                same = [i for i in out if i.module == mn]
                if same and rng.random() < 0.5:
                    rng.choice(same).names.append(n)
                else:
                    out.append(m.Import([n], mn))
            rng.shuffle(out)
            mod.imports = out
        if not mod.imports:
            mod.comment_import = None
    return c


def blocks(text):
    """{name: code tokens} of the typedefs and variables of a generated file"""
    toks = [t for t in cprobe.code_tokens(text) if t[0] != "pp"]
    out = {}
    cur, depth = [], 0
    for k, t in toks:
        cur.append(t)
        if t in "{(":
            depth += 1
        elif t in "})":
            depth -= 1
        elif t == ";" and depth == 0:
            out.setdefault(" ".join(cur), 0)
            out[" ".join(cur)] += 1
            cur = []
    if cur:
        out["rest: " + " ".join(cur)] = 1
    return out


class C16(Check):
    id = "C16"
    rule = (
        "random valid bundles rendered twice with random whitespace, line breaks, indentation and line endings in every slot of the grammar which allows it, all four generators compared byte by byte; and with "
        "definitions shuffled or reversed and import clauses split, merged and reordered, comparing acceptance, struct and enumeration definitions (tokens, and where these differ the measured layout), "
        "compilability, initialisers, macros, COSMOS packets and binary files; distinct by structure digest; non-trivial if two outputs were compared"
    )
    assumptions = ["blanks within a comment and inside of the tokens of the grammar (types, BEGIN line) are not layout"]
    quick = 800
    thorough = 5000
    required = {"layout_pairs": 400, "layout_files": 1000, "order_pairs": 250, "definitions_compared": 2000, "headers_compiled": 400, "crlf": 40, "macros_compared": 500, "packets_compared": 200, "binary_files": 30, "variables_compared": 100, "chains": 8, "module_chains": 4, "bundles_with_many_arrays": 20, "arrays_of_sequences": 60}

    def case(self, idx, rng, box, stats):
        p = gen.Profile(modules=rng.choice([(1, 2), (1, 4), (3, 6)]), comments=rng.choice([0.0, 0.3, 0.7]), wc=rng.choice([0.3, 0.9]), ccsds=rng.choice([0.0, 0.5]), arrays=rng.choice(["both", "", ""]), extra_imports=0.4)
        if rng.random() < 0.3:
            p.wc_bin, p.posix_only, p.wc = True, rng.random() < 0.6, 0.9
        if idx % 5 == 4 and rng.random() < 0.25:
            p.chain = 1.0
            stats["chains"] += 1
        if rng.random() < 0.03:
            p.module_chain = 1.0
            stats["module_chains"] += 1
        arrays = idx % 5 == 3 and rng.random() < 0.5
        if arrays:  # a struct has to know the elements of its arrays
            p.arrays, p.array_bias, p.wc, p.members, p.wc_bin = "c", 0.5, 0.2, (1, 5), False
            stats["bundles_with_many_arrays"] += 1
        b = gen.bundle(rng, p)
        if idx % 5 < 3:
            return self.layout(idx, rng, box, stats, b)
        return self.order(idx, rng, box, stats, b, arrays)

    def gens(self, b, rng):
        out = ["cfs", "c"] + (["binary"] if common.binary_supported(b) else [])
        mod, msg = common.pick_message(b, rng)
        msgs = []
        if msg:
            out.append("cosmos")
            msgs = [d.name for d in b.module(mod).defs if isinstance(d, m.Seq)]
        return out, mod, msgs

    def run(self, box, g, inputs, names, mod, msgs, order):
        out = box.path("out")
        r = box.run(common.argv(g, inputs, names, out, mod, msgs, order))
        if r.hang:
            raise Violation("no end of generate-%s" % g)
        return r, out, runner.files(out)

    def layout(self, idx, rng, box, stats, b):
        t1 = [("f%d" % i, render.render(mod, render.Style("plain"))) for i, mod in enumerate(b.modules)]
        t2 = []
        for i, mod in enumerate(b.modules):
            eol = rng.choice(["\n", "\n", "\r\n", "\n"])
            stats["crlf"] += eol != "\n"
            t2.append(("f%d" % i, render.render(mod, render.Style(rng.choice(["random", "random", "dense"]), rng, eol))))
        i1, i2 = box.write_inputs(t1), box.write_inputs(t2)
        gens, mod, msgs = self.gens(b, rng)
        order = rng.choice(["little-endian", "big-endian"])
        for g in rng.sample(gens, min(2, len(gens))):
            r1, _, f1 = self.run(box, g, i1, b.names(), mod, msgs, order)
            r2, _, f2 = self.run(box, g, i2, b.names(), mod, msgs, order)
            if r1.ok != r2.ok:
                raise Violation("generate-%s: exit status %d and %d for two layouts of the same modules\n%s" % (g, r1.rc, r2.rc, (r1.out if r1.rc else r2.out)[-800:]), **common.arts(t1, other=dict(t2)))
            if r1.ok and f1 != f2:
                n = sorted(k for k in set(f1) | set(f2) if f1.get(k) != f2.get(k))
                raise Violation("generate-%s: two layouts of the same modules give different %s\n%s" % (g, n[:5], self.first(f1.get(n[0]), f2.get(n[0]))), **common.arts(t1, other=dict(t2)))
            stats["layout_pairs"] += 1
            stats["layout_files"] += len(f1)
            stats["accepted"] += r1.ok
        return "layout/" + common.feature_key(b), t2[0][1][:800] if idx < 8 else None

    def first(self, a, b):
        if a is None or b is None:
            return "written in only one of the runs"
        for i, (p, q) in enumerate(zip(a.splitlines(), b.splitlines())):
            if p != q:
                return "line %d: %r / %r" % (i + 1, p[:200], q[:200])
        return "different lengths"

    def order(self, idx, rng, box, stats, b, arrays):
        c = reorder(b, rng)
        t1 = [("f%d" % i, render.render(mod)) for i, mod in enumerate(b.modules)]
        t2 = [("f%d" % i, render.render(mod)) for i, mod in enumerate(c.modules)]
        i1, i2 = box.write_inputs(t1), box.write_inputs(t2)
        gens, mod, msgs = self.gens(b, rng)
        if arrays:  # COSMOS does not know arrays of sequences
            gens = [g for g in gens if g != "cosmos"]
            stats["arrays_of_sequences"] += sum(isinstance(x.type, m.TArr) and isinstance(b.defs().get(x.type.elem.name), m.Seq) for d in b.seqs() for x in d.members if isinstance(x.type, m.TArr) and isinstance(x.type.elem, m.TRef))
        order = rng.choice(["little-endian", "big-endian"])
        for g in rng.sample(gens, min(2, len(gens))):
            r1, o1, f1 = self.run(box, g, i1, b.names(), mod, msgs, order)
            r2, o2, f2 = self.run(box, g, i2, b.names(), mod, msgs, order)
            kw = common.arts(t1, other=dict(t2))
            what = "generate-%s, definitions and imports in another order" % g
            if r1.ok != r2.ok:
                raise Violation("%s: exit status %d and %d\n%s" % (what, r1.rc, r2.rc, (r1.out if r1.rc else r2.out)[-800:]), **kw)
            stats["order_pairs"] += 1
            if not r1.ok:
                continue
            if set(f1) != set(f2):
                raise Violation("%s: files %s" % (what, sorted(set(f1) ^ set(f2))), **kw)
            differ = []
            for n in sorted(f1):
                if n.endswith((".bin", ".txt")):
                    if f1[n] != f2[n]:
                        raise Violation("%s: %s differs\n%s" % (what, n, self.first(f1[n], f2[n])), **kw)
                    stats["binary_files" if n.endswith(".bin") else "cosmos_files"] += 1
                    if n.endswith(".txt"):
                        stats["packets_compared"] += len(msgs)
                elif n.endswith("_msgids.h"):
                    m1, m2 = (cprobe.macros(os.path.join(o, n))[0] for o in (o1, o2))
                    if m1 != m2:
                        raise Violation("%s: the macros of %s differ: %s" % (what, n, sorted(set((m1 or {}).items()) ^ set((m2 or {}).items()))[:6]), **kw)
                    stats["macros_compared"] += len(m1)
                else:
                    b1, b2 = blocks(f1[n].decode("utf8", "replace")), blocks(f2[n].decode("utf8", "replace"))
                    if b1 != b2:
                        differ.append((n, sorted(set(b1.items()) ^ set(b2.items()))[:4]))
                    stats["definitions_compared"] += len(b1)
                    if n.endswith(".c"):
                        stats["variables_compared"] += len(b1)
            heads = [n for n in sorted(f1) if n.endswith((".h", ".c"))]
            if heads:
                e1, e2 = (cprobe.syntax_many([os.path.join(o, n) for n in heads], o) for o in (o1, o2))
                if bool(e1) != bool(e2):
                    raise Violation("%s: the generated files compile for only one of the orders\n%s" % (what, e1 or e2), **kw)
                stats["headers_compiled"] += len(heads)
            if differ:
                self.measured(box, b, f1, o1, o2, differ, what, kw)
        return "order/" + common.feature_key(b), t2[0][1][:800] if idx < 8 else None

    def measured(self, box, b, f1, o1, o2, differ, what, kw):
        """the text differs: does the meaning?"""
        hs = sorted(n for n in f1 if n.endswith(".h") and not n.endswith("_msgids.h"))
        res = []
        for o in (o1, o2):
            ok, text = cprobe.build_and_run(cprobe.layout_source(b, hs), o)
            res.append(text if ok else None)
        if res[0] != res[1] or any(n.endswith(".c") for n, _ in differ):
            raise Violation("%s: %s" % (what, differ[:3]), **kw)


CHECK = C16
