"""C03: every reference resolves, or every generator refuses without output."""
from .. import common, gen, model as m, mutate, ref
from ..harness import Check, Violation


def undefined_name(rng, b, mod):
    """(name, kind): a type name which is not usable in the module"""
    vis = mutate.visible(b, mod)
    others = sorted(d.name for x in b.modules if x is not mod for d in x.defs if d.name not in vis)
    defs = {d.name for x in b.modules for d in x.defs}
    for _ in range(20):
        k = rng.randrange(4)
        if k == 0:
            return mutate.random_cap(rng, defs | vis | {"Float", "Double"}), "unknown"
        if k == 1 and vis:
            n = mutate.near_miss(rng, rng.choice(sorted(vis)))
            if n not in vis:
                return n, "near_miss"
        if k == 2:
            p = [n for n in list(m.POSIX) + ["Float", "Double"] if n not in vis]
            if p:
                return rng.choice(p), "posix"
        if k == 3 and others:
            return rng.choice(others), "not_imported"
    return mutate.random_cap(rng, defs | vis), "unknown"


class C03(Check):
    id = "C03"
    rule = (
        "one dangling reference planted at a random place of a random valid bundle (member, choice item, array element at any nesting, simple definition; "
        "import clauses; value lists at any depth; requested messages and modules), the unchanged bundle accepted first by the same generators; "
        "distinct by kind of error, generator and structure; every case is non-trivial: an accepting and a refusing run"
    )
    assumptions = [
        "value lists on members of built-in types are a known finding (K7) and not generated",
        "the binary generator is included when it supports all value lists of the unchanged bundle",
    ]
    quick = 800
    thorough = 9000
    OPS = ["type", "type", "type", "simple", "unimport", "unimport", "import_undefined", "import_undefined", "missing_module", "drop_file", "component", "component", "component", "message", "module"]
    required = {"op_type": 60, "op_simple": 15, "op_unimport": 30, "op_import_undefined": 30, "op_missing_module": 15, "op_drop_file": 15, "op_component": 60, "op_message": 15, "op_module": 15,
                "refusals_without_output": 500, "many_imports": 10, "rejecting_runs_binary": 40, "component_depth_2": 3, "type_in_choice": 5, "type_in_array": 10}

    def case(self, idx, rng, box, stats):
        op = rng.choice(self.OPS)
        p = mutate.base_profile(rng, gen)
        if op in ("unimport", "drop_file", "missing_module", "import_undefined"):
            p.modules = (2, 5)
            if rng.random() < 0.35:  # modules which import from many others
                p.modules, p.defs, p.members, p.extra_imports = (6, 10), (1, 3), (1, 4), 3.0
        if op == "component":
            p.wc, p.ccsds = 1.0, 0.6
        if op == "type" and rng.random() < 0.3:
            p.choice = 0.3
        b = gen.bundle(rng, p)
        gens, cmod, cmsg = mutate.gens_for(b, rng, 1 if op in ("message", "module") else 2)
        if op in ("message", "module"):
            if not cmsg:
                return None, None
            gens = ["cosmos"]
        good = common.render_all(b, rng)
        # the unchanged bundle is accepted
        for g in gens:
            mutate.accept_base(box, b, rng, stats, good, g, cmod, cmsg)
        b2 = common.clone(b)
        names = None
        res = getattr(self, "op_" + op)(rng, b2, stats, cmod, cmsg)
        if res is None:
            return None, None
        why, cmod2, msgs, names, gens2 = res
        bad = common.render_all(b2, rng)
        rng.shuffle(bad)
        for g in gens2 or gens:
            common.expect_reject(box, rng, g, bad, names or b2.names(), stats, why, module=cmod2 or cmod, messages=msgs or [cmsg])
        stats["op_" + op] += 1
        return "%s/%s/%s" % (op, why.split()[0], common.feature_key(b)), why if idx < 8 else None

    def op_type(self, rng, b, stats, cmod, cmsg):
        sl = mutate.slots(b, ("seq", "choice"))
        ch = [s for s in sl if s[1] == "choice"]
        arr = [s for s in sl if isinstance(s[3].type, m.TArr)]
        x = rng.random()
        s = rng.choice(ch if ch and x < 0.2 else arr if arr and x < 0.45 else sl)
        mod, kind, d, mem, where = s
        name, nk = undefined_name(rng, b, mod)
        if isinstance(mem.type, m.TArr):
            # element type, or element of a nested array
            mem.type = m.TArr(mem.type.n, m.TArr(2, m.TRef(name)) if rng.random() < 0.2 else m.TRef(name))
            stats["type_in_array"] += 1
        elif rng.random() < 0.15:
            mem.type = m.TArr(rng.randrange(1, 9), m.TRef(name))
            stats["type_in_array"] += 1
        else:
            mem.type = m.TRef(name)
        if kind == "choice":
            stats["type_in_choice"] += 1
        if rng.random() < 0.5:
            mem.wc = None
        stats["undefined_" + nk] += 1
        return "%s type %s of %s in module %s" % (nk, name, where, mod.name), None, None, None, None

    def op_simple(self, rng, b, stats, cmod, cmsg):
        mod = rng.choice(b.modules)
        name, nk = undefined_name(rng, b, mod)
        defs = [d for d in mod.defs if isinstance(d, m.Simple) and d.name not in m.POSIX and d.name not in ("Float", "Double")]
        t = m.TRef(name) if rng.random() < 0.75 else m.TArr(3, m.TRef(name))
        if defs and rng.random() < 0.5:
            d = rng.choice(defs)
            d.type = t
        else:
            taken = {x.name for y in b.modules for x in y.defs} | {name}
            d = m.Simple(mutate.random_cap(rng, taken), t)
            mod.defs.insert(rng.randrange(len(mod.defs) + 1), d)
        stats["undefined_" + nk] += 1
        return "%s type %s of simple definition %s" % (nk, name, d.name), None, None, None, None

    def op_unimport(self, rng, b, stats, cmod, cmsg):
        c = []
        for mod in b.modules:
            used = {n for d in mod.defs for n in ref.direct_refs(d)}
            for imp in mod.imports:
                for n in imp.names:
                    if n in used:
                        c.append((mod, imp, n))
        if not c:
            return None
        mod, imp, n = rng.choice(c)
        imp.names.remove(n)
        if not imp.names:
            mod.imports.remove(imp)
            if not mod.imports:
                mod.comment_import = None
        return "unimported type %s is used in %s" % (n, mod.name), None, None, None, None

    def op_import_undefined(self, rng, b, stats, cmod, cmsg):
        r = mutate.reach(b)
        c = [(mod, t) for mod in b.modules for t in b.modules if t is not mod and mod.name not in r[t.name]]
        if not c:
            return None
        mod, target = rng.choice(c)
        many = [x for x in c if len(x[0].imports) > 3]
        if many and rng.random() < 0.7:
            mod, target = rng.choice(many)
            stats["many_imports"] += 1
        have = {d.name for d in target.defs}
        used = mutate.visible(b, mod)
        others = sorted(d.name for x in b.modules if x is not target and x is not mod for d in x.defs if d.name not in used)
        # a type which the target itself only imports
        through = sorted(n for i in target.imports for n in i.names if n not in used)
        x = rng.random()
        if x < 0.3 and others:
            name, nk = rng.choice(others), "third"
        elif x < 0.5 and through:
            name, nk = rng.choice(through), "through"
        elif x < 0.75:
            name, nk = mutate.near_miss(rng, rng.choice(sorted(have))), "near_miss"
        else:
            name, nk = mutate.random_cap(rng, have | used), "unknown"
        if name in have or name in used:
            return None
        cl = [i for i in mod.imports if i.module == target.name]
        if cl and rng.random() < 0.8:
            i = rng.choice(cl)
            i.names.insert(rng.randrange(len(i.names) + 1), name)
        else:
            mod.imports.insert(rng.choice([rng.randrange(len(mod.imports) + 1), len(mod.imports)]), m.Import([name], target.name))
        stats["import_" + nk] += 1
        return "%s import of %s from %s into %s" % (nk, name, target.name, mod.name), None, None, None, None

    def op_missing_module(self, rng, b, stats, cmod, cmsg):
        mod = rng.choice(b.modules)
        have = set(b.names())
        new = mutate.random_low(rng, have) if rng.random() < 0.5 else mutate.near_miss(rng, rng.choice(sorted(have)))
        if new in have or not new[0].islower():
            return None
        if mod.imports and rng.random() < 0.6:
            imp = rng.choice(mod.imports)
            imp.module = new
        else:
            names = [mutate.random_cap(rng, {d.name for x in b.modules for d in x.defs} | {n for i in mod.imports for n in i.names})]
            mod.imports.insert(rng.randrange(len(mod.imports) + 1), m.Import(names, new))
        return "import from %s which is not given" % new, None, None, None, None

    def op_drop_file(self, rng, b, stats, cmod, cmsg):
        used = sorted({i.module for mod in b.modules for i in mod.imports})
        if not used:
            return None
        gone = rng.choice(used)
        b.modules = [x for x in b.modules if x.name != gone]
        c2, m2 = common.pick_message(b, rng) if False else (None, None)
        cands = [(x.name, d.name) for x in b.modules for d in x.defs if isinstance(d, m.Seq)]
        if not cands:
            return None
        c2, m2 = rng.choice(cands)
        names = b.names()
        gens = None
        if rng.random() < 0.3:
            names = names + [gone]
        return "dropped file of the imported module %s" % gone, c2, [m2], names, gens

    def op_component(self, rng, b, stats, cmod, cmsg):
        nodes = mutate.wc_nodes(b)
        if not nodes:
            return None
        deep = [n for n in nodes if n[4] >= 1]
        deeper = [n for n in nodes if n[4] >= 2]
        x = rng.random()
        owner, mem, wc, seq, depth = rng.choice(deeper if deeper and x < 0.3 else deep if deep and x < 0.6 else nodes)
        allowed = {x.key for x in seq.members}
        others = sorted({x.key for s in b.seqs() for x in s.members} - allowed)
        x = rng.random()
        if x < 0.4 and others:
            key = rng.choice(others)
        elif x < 0.7:
            key = mutate.near_miss(rng, rng.choice(sorted(allowed)))
        else:
            key = mutate.random_low(rng, allowed)
        if key in allowed or not key[0].islower() or key in wc.keys():
            return None
        if rng.random() < 0.5:
            c = rng.choice(wc.items)
            c.key = key
        else:
            wc.items.insert(rng.randrange(len(wc.items) + 1), m.Comp(key, mutate.simple_value(rng)))
        stats["component_depth_%d" % min(depth, 2)] += 1
        return "component %s (depth %d) of %s.%s, not in %s" % (key, depth, owner.name, mem.key, seq.name), None, None, None, None

    def op_message(self, rng, b, stats, cmod, cmsg):
        mod = b.module(cmod)
        have = {d.name for d in mod.defs}
        others = sorted(d.name for x in b.modules if x is not mod for d in x.defs if isinstance(d, m.Seq))
        x = rng.random()
        if x < 0.5 and others:
            name = rng.choice(others)
        elif x < 0.8:
            name = mutate.near_miss(rng, cmsg)
        else:
            name = mutate.random_cap(rng, have)
        if name in have:
            return None
        msgs = [name]
        if rng.random() < 0.7:
            msgs.append(cmsg)
            rng.shuffle(msgs)
        return "message %s is not in module %s (requested %s)" % (name, cmod, msgs), cmod, msgs, None, None

    def op_module(self, rng, b, stats, cmod, cmsg):
        have = set(b.names())
        if len(b.modules) > 1 and rng.random() < 0.4:
            # the file of the module is not given, nobody imports it
            r = mutate.reach(b)
            if not any(cmod in v for v in r.values()):
                b.modules = [x for x in b.modules if x.name != cmod]
                return "module %s is not given" % cmod, cmod, [cmsg], None, None
        new = rng.choice([mutate.random_low(rng, have), mutate.near_miss(rng, cmod), "Module-" + cmod, cmod.upper()])
        if new in have:
            return None
        return "requested module %s is not given" % new, new, [cmsg], None, None


CHECK = C03
