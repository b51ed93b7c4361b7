"""C06: circular imports and recursive types are refused, and generation terminates."""
from .. import common, gen, model as m, mutate, ref
from ..harness import Check


def lonely(name, extra=()):
    return m.Seq(name, [m.Member("aa", m.TInt(0, 255))] + list(extra))


def val(key, v):
    return m.Comp(key, m.Value(v, str(v)))


class C06(Check):
    id = "C06"
    rule = (
        "cycles of length 1-33 planted into the imports or into the types (members, choice items, arrays, nested arrays, across modules) of random valid bundles, "
        "in random file orders, and acyclic chains, diamonds, fans and deep nestings which must be accepted; all four generators under a limit of 60 s CPU time "
        "(a usual run needs 0.1 s); distinct by kind, length and structure"
    )
    assumptions = ["a run which needs more than 60 s of CPU time does not terminate", "nestings of types and value lists are at most 40 levels deep (the interpreter limits recursion)"]
    quick = 700
    thorough = 5000
    KINDS = ["imports", "imports", "imports", "types", "types", "types", "chain", "diamond", "fan", "nest", "random", "values", "values", "ladder", "ladder"]
    required = {"kind_imports": 80, "kind_types": 80, "kind_chain": 20, "kind_diamond": 20, "kind_fan": 20, "kind_nest": 20, "kind_values": 25, "kind_ladder": 25, "deep_values": 8, "tall_ladders": 8, "len_1": 20, "len_2": 20, "len_3": 15, "len_4": 8, "long_cycles": 30,
                "through_array": 20, "through_choice": 10, "through_simple": 5, "across_modules": 8, "recursion_within_a_module": 50, "refusals_without_output": 300}

    def case(self, idx, rng, box, stats):
        kind = rng.choice(self.KINDS)
        stats["kind_" + kind] += 1
        if kind in ("imports", "types"):
            return self.bad(kind, idx, rng, box, stats)
        b = getattr(self, "make_" + kind)(rng, stats) if kind in ("values", "ladder") else getattr(self, "make_" + kind)(rng)
        rng.shuffle(b.modules)
        for mod in b.modules:
            rng.shuffle(mod.defs)
        texts = common.render_all(b, rng)
        cmod, cmsg = common.pick_message(b, rng)
        gens = rng.sample(["cfs", "c", "binary", "cosmos"], 2)
        if kind == "values" and "binary" not in gens and rng.random() < 0.5:
            gens[0] = "binary"
        if kind == "ladder" and "cosmos" not in gens:
            gens[0] = "cosmos"
        if kind == "random" and not common.binary_supported(b):
            gens = [g for g in gens if g != "binary"]
        names = b.names()
        rng.shuffle(names)
        for g in gens:
            if g == "cosmos" and not cmsg:
                continue
            if g == "cosmos" and kind in ("nest", "chain", "diamond", "values", "ladder"):
                cmod, cmsg = b.top
            common.accept(box, g, texts, names, stats, module=cmod, messages=[cmsg])
        return "%s/%s" % (kind, common.feature_key(b)), None

    # --- accepted

    def bundle(self, mods, top=None):
        b = m.Bundle(mods)
        b.top = top
        return b

    def leaf(self, rng):
        return rng.choice([m.TInt(0, 255), m.TInt(0, 7), m.TBool(), m.TInt(-5, 5)])

    def make_chain(self, rng):
        n = rng.choice([2, 3, 5, 8, 12])
        mods = []
        for i in range(n):
            mem = [m.Member("aa", self.leaf(rng))]
            imp = []
            if i:
                mem.insert(rng.randrange(2), m.Member("bb", m.TRef("T%d" % (i - 1)) if rng.random() < 0.8 else m.TArr(2, m.TRef("L%d" % (i - 1)))))
                imp = [m.Import(["T%d" % (i - 1), "L%d" % (i - 1)], "m%d" % (i - 1))]
            mods.append(m.Module("m%d" % i, [m.Seq("T%d" % i, mem), m.Simple("L%d" % i, m.TInt(0, 255))], imp))
        return self.bundle(mods, ("m%d" % (n - 1), "T%d" % (n - 1)))

    def make_diamond(self, rng):
        layers = rng.choice([1, 1, 2, 3, 4, 5])
        mods = [m.Module("b0", [lonely("B0")])]
        for i in range(1, layers + 1):
            w = rng.choice([2, 2, 3]) if layers <= 3 else 2
            mid = []
            for j in range(w):
                mid.append(m.Module("s%d-%d" % (i, j), [lonely("S%d-%d" % (i, j), [m.Member("bb", m.TRef("B%d" % (i - 1)))])], [m.Import(["B%d" % (i - 1)], "b%d" % (i - 1))]))
            names = ["S%d-%d" % (i, j) for j in range(w)]
            top = m.Seq("B%d" % i, [m.Member("k%d" % j, m.TRef(names[j])) for j in range(w)])
            imps = [m.Import([names[j]], "s%d-%d" % (i, j)) for j in range(w)]
            if rng.random() < 0.4:  # a short cut
                top.members.append(m.Member("zz", m.TRef("B0")))
                imps.append(m.Import(["B0"], "b0"))
            rng.shuffle(imps)
            mods += mid + [m.Module("b%d" % i, [top], imps)]
        return self.bundle(mods, ("b%d" % layers, "B%d" % layers))

    def make_fan(self, rng):
        n = rng.choice([3, 6, 12, 20])
        mods = [m.Module("m%d" % i, [lonely("T%d" % i)]) for i in range(n)]
        if rng.random() < 0.5:  # one imports all
            top = m.Seq("Top", [m.Member("k%d" % i, m.TRef("T%d" % i)) for i in range(n)])
            mods.append(m.Module("top", [top], [m.Import(["T%d" % i], "m%d" % i) for i in range(n)]))
        else:  # all import one
            mods.append(m.Module("base", [lonely("Base")]))
            for i in range(n):
                mods[i].imports = [m.Import(["Base"], "base")]
                mods[i].defs[0].members.append(m.Member("bb", m.TRef("Base")))
        return self.bundle(mods)

    def make_nest(self, rng):
        """deep nesting within one module, and sharing"""
        n = rng.choice([3, 8, 15, 30])
        defs = [lonely("T0")]
        for i in range(1, n):
            mem = [m.Member("aa", self.leaf(rng)), m.Member("bb", m.TRef("T%d" % (i - 1)))]
            if i > 2 and rng.random() < 0.3 and i < 8:
                mem.append(m.Member("cc", m.TRef("T%d" % rng.randrange(i))))
            rng.shuffle(mem)
            defs.append(m.Seq("T%d" % i, mem))
        return self.bundle([m.Module("deep", defs)], ("deep", "T%d" % (n - 1)))

    def make_values(self, rng, stats):
        """deeply nested value lists, beside others"""
        n = rng.choice([2, 5, 9, 14, 20, 30, 40])
        if n >= 20:
            stats["deep_values"] += 1
        defs = [lonely("T0")]
        wc = m.WC([m.Comp("aa", m.Value(1, "1"))])
        for i in range(1, n):
            mem, items = [m.Member("bb", m.TRef("T%d" % (i - 1)))], [m.Comp("bb", wc)]
            for k in range(rng.choice([0, 0, 1, 2])):
                pos = rng.randrange(len(mem) + 1)
                mem.insert(pos, m.Member("k%d" % k, m.TInt(0, 255)))
                items.insert(pos, val("k%d" % k, rng.randrange(256)))
            if rng.random() < 0.3:
                rng.shuffle(items)
            defs.append(m.Seq("T%d" % i, mem))
            wc = m.WC(items)
        top = m.Seq("Top", [m.Member("xx", m.TRef("T%d" % (n - 1)), wc=wc)])
        if rng.random() < 0.3:
            top.members.append(m.Member("yy", m.TRef("T%d" % (n - 1)), wc=wc))
        defs.append(top)
        return self.bundle([m.Module("deep", defs)], ("deep", "Top"))

    def make_ladder(self, rng, stats):
        """layers of modules which all import all modules of the layer below; the types only use one or two of them"""
        layers, w = rng.choice([(4, 2), (8, 2), (14, 2), (20, 2), (26, 2), (6, 4), (10, 3), (14, 3)])
        if layers >= 10:
            stats["tall_ladders"] += 1
        mods = []
        for i in range(layers):
            for j in range(w):
                n = "T%d-%d" % (i, j)
                mem, imp = [m.Member("aa", self.leaf(rng))], []
                if i:
                    mem.append(m.Member("bb", m.TRef("T%d-%d" % (i - 1, rng.randrange(w)))))
                    mem.append(m.Member("cc", m.TRef("L%d-%d" % (i - 1, rng.randrange(w)))))
                    imp = [m.Import(["T%d-%d" % (i - 1, k), "L%d-%d" % (i - 1, k)], "m%d-%d" % (i - 1, k)) for k in range(w)]
                    rng.shuffle(imp)
                rng.shuffle(mem)
                mods.append(m.Module("m%d-%d" % (i, j), [m.Seq(n, mem), m.Simple("L%d-%d" % (i, j), self.leaf(rng))], imp))
        return self.bundle(mods, ("m%d-0" % (layers - 1), "T%d-0" % (layers - 1)))

    def make_random(self, rng):
        """a random acyclic import graph with names in random order"""
        n = rng.randrange(2, 8)
        ids = list(range(n))
        names = ["m%d" % i for i in range(n)]
        rng.shuffle(names)
        mods = []
        for i in ids:
            d = lonely("T%d" % i)
            imp = []
            for j in range(i):
                if rng.random() < 0.4:
                    d.members.append(m.Member("k%d" % j, m.TRef("T%d" % j)))
                    imp.append(m.Import(["T%d" % j], names[j]))
            rng.shuffle(imp)
            mods.append(m.Module(names[i], [d], imp))
        return self.bundle(mods)

    # --- refused

    def bad(self, kind, idx, rng, box, stats):
        b = gen.bundle(rng, mutate.base_profile(rng, gen, modules=rng.choice([(1, 3), (2, 5), (4, 8)]), choice=0.1 if rng.random() < 0.5 else 0.0))
        gens, cmod, cmsg = mutate.gens_for(b, rng, 2)
        why, n = getattr(self, "cycle_" + kind)(rng, b, stats)
        if why is None:
            return None, None
        stats["len_%d" % min(n, 4)] += 1
        rng.shuffle(b.modules)
        for mod in b.modules:
            rng.shuffle(mod.defs)
        texts = common.render_all(b, rng)
        names = b.names()
        rng.shuffle(names)
        for g in gens:
            common.expect_reject(box, rng, g, texts, names, stats, why, module=cmod, messages=[cmsg])
        return "%s/%d/%s" % (kind, n, common.feature_key(b)), why if idx < 10 else None

    def fresh(self, b, n, rng):
        taken = {d.name for x in b.modules for d in x.defs}
        out = []
        while len(out) < n:
            x = mutate.random_cap(rng, taken | set(m.POSIX))
            taken.add(x)
            out.append(x)
        return out

    def cycle_imports(self, rng, b, stats):
        """imports in a cycle; the types themselves are not recursive"""
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, 8, 12, 20])
        if n > len(b.modules) and rng.random() < 0.5:
            while len(b.modules) < n:
                b.modules.append(m.Module("cyc%d-x" % len(b.modules), [lonely(self.fresh(b, 1, rng)[0])], []))
        n = min(n, len(b.modules))
        if n > 5:
            stats["long_cycles"] += 1
        cyc = rng.sample(b.modules, n)
        # existing imports may close the cycle as well
        names = self.fresh(b, n, rng)
        for i, mod in enumerate(cyc):
            mod.defs.append(m.Simple(names[i], m.TInt(0, 255)) if rng.random() < 0.5 else lonely(names[i]))
        used = rng.random() < 0.6
        for i, mod in enumerate(cyc):
            nxt = cyc[(i + 1) % n]
            imp = names[(i + 1) % n]
            if n == 1:
                # a module which imports from itself
                mod.imports.insert(rng.randrange(len(mod.imports) + 1), m.Import([imp], nxt.name))
                continue
            old = [x for x in mod.imports if x.module == nxt.name]
            if old:
                old[0].names.append(imp)
            else:
                mod.imports.insert(rng.randrange(len(mod.imports) + 1), m.Import([imp], nxt.name))
            if used:
                seqs = [d for d in mod.defs if isinstance(d, m.Seq) and d.name not in names and not any(x.wc for x in d.members)]
                ref_by_wc = {x.type.name for s in b.seqs() for x in s.members if x.wc}
                seqs = [d for d in seqs if d.name not in ref_by_wc]
                if seqs:
                    d = rng.choice(seqs)
                    leafdef = next(x for x in nxt.defs if x.name == imp)
                    d.members.append(m.Member(mutate.random_low(rng, {x.key for x in d.members}), m.TRef(imp)))
        return "circular imports %s" % " -> ".join(x.name for x in cyc), n

    def back_edge(self, rng, b, stats):
        """an inner sequence gets a member of an enclosing type"""
        where = {d.name: mod for mod in b.modules for d in mod.defs}
        defs = b.defs()
        pairs = []
        for outer in defs.values():
            if not isinstance(outer, (m.Seq, m.Choice)):
                continue
            todo, seen = [(n, 1) for n in ref.direct_refs(outer)], set()
            while todo:
                n, k = todo.pop()
                if n in seen:
                    continue
                seen.add(n)
                d = defs[n]
                if isinstance(d, (m.Seq, m.Choice)):
                    todo += [(x, k + 1) for x in ref.direct_refs(d)]
                    pairs.append((outer, d, k + 1))
        if not pairs:
            return None, 0
        # without circular imports the recursion itself has to be noticed
        within = [x for x in pairs if where[x[0].name] is where[x[1].name]]
        outer, inner, k = rng.choice(within if within and rng.random() < 0.75 else pairs)
        t = m.TRef(outer.name)
        if rng.random() < 0.4:
            t = m.TArr(rng.randrange(1, 5), t)
            stats["through_array"] += 1
        inner.members.insert(rng.randrange(len(inner.members) + 1), m.Member(mutate.random_low(rng, {x.key for x in inner.members}), t))
        a, z = where[inner.name], where[outer.name]
        if a is not z:
            stats["across_modules"] += 1
            a.imports.append(m.Import([outer.name], z.name))
        else:
            stats["recursion_within_a_module"] += 1
        return "recursive types: %s in %s at depth %d" % (outer.name, inner.name, k), k

    def cycle_types(self, rng, b, stats):
        if rng.random() < 0.35:
            return self.back_edge(rng, b, stats)
        n = rng.choice([1, 1, 2, 2, 3, 4, 6, 9, 17, 33])
        if n > 5:
            stats["long_cycles"] += 1
        names = self.fresh(b, n, rng)
        # the module cycle must stay acyclic: all in one module, or back references resolved through
        # several modules need circular imports, which are refused as well
        across = n > 1 and len(b.modules) > 1 and rng.random() < 0.3
        home = rng.choice(b.modules)
        homes = [rng.choice(b.modules) if across else home for _ in range(n)]
        if across and len({x.name for x in homes}) > 1:
            stats["across_modules"] += 1
        else:
            stats["recursion_within_a_module"] += 1
        how = []
        existing = [d for d in home.defs if isinstance(d, m.Seq)]
        for i in range(n):
            t = m.TRef(names[(i + 1) % n])
            x = rng.random()
            if x < 0.3:
                t = m.TArr(rng.randrange(1, 5), t)
                stats["through_array"] += 1
                how.append("array")
            elif x < 0.35:
                t = m.TArr(2, m.TArr(3, t))
                stats["through_array"] += 1
                how.append("array of array")
            else:
                how.append("member")
            mem = [m.Member("bb", t)]
            for k in range(rng.randrange(0, 4)):
                mem.insert(rng.randrange(len(mem) + 1), m.Member("k%d" % k, self.leaf(rng)))
            x = rng.random()
            if x < 0.12:
                stats["through_simple"] += 1
                how[-1] = "simple definition"
                homes[i].defs.append(m.Simple(names[i], t))
            elif x < 0.4:
                stats["through_choice"] += 1
                how[-1] += " of choice"
                homes[i].defs.append(m.Choice(names[i], mem))
            else:
                homes[i].defs.append(m.Seq(names[i], mem))
        for i in range(n):
            a, z = homes[i], homes[(i + 1) % n]
            if a is not z:
                old = [x for x in a.imports if x.module == z.name]
                nm = names[(i + 1) % n]
                if old:
                    if nm not in old[0].names:
                        old[0].names.append(nm)
                else:
                    a.imports.append(m.Import([nm], z.name))
        return "recursive types %s (%s)" % (" -> ".join(names), ", ".join(how)), n


CHECK = C06
