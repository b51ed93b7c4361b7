"""C04: names are unique and the module list matches, or every generator refuses."""
import os

from .. import common, gen, model as m, mutate
from ..harness import Check


class C04(Check):
    id = "C04"
    rule = (
        "one duplicate name planted at a random place of a random valid bundle (definitions of any kinds in the same or two modules, modules in two files, one file given twice, members, "
        "choice items, enumeration items, components at any depth), or a module list which repeats, lacks or adds modules; the unchanged bundle accepted first with "
        "the module list in a random order; distinct by kind of error, generator and structure"
    )
    assumptions = ["the binary generator is included when it supports all value lists of the unchanged bundle"]
    quick = 900
    thorough = 9000
    OPS = ["dup_def_same", "dup_def_other", "dup_def_other", "dup_module", "dup_file", "dup_member", "dup_member", "dup_choice", "dup_enum", "dup_comp", "dup_comp", "list", "list", "list"]
    required = {"op_dup_def_same": 25, "op_dup_def_other": 50, "op_dup_module": 20, "op_dup_file": 20, "op_dup_member": 40, "op_dup_choice": 5, "op_dup_enum": 20, "op_dup_comp": 40, "op_list": 60, "list_empty_name": 2,
                "list_permutations_accepted": 50, "rejecting_runs_binary": 40, "refusals_without_output": 500, "planted_more_than_twice": 60}

    def case(self, idx, rng, box, stats):
        op = rng.choice(self.OPS)
        p = mutate.base_profile(rng, gen)
        if op in ("dup_def_other", "dup_module", "dup_file", "list"):
            p.modules = rng.choice([(2, 3), (2, 6)])
        if op == "dup_comp":
            p.wc, p.ccsds = 1.0, 0.6
        if op == "dup_choice":
            p.choice = 0.4
        if op == "dup_enum":
            p.enum_bias = 0.3
        b = gen.bundle(rng, p)
        gens, cmod, cmsg = mutate.gens_for(b, rng, 2)
        if op == "list":
            gens = [g for g in gens if g != "cosmos"] or ["cfs"]
        good = common.render_all(b, rng)
        for g in gens:
            names = b.names()
            rng.shuffle(names)
            mutate.accept_base(box, b, rng, stats, good, g, cmod, cmsg, names=names)
            if names != b.names() and g != "cosmos":
                stats["list_permutations_accepted"] += 1
        if op == "dup_file":
            why = "one of the input files is given more than once"
            for g in gens:
                common.expect_reject(box, rng, g, good, b.names(), stats, why, module=cmod, messages=[cmsg], inputs=self.twice(rng, box, good, stats))
            stats["op_" + op] += 1
            return "%s/%s" % (op, common.feature_key(b)), why if idx < 8 else None
        b2 = common.clone(b)
        res = getattr(self, "op_" + op)(rng, b2, stats)
        if res is None:
            return None, None
        why, names = res
        bad = common.render_all(b2, rng)
        rng.shuffle(bad)
        for g in gens:
            common.expect_reject(box, rng, g, bad, names or list(dict.fromkeys(b2.names())), stats, why, module=cmod, messages=[cmsg])
        stats["op_" + op] += 1
        return "%s/%s" % (op, common.feature_key(b)), why if idx < 8 else None

    def twice(self, rng, box, texts, stats):
        """The paths of the inputs where one file occurs again: spelled alike, spelled otherwise, by a link."""
        paths = box.write_inputs(texts)
        p = rng.choice(paths)
        for _ in range(self.copies(rng, stats)):
            d, n = os.path.split(p)
            k = rng.randrange(4)
            q = p
            if k == 1:
                q = os.path.join(d, ".", n)
            elif k == 2:
                q = os.path.join(d, "..", os.path.basename(d), n)
            elif k == 3:
                q = os.path.join(d, "link%d.asn" % rng.randrange(10**6))
                os.symlink(p, q)
            stats["file_again_%d" % k] += 1
            paths.insert(rng.randrange(len(paths) + 1), q)
        return paths

    def new_def(self, rng, name, like=None):
        k = rng.randrange(5)
        if like is not None and k == 0:
            d = common.clone(like)
            d.name = name
            return d
        if k <= 1:
            return m.Simple(name, m.TInt(0, rng.choice([1, 255, 1000])))
        if k == 2:
            return m.Enum(name, [m.EnumItem("zz-%d" % i) for i in range(rng.randrange(1, 4))])
        if k == 3:
            return m.Choice(name, [m.Member("aa", m.TBool()), m.Member("bb", m.TInt(0, 255))])
        return m.Seq(name, [m.Member("aa", m.TBool()), m.Member("bb", m.TInt(0, 255))])

    def posix_def(self, name):
        if name == "Float":
            return m.Simple(name, m.TReal(-3.4e38, 3.4e38, ("-3.4E38", "3.4E38")))
        if name == "Double":
            return m.Simple(name, m.TReal(-m.DOUBLE_LIMIT, m.DOUBLE_LIMIT, ("-1.7976931348623157E308", "1.7976931348623157E308")))
        return m.Simple(name, m.TInt(*m.POSIX[name]))

    def dup_of(self, rng, d):
        if d.name in m.POSIX or d.name in ("Float", "Double"):
            return self.posix_def(d.name)
        return self.new_def(rng, d.name, d)

    def copies(self, rng, stats):
        """How many further copies of a name are planted: an even number of occurrences and an odd one."""
        n = rng.choice([1, 1, 1, 2, 2, 3, 4])
        if n > 1:
            stats["planted_more_than_twice"] += 1
        return n

    def op_dup_def_same(self, rng, b, stats):
        mod = rng.choice(b.modules)
        d = rng.choice(mod.defs)
        for _ in range(self.copies(rng, stats)):
            mod.defs.insert(rng.randrange(len(mod.defs) + 1), self.dup_of(rng, d))
        return "type %s is defined twice in %s" % (d.name, mod.name), None

    def op_dup_def_other(self, rng, b, stats):
        if len(b.modules) < 2:
            return None
        m1, m2 = rng.sample(b.modules, 2)
        pos = [d for d in m1.defs if d.name in m.POSIX]
        d = rng.choice(pos) if pos and rng.random() < 0.25 else rng.choice(m1.defs)
        new = self.dup_of(rng, d)
        if isinstance(new, (m.Seq, m.Choice)) and new.name == d.name and not all(isinstance(x.type, (m.TBool, m.TInt)) for x in new.members):
            new = m.Seq(d.name, [m.Member("aa", m.TBool())])  # keep its types visible in the other module
        m2.defs.insert(rng.randrange(len(m2.defs) + 1), new)
        if len(b.modules) > 2 and rng.random() < 0.4:
            for m3 in b.modules:
                if m3 is not m1 and m3 is not m2 and rng.random() < 0.7:
                    n3 = self.posix_def(d.name) if d.name in m.POSIX or d.name in ("Float", "Double") else m.Simple(d.name, m.TBool())
                    m3.defs.insert(rng.randrange(len(m3.defs) + 1), n3)
                    stats["planted_more_than_twice"] += 1
        return "type %s is defined in %s and %s" % (d.name, m1.name, m2.name), None

    def op_dup_module(self, rng, b, stats):
        names = b.names()
        taken = {d.name for x in b.modules for d in x.defs}
        if len(b.modules) > 1 and rng.random() < 0.3:
            # two existing modules get the same name, where nothing imports the renamed one
            free = [x for x in b.modules if not any(i.module == x.name for y in b.modules for i in y.imports)]
            if free:
                x = rng.choice(free)
                y = rng.choice([z for z in b.modules if z is not x])
                if y.name not in {i.module for i in x.imports}:
                    x.name = y.name
                    return "module %s is in two files" % y.name, None
        x = rng.choice(b.modules)
        n = self.copies(rng, stats)
        for _ in range(n):
            if n == 1 and rng.random() < 0.3:
                new = common.clone(x)
            else:  # nothing but the name of the module occurs again
                name = mutate.random_cap(rng, taken)
                taken.add(name)
                new = m.Module(x.name, [m.Simple(name, m.TBool())])
            b.modules.insert(rng.randrange(len(b.modules) + 1), new)
        return "module %s is in %d files" % (x.name, n + 1), (names + [x.name] if rng.random() < 0.3 else names)

    def op_dup_member(self, rng, b, stats, cls=m.Seq):
        c = [d for x in b.modules for d in x.defs if isinstance(d, cls)]
        if not c:
            return None
        d = rng.choice(c)
        a = rng.choice(d.members)
        if len(d.members) > 1 and rng.random() < 0.5:
            o = rng.choice([x for x in d.members if x is not a])
            o.key = a.key
        else:
            for _ in range(self.copies(rng, stats)):
                new = common.clone(a)
                if rng.random() < 0.5:
                    new.type, new.wc = m.TInt(0, 7), None
                d.members.insert(rng.randrange(len(d.members) + 1), new)
        return "member %s occurs twice in %s" % (a.key, d.name), None

    def op_dup_choice(self, rng, b, stats):
        return self.op_dup_member(rng, b, stats, m.Choice)

    def op_dup_enum(self, rng, b, stats):
        c = [d for x in b.modules for d in x.defs if isinstance(d, m.Enum)]
        if not c:
            return None
        d = rng.choice(c)
        a = rng.choice(d.items)
        if len(d.items) > 1 and rng.random() < 0.5:
            rng.choice([x for x in d.items if x is not a]).key = a.key
        else:
            for _ in range(self.copies(rng, stats)):
                pos = None if a.pos is None else len(d.items)
                d.items.insert(rng.randrange(len(d.items) + 1), m.EnumItem(a.key, pos))
        return "item %s occurs twice in %s" % (a.key, d.name), None

    def op_dup_comp(self, rng, b, stats):
        nodes = mutate.wc_nodes(b)
        if not nodes:
            return None
        deep = [n for n in nodes if n[4] >= 1]
        owner, mem, wc, seq, depth = rng.choice(deep if deep and rng.random() < 0.5 else nodes)
        a = rng.choice(wc.items)
        for _ in range(self.copies(rng, stats)):
            new = common.clone(a)
            if rng.random() < 0.5 and isinstance(a.value, m.Value):
                new.value = mutate.simple_value(rng)
            wc.items.insert(rng.randrange(len(wc.items) + 1), new)
        stats["component_depth_%d" % min(depth, 3)] += 1
        return "component %s (depth %d) of %s.%s occurs twice" % (a.key, depth, owner.name, mem.key), None

    def op_list(self, rng, b, stats):
        names = b.names()
        rng.shuffle(names)
        k = rng.randrange(5)
        if k == 0:
            n = rng.choice(names)
            given = list(names)
            for _ in range(self.copies(rng, stats)):
                names.insert(rng.randrange(len(names) + 1), n)
                if rng.random() < 0.5:
                    n = rng.choice(given)  # several names are repeated
            return "module list repeats %s: %s" % (n, names), names
        if k == 1 and len(names) > 1:
            n = names.pop(rng.randrange(len(names)))
            return "module list lacks %s: %s" % (n, names), names
        if k == 2:
            n = rng.choice([mutate.random_low(rng, set(names)), mutate.near_miss(rng, rng.choice(names)), ""])
            if n in names:
                return None
            names.insert(rng.randrange(len(names) + 1), n)
            stats["list_empty_name"] += n == ""
            return "module list has %r which is not given: %s" % (n, names), names
        if k == 3:
            i = rng.randrange(len(names))
            n = rng.choice([mutate.random_low(rng, set(names)), mutate.near_miss(rng, names[i]), names[i].upper(), "Module-" + names[i], "", names[i] + " ", " " + names[i]])
            if n in names:
                return None
            names[i] = n
            return "module list has %s instead: %s" % (n, names), names
        if len(names) > 1:  # one missing, another twice: the length fits
            i, j = rng.sample(range(len(names)), 2)
            names[i] = names[j]
            return "module list repeats one and lacks one: %s" % names, names
        return None


CHECK = C04
