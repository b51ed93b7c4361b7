"""C20: headers include the headers of the imported modules, and tell where simple types went."""
import re
from collections import Counter

from .. import common, cprobe, gen, model as m, ref
from ..harness import Check, Violation

USED = re.compile(r"NOTE: The simple type '([^']*)' has been generated to a C (\w+) type and is used directly in (.*)", re.S)
EMBED = re.compile(r"NOTE: (\S+) is embedded directly where it is used", re.S)


def comments(text):
    out = []
    for k, t in cprobe.lex(text):
        if k == "line":
            out.append(" ".join(t[2:].split()))
        elif k == "block":
            out.append(" ".join(t[2:-2].split()))
    return out


class C20(Check):
    id = "C20"
    rule = (
        "random valid bundles rich in simple definitions and imports (used in no, one or many modules, as member, choice item or array element, directly after an import or defined at home) "
        "through the cFS, C and binary generators; include lines and notes of every header compared with the bundle; distinct by structure digest; non-trivial if a note or an include was compared"
    )
    assumptions = ["the notes call strings nothing in particular: whether a string is a built-in type is not compared"]
    quick = 1500
    thorough = 9000
    required = {"used_notes": 1500, "unused_simple": 300, "embedded_notes": 800, "includes": 800, "headers_without_includes": 200, "notes_with_several_modules": 150, "bitfields": 300, "builtins": 300, "used_in_array": 40, "used_in_choice": 20}

    def case(self, idx, rng, box, stats):
        p = gen.Profile(modules=rng.choice([(1, 2), (2, 5), (4, 9)]), defs=rng.choice([(2, 8), (6, 14)]), wc=rng.choice([0.0, 0.4]), wc_bin=rng.random() < 0.4, comments=rng.choice([0.0, 0.3]),
                        arrays=rng.choice(["", "c", "both"]), choice=rng.choice([0.0, 0.0, 0.15]), extra_imports=rng.choice([0.2, 0.6]))
        b = gen.bundle(rng, p)
        self.spread(rng, b, stats)
        defs = b.defs()
        uses = {}
        for mod in b.modules:
            for d in mod.defs:
                if isinstance(d, (m.Seq, m.Choice)):
                    for n in ref.direct_refs(d):
                        uses.setdefault(n, set()).add(mod.name)
                    for x in d.members:
                        if isinstance(x.type, m.TArr) and any(isinstance(defs[n], m.Simple) for n in ref.type_refs(x.type)):
                            stats["used_in_array"] += 1
                        if isinstance(d, m.Choice) and any(isinstance(defs[n], m.Simple) for n in ref.type_refs(x.type)):
                            stats["used_in_choice"] += 1
        rng.shuffle(b.modules)
        texts = common.render_all(b, rng)
        names = b.names()
        rng.shuffle(names)
        g = rng.choice(["cfs", "cfs", "cfs", "c", "binary"])
        if g == "binary" and not common.binary_supported(b):
            g = "c"
        files = common.accept(box, g, texts, names, stats)
        ext = "_msg.h" if g == "cfs" else ".h"
        n = 0
        for mod in b.modules:
            fn = m.cname(mod.name) + ext
            if fn not in files:
                raise Violation("generate-%s wrote no %s" % (g, fn), **common.arts(texts))
            text = files[fn].decode("utf8")
            bad = self.includes(mod, text, ext, stats)
            if not bad:
                bad = self.used(mod, text, uses, defs, stats) if g == "cfs" else self.embedded(mod, text, g, stats)
            if bad:
                raise Violation("%s of generate-%s: %s" % (fn, g, bad), **common.arts(texts, file=text))
            n += 1
        return "%s/%s" % (g, common.feature_key(b)) if n else None, None

    def spread(self, rng, b, stats):
        """uses simple types in more modules which import them already"""
        for mod in b.modules:
            seqs = [d for d in mod.defs if isinstance(d, m.Seq)]
            referred = {x.type.name for s in b.seqs() for x in s.members if isinstance(x.type, m.TRef)}
            seqs = [s for s in seqs if s.name not in referred]
            if not seqs:
                continue
            defs = b.defs()
            for i in mod.imports:
                for n in i.names:
                    if isinstance(defs.get(n), m.Simple) and not isinstance(defs[n].type, (m.TArr, m.TRef)) and rng.random() < 0.6:
                        s = rng.choice(seqs)
                        key = "sp-%d" % len(s.members)
                        if key not in {x.key for x in s.members}:
                            s.members.append(m.Member(key, m.TRef(n)))

    def includes(self, mod, text, ext, stats):
        got = {mt.group(1) for mt in (re.match(r'# *include *"([^"]*)"', t) for k, t in cprobe.lex(text) if k == "pp") if mt}
        want = {m.cname(i.module) + ext for i in mod.imports}
        stats["includes"] += len(want)
        if not want:
            stats["headers_without_includes"] += 1
        if got != want:
            return "includes %s, expected %s" % (sorted(got), sorted(want))

    def used(self, mod, text, uses, defs, stats):
        got = {}
        for c in comments(text):
            mt = USED.search(c)
            if mt:
                if mt.group(1) in got:
                    return "two notes about %s" % mt.group(1)
                got[mt.group(1)] = (mt.group(2), Counter(re.findall(r"'([^']*)'", mt.group(3))))
        want = {d.name: d for d in mod.defs if isinstance(d, m.Simple) and d.name in uses}
        stats["unused_simple"] += sum(1 for d in mod.defs if isinstance(d, m.Simple) and d.name not in uses)
        if set(got) != set(want):
            return "notes about %s, expected about %s" % (sorted(got), sorted(want))
        for n, d in want.items():
            how, where = got[n]
            if where != Counter(uses[n]):
                return "%s is said to be used in %s, but is used in %s" % (n, sorted(where.elements()), sorted(uses[n]))
            stats["used_notes"] += 1
            if len(uses[n]) > 1:
                stats["notes_with_several_modules"] += 1
            k = ref.resolve(d.type, defs)
            if k.kind in ("uint", "int", "float", "double", "bool"):
                e = "bitfield" if ref.is_bitfield(k) else "builtin"
                stats[e + "s"] += 1
                if how != e:
                    return "%s is said to be a %s type, but is a %s type" % (n, how, e)

    def embedded(self, mod, text, g, stats):
        got = Counter(mt.group(1) for mt in (EMBED.search(c) for c in comments(text)) if mt)
        want = Counter(d.name for d in mod.defs if isinstance(d, m.Simple))
        if g == "binary":
            for n in ("Float", "Double"):
                got.pop(n, None)
                want.pop(n, None)
        stats["embedded_notes"] += sum(want.values())
        if got != want:
            return "notes about %s, expected about %s" % (sorted(got.elements()), sorted(want.elements()))


CHECK = C20
