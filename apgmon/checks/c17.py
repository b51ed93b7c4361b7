"""C17: comments and units reach the outputs intact and change nothing else."""
import re

from .. import common, cosmos, cprobe, gen, model as m, ref, runner
from ..harness import Check, Violation
from . import c10


def all_comments(b):
    """[(kind, owner, attribute)] of all places where a comment may be, with kind
    in module import clause def simple item member wc comp"""
    out = []

    def wcs(wc):
        out.append(("wc", wc, "comment"))
        for c in wc.items:
            out.append(("comp", c, "comment"))
            if isinstance(c.value, m.WC):
                wcs(c.value)

    for mod in b.modules:
        out.append(("module", mod, "comment"))
        if mod.imports:
            out.append(("import", mod, "comment_import"))
        for i in mod.imports:
            out.append(("clause", i, "comment"))
        for d in mod.defs:
            out.append(("simple" if isinstance(d, m.Simple) else "def", d, "comment"))
            if isinstance(d, m.Enum):
                out += [("item", it, "comment") for it in d.items]
            elif isinstance(d, (m.Seq, m.Choice)):
                for mem in d.members:
                    out.append(("member", mem, "comment"))
                    if mem.wc:
                        wcs(mem.wc)
    return out


def strip(b):
    c = common.clone(b)
    for _, o, a in all_comments(c):
        setattr(o, a, None)
    return c


def body(tok):
    k, t = tok
    return t[2:-2] if k == "block" else t[2:]


def norm(t):
    return t.strip(" \t\n")


def shown(c, unit=True):
    """the text of a comment in C"""
    if c is None:
        return ""
    return norm(("[%s] " % c.unit if c.unit and unit else "") + c.text)


def header_view(text):
    """{"first": text of the first comment, "top": comments before the first typedef,
    "defs": {name: (comments before, [(code of an entry, comments)])}}"""
    toks = cprobe.lex(text)
    view = {"first": "", "top": [], "defs": {}}
    for j, t in enumerate(toks):
        if t[0] in ("block", "line"):
            view["first"] = body(t)
            del toks[j]
            break
    i, n = 0, len(toks)
    pend = []
    seen = False
    while i < n:
        k, t = toks[i]
        if k in ("block", "line"):
            pend.append(body(toks[i]))
            i += 1
            continue
        if (k, t) != ("word", "typedef"):
            if k == "pp" and not seen:
                view["top"] += pend
                pend = []
            i += 1
            continue
        seen = True
        before, pend = pend, []
        is_enum = False
        while i < n and toks[i][1] != "{":
            is_enum |= toks[i] == ("word", "enum")
            i += 1
        i += 1
        entries, code, com = [], [], []
        sep = "," if is_enum else ";"
        while i < n and toks[i][1] != "}":
            k, t = toks[i]
            if k in ("block", "line"):
                com.append(body(toks[i]))
            elif t == sep:
                if is_enum:  # comments of an item follow it
                    j = i + 1
                    while j < n and toks[j][0] in ("block", "line"):
                        com.append(body(toks[j]))
                        j += 1
                    i = j - 1
                entries.append((code, com))
                code, com = [], []
            else:
                code.append(t)
            i += 1
        if code or com:
            entries.append((code, com))
        name = ""
        while i < n and toks[i][1] != ";":
            if toks[i][0] == "word":
                name = toks[i][1]
            i += 1
        if not view["defs"]:
            view["top"] += before
        view["defs"][name] = (before, entries)
    view["tail"] = pend
    return view


class C17(Check):
    id = "C17"
    rule = (
        "random valid bundles with comments of random and hostile texts (quotes, C and ASN.1 syntax, long lines) and units at every place of the grammar; the comments of every generated header are located by a "
        "lexer and compared with the definition, item or member they belong to, COSMOS descriptions and units item by item; every bundle is also generated without any comment and compared: code tokens of all C files, "
        "binary files, COSMOS items; endianness marks and units are added at single places and may change only this item; distinct by structure and text digest; non-trivial if a comment was located"
    )
    assumptions = ["gcc without trigraphs", "comments of import clauses, simple definitions, choices and value lists have no place in the outputs", "leading and trailing blanks of a comment are not compared"]
    quick = 1200
    thorough = 6000
    required = {"member_comments": 1200, "item_comments": 400, "definition_comments": 500, "module_comments": 150, "import_comments": 60, "units_in_c": 300, "descriptions": 800, "pairs_without_comments": 300,
                "marks_toggled": 60, "items_with_mark": 20, "long_comments": 100, "hostile_comments": 500, "binary_files": 30}

    def bundle(self, rng):
        p = gen.Profile(modules=rng.choice([(1, 2), (1, 4)]), comments=rng.choice([0.3, 0.6, 1.0]), hostile=rng.choice([0.3, 0.8]), wc=rng.choice([0.3, 0.8]), ccsds=rng.choice([0.0, 0.4]), arrays=rng.choice(["both", ""]), le=rng.choice([0.0, 0.2]))
        if rng.random() < 0.25:
            p.wc_bin, p.posix_only, p.wc = True, rng.random() < 0.6, 0.9
        b = gen.bundle(rng, p)
        if rng.random() < 0.4:
            for _, o, a in all_comments(b):
                c = getattr(o, a)
                if c is not None and rng.random() < 0.1:
                    t = " ".join(gen.Gen(rng, p).text().strip() for _ in range(rng.randrange(20, 200)))
                    t = re.sub(r"-{2,}", "-", t).replace("*/", "* ")
                    if not t.startswith(("-", "[", "ENDIANNESS")):
                        c.text = t
        return b

    def case(self, idx, rng, box, stats):
        b = self.bundle(rng)
        k = idx % 4
        if k == 0:
            self.marks(rng, box, stats, b)
            what = "marks"
        else:
            self.texts(rng, box, stats, b)
            what = "texts"
        return what + "/" + runner.digest([(k, c.text, c.unit, c.le) for k, o, a in all_comments(b) for c in [getattr(o, a)] if c]), None

    def choose(self, b, rng):
        gens = ["cfs", "c"] + (["binary", "binary"] if common.binary_supported(b) else [])
        return rng.choice(gens)

    # --- texts

    def texts(self, rng, box, stats, b):
        bare = strip(b)
        t1, t2 = common.render_all(b, rng), common.render_all(bare, rng)
        i1, i2 = box.write_inputs(t1), box.write_inputs(t2)
        g = self.choose(b, rng)
        order = rng.choice(["little-endian", "big-endian"])
        f1 = common.accept(box, g, t1, b.names(), stats, inputs=i1, endianness=order)
        f2 = common.accept(box, g, t2, b.names(), stats, inputs=i2, endianness=order)
        self.same_code(f1, f2, g, t1, stats)
        for mod in b.modules:
            n = m.cname(mod.name)
            for name, data in f1.items():
                if name in (n + "_msg.h", n + ".h", n + ".c", n + "_msgids.h"):
                    self.check_header(mod, name, data.decode("utf8"), t1, stats)
        for kind, o, a in all_comments(b):
            c = getattr(o, a)
            if c is not None:
                stats["long_comments"] += len(c.text) > 400
                stats["hostile_comments"] += any(x in c.text for x in ('"', "//", "/*", "#", "::=", "(", ";", "??", "'"))
        self.cosmos_pair(rng, box, stats, b, t1, t2, i1, i2)

    def same_code(self, f1, f2, g, texts, stats):
        if set(f1) != set(f2):
            raise Violation("generate-%s writes other files without comments: %s" % (g, sorted(set(f1) ^ set(f2))), **common.arts(texts))
        for n in sorted(f1):
            if n.endswith(".bin"):
                if f1[n] != f2[n]:
                    raise Violation("%s differs without comments" % n, **common.arts(texts))
                stats["binary_files"] += 1
            elif n.endswith((".h", ".c")):
                a, b = (cprobe.code_tokens(x.decode("utf8")) for x in (f1[n], f2[n]))
                if a != b:
                    d = next((x for x in zip(a, b) if x[0] != x[1]), (len(a), len(b)))
                    raise Violation("the code of %s differs with and without comments: %s / %s" % (n, d[0], d[1]), **common.arts(texts, file=f1[n].decode("utf8")))
                stats["code_tokens"] += len(a)
        stats["pairs_without_comments"] += 1

    def check_header(self, mod, name, text, texts, stats):
        def bad(what, got, want):
            raise Violation("%s: %s: %r, expected %r" % (name, what, got, want), **common.arts(texts, file=text))

        view = header_view(text)
        want = shown(mod.comment, unit=False)
        got = [norm(x) for x in view["first"].strip("\n").split("\n")]
        if name.endswith("_msgids.h"):
            return
        rest = [x for x in got[1:] if x]
        if want and rest != [want]:
            bad("comment of the module", rest, want)
        if not want and rest:
            bad("comment of a module without comment", rest, "")
        stats["module_comments"] += bool(want)
        if name.endswith(".c"):
            return
        if mod.imports:
            want = shown(mod.comment_import, unit=False)
            if want:
                top = [norm(x) for x in view["top"]]
                if want not in top:
                    bad("comment after the imports", top, want)
                stats["import_comments"] += 1
        first_def = next(iter(view["defs"]), "")
        for d in mod.defs:
            if not isinstance(d, (m.Seq, m.Enum)):
                continue
            v = view["defs"].get(m.cname(d.name))
            if v is None:
                bad("definition", sorted(view["defs"]), d.name)
            before, entries = v
            want = shown(d.comment, unit=False)
            got = [norm(x) for x in before if norm(x)]
            if m.cname(d.name) == first_def:  # the comments of the includes may precede it directly
                ok = got[-1:] == [want] if want else all(x.startswith("NOTE: ") or x == shown(mod.comment_import, unit=False) for x in got)
            else:
                ok = got == ([want] if want else [])
            if not ok:
                bad("comment of %s" % d.name, got, want)
            stats["definition_comments"] += bool(want)
            parts = d.members if isinstance(d, m.Seq) else [next(i for i in d.items if i.key == k) for k, _ in ref.numbered(d)]
            if len(parts) != len(entries):
                bad("entries of %s" % d.name, len(entries), len(parts))
            for p, (code, com) in zip(parts, entries):
                if m.cname(p.key) not in code:
                    bad("entry of %s" % d.name, code, p.key)
                want = shown(p.comment)
                got = [norm(x) for x in com if norm(x)]
                if got != ([want] if want else []):
                    bad("comment of %s in %s" % (p.key, d.name), got, want)
                if want:
                    stats["member_comments" if isinstance(d, m.Seq) else "item_comments"] += 1
                    stats["units_in_c"] += bool(p.comment.unit)

    def cosmos_pair(self, rng, box, stats, b, t1, t2, i1, i2):
        mod, msg = common.pick_message(b, rng)
        if not msg:
            return
        f1 = common.accept(box, "cosmos", t1, b.names(), stats, module=mod, messages=[msg], inputs=i1)
        f2 = common.accept(box, "cosmos", t2, b.names(), stats, module=mod, messages=[msg], inputs=i2)
        (x1, p1), (x2, p2) = c10.read(f1, "tlm", t1), c10.read(f2, "tlm", t2)
        seq = b.defs()[msg]
        if len(p1) != 1 or len(p2) != 1:
            raise Violation("%d and %d packets with and without comments" % (len(p1), len(p2)), **common.arts(t1))
        if norm(p1[0].desc) != (norm(seq.comment.text) if seq.comment else ""):
            raise Violation("description of packet %s: %r, expected %r" % (msg, p1[0].desc, seq.comment and seq.comment.text), **common.arts(t1, output=x1))
        members = leaf_members(seq, b.defs())
        a, c = p1[0].items, p2[0].items
        if len(a) != len(c) or len(a) != len(members):
            raise Violation("%d items with, %d without comments, %d fields" % (len(a), len(c), len(members)), **common.arts(t1, output=x1))
        for g, h, mem in zip(a, c, members):
            com = mem.comment or m.Comment()
            if norm(g.desc) != norm(com.text) or g.units != ([(com.unit, com.unit)] if com.unit else []) or g.le != com.le:
                raise Violation("item %s of %s: description %r, units %s, little endian %s; expected %r, %r, %s" % (g.name, msg, g.desc, g.units, g.le, com.text, com.unit, com.le), **common.arts(t1, output=x1))
            if (g.kw, g.name, g.bits, g.type, g.value, g.states, g.limits) != (h.kw, h.name, h.bits, h.type, h.value, h.states, h.limits):
                raise Violation("item %s of %s differs with and without comments: %s / %s" % (g.name, msg, g, h), **common.arts(t1, output=x1))
            if h.desc or h.units or h.le:
                raise Violation("item %s of %s without comments: %s" % (h.name, msg, h), **common.arts(t2, output=x2))
            stats["descriptions"] += bool(com.text)
            stats["units"] += bool(com.unit)

    # --- single marks

    def marks(self, rng, box, stats, b):
        for kind, o, a in all_comments(b):
            if getattr(o, a) is not None and rng.random() < 0.5:
                setattr(o, a, None)
        mod, msg = common.pick_message(b, rng)
        if not msg:
            return
        seq = b.defs()[msg]
        c = common.clone(b)
        places = list(zip(all_comments(b), all_comments(c)))
        used = leaf_members(seq, b.defs())
        mine = [x for x in places if x[0][0] == "member" and any(x[0][1] is u for u in used)]
        pick = rng.choice(mine) if mine and rng.random() < 0.6 else rng.choice(places)
        (kind, o1, attr), (_, o2, _) = pick
        com = getattr(o2, attr) or m.Comment("marked" if rng.random() < 0.7 else "")
        com.le = not com.le
        setattr(o2, attr, com)
        other = m.Comment(com.text, com.unit, not com.le)
        setattr(o1, attr, other)
        t1, t2 = common.render_all(b, rng, "plain"), common.render_all(c, rng, "plain")
        i1, i2 = box.write_inputs(t1), box.write_inputs(t2)
        f1 = common.accept(box, "cosmos", t1, b.names(), stats, module=mod, messages=[msg], inputs=i1)
        f2 = common.accept(box, "cosmos", t2, b.names(), stats, module=mod, messages=[msg], inputs=i2)
        (x1, p1), (x2, p2) = c10.read(f1, "tlm", t1), c10.read(f2, "tlm", t2)
        where = "endianness mark at the comment of %s %s" % (kind, getattr(o1, "key", getattr(o1, "name", "")))
        if len(p1) != 1 or len(p2) != 1 or len(p1[0].items) != len(used) or len(p2[0].items) != len(used):
            raise Violation("%s changes the items" % where, **common.arts(t2, output=x2))
        for g, h, u in zip(p1[0].items, p2[0].items, used):
            hit = u is o1
            if g.le != (other.le if hit else g.le) or h.le != (com.le if hit else g.le):
                raise Violation("%s: item %s is little endian %s before and %s after" % (where, g.name, g.le, h.le), **common.arts(t2, output=x2))
            h.le = g.le
            if g != h:
                raise Violation("%s: item %s changes: %s / %s" % (where, g.name, g, h), **common.arts(t2, output=x2))
            stats["items_with_mark"] += hit
        if p1[0].desc != p2[0].desc:
            raise Violation("%s: the description of the packet changes" % where, **common.arts(t2, output=x2))
        g = self.choose(b, rng)
        order = rng.choice(["little-endian", "big-endian"])
        c1 = common.accept(box, g, t1, b.names(), stats, inputs=i1, endianness=order)
        c2 = common.accept(box, g, t2, b.names(), stats, inputs=i2, endianness=order)
        if c1 != c2:
            raise Violation("%s changes %s of generate-%s" % (where, sorted(n for n in set(c1) | set(c2) if c1.get(n) != c2.get(n)), g), **common.arts(t2))
        stats["marks_toggled"] += 1
        stats["marks_at_" + kind] += 1


def leaf_members(seq, defs):
    """the member objects of all leaf fields in order"""
    out = []
    for mem in seq.members:
        k = ref.resolve(mem.type, defs)
        if k.kind == "seq":
            out += leaf_members(k.seq, defs)
        else:
            out.append(mem)
    return out


CHECK = C17
