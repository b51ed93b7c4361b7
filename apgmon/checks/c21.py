"""C21: a choice becomes one union with all of its alternatives at the same place."""
from .. import common, cprobe, gen, model as m, runner
from ..harness import Check, Violation
from .c17 import body, norm, shown


def unions(text):
    """[(name of the union, name of the variable, comments before, [(code of an entry, comments beside it)])]"""
    toks = cprobe.lex(text)
    pairs = pos_lines(text)
    out = []
    pend = []
    i, n = 0, len(toks)
    while i < n:
        k, t = toks[i]
        if k in ("block", "line"):
            pend.append(body(toks[i]))
            i += 1
            continue
        if (k, t) != ("word", "union"):
            pend = []
            # skips a typedef as a whole
            if (k, t) == ("word", "typedef"):
                depth = 0
                while i < n and not (toks[i][1] == ";" and toks[i][0] == "op" and depth == 0):
                    if toks[i][0] == "op":
                        depth += {"{": 1, "}": -1}.get(toks[i][1], 0)
                    i += 1
            i += 1
            continue
        name = toks[i + 1][1] if i + 1 < n else ""
        before, pend = pend, []
        i += 2
        if i >= n or toks[i] != ("op", "{"):
            out.append((name, "", before, None))
            continue
        i += 1
        entries, code, com, first = [], [], [], None
        while i < n and toks[i] != ("op", "}"):
            k, t = toks[i]
            if k in ("block", "line"):
                # beside the entry which ended on the same line, else before the next
                if entries and not code and pairs[i] == first:
                    entries[-1][1].append(body(toks[i]))
                else:
                    com.append(body(toks[i]))
            elif (k, t) == ("op", ";"):
                entries.append((code, com))
                code, com, first = [], [], pairs[i]
            else:
                code.append(t)
            i += 1
        if code or com:
            entries.append((code, com))
        i += 1
        var = []
        while i < n and toks[i] != ("op", ";"):
            var.append(toks[i][1])
            i += 1
        i += 1
        out.append((name, " ".join(var), before, entries))
    return out


def pos_lines(text):
    """line numbers of the tokens of cprobe.lex"""
    out = []
    pos = 0
    for k, t in cprobe.lex(text):
        # preprocessor lines are normalised, all other tokens are as in the text
        pos = text.index(t.split()[0] if k == "pp" else t, pos)
        out.append(text.count("\n", 0, pos))
        pos += 1 if k == "pp" else len(t)
    return out


class C21(Check):
    id = "C21"
    rule = (
        "random valid bundles with choices of 1-70 alternatives of all types, comments and units of random and hostile texts, through the cFS, C and binary generators; a lexer locates every union and compares "
        "its name, its variable, its alternatives (names, order, types) and the comments beside them with the choice it comes from; bundles whose choices consist of sequences and enumerations are compiled "
        "and each alternative is located by its address under ASan and UBSan; distinct by the digest of the choices; non-trivial if a union was read"
    )
    assumptions = [
        "gcc 13 on x86-64",
        "the C types of alternatives other than sequences and enumerations are not compared (known limit: they are named as in ASN.1)",
        "leading and trailing blanks of a comment are not compared",
    ]
    quick = 1200
    thorough = 4000
    required = {"unions": 500, "alternatives": 1500, "comments_beside": 400, "units": 100, "choice_comments": 100, "unions_compiled": 100, "alternatives_located": 250, "runs_cfs": 60, "runs_c": 60, "runs_binary": 30}

    def case(self, idx, rng, box, stats):
        compiled = idx % 2 == 0
        p = gen.Profile(
            modules=rng.choice([(1, 1), (1, 3)]), choice=0.0, comments=rng.choice([0.0, 0.4, 0.9]), hostile=rng.choice([0.2, 0.7]),
            wc_none=rng.choice([0.0, 1.0]), wc_bin=True, ccsds=0.0, arrays=rng.choice(["", "c"]), enum_bias=rng.choice([0.0, 0.3]), defs=rng.choice([(2, 5), (4, 9)]),
        )
        g0 = gen.Gen(rng, p)
        make_choices(g0, rng, compiled)
        b = g0.make()
        texts = common.render_all(b, rng)
        g = rng.choice(["cfs", "c"] + (["binary", "binary"] if common.binary_supported(b) else []))
        out = box.path("out")
        files = common.accept(box, g, texts, b.names(), stats, outdir=out)
        stats["runs_" + g] += 1
        todo = []
        for mod in b.modules:
            name = m.cname(mod.name) + ("_msg.h" if g == "cfs" else ".h")
            if name not in files:
                raise Violation("%s is missing" % name, **common.arts(texts, generator=g))
            todo += self.check_header(mod, name, files[name].decode("utf8"), b, texts, stats)
        if compiled and todo:
            self.locate(b, todo, sorted(f for f in files if f.endswith(".h")), out, g, texts, rng, stats)
        key = runner.digest([(c.name, [(x.key, str(x.type), x.comment) for x in c.members]) for mod in b.modules for c in mod.defs if isinstance(c, m.Choice)])
        return g + "/" + key, texts[0][1][:1500] if idx < 8 else None

    def check_header(self, mod, name, text, b, texts, stats):
        def bad(what, got, want):
            raise Violation("%s: %s: %r, expected %r" % (name, what, got, want), **common.arts(texts, file=text))

        got = unions(text)
        choices = [d for d in mod.defs if isinstance(d, m.Choice)]
        if sorted(u[0] for u in got) != sorted(m.cname(c.name) for c in choices):
            bad("unions", sorted(u[0] for u in got), sorted(m.cname(c.name) for c in choices))
        defs = b.defs()
        for c in choices:
            _, var, before, entries = next(u for u in got if u[0] == m.cname(c.name))
            if entries is None:
                bad("union %s" % c.name, "no list of alternatives", len(c.members))
            if var != m.lowerize(m.cname(c.name)):
                bad("variable of union %s" % c.name, var, m.lowerize(m.cname(c.name)))
            # a declarator may have a length
            names = [next((x for x in reversed(e[0][: e[0].index("[")] if "[" in e[0] else e[0][: e[0].index(":")] if ":" in e[0] else e[0])), "") for e in entries]
            if names != [m.cname(x.key) for x in c.members]:
                bad("alternatives of %s" % c.name, names, [m.cname(x.key) for x in c.members])
            for x, (code, com) in zip(c.members, entries):
                d = defs.get(x.type.name) if isinstance(x.type, m.TRef) else None
                if isinstance(d, (m.Seq, m.Enum)):
                    if code != [m.cname(d.name), m.cname(x.key)]:
                        bad("alternative %s of %s" % (x.key, c.name), " ".join(code), "%s %s" % (m.cname(d.name), m.cname(x.key)))
                    stats["alternatives_of_defined_types"] += 1
                elif len(code) < 2:
                    bad("alternative %s of %s" % (x.key, c.name), " ".join(code), "a type and a name")
                want = shown(x.comment)
                have = [norm(y) for y in com if norm(y)]
                if have != ([want] if want else []):
                    bad("comment of %s in %s" % (x.key, c.name), have, want)
                stats["comments_beside"] += bool(want)
                stats["units"] += bool(x.comment and x.comment.unit)
                stats["alternatives"] += 1
            want = shown(c.comment, unit=False)
            have = [norm(y) for y in before if norm(y)]
            if want and have[-1:] != [want]:
                bad("comment of %s" % c.name, have, want)
            stats["choice_comments"] += bool(want)
            stats["unions"] += 1
            stats["big_unions"] += len(c.members) > 16
        return choices

    def locate(self, b, choices, headers, out, g, texts, rng, stats):
        rng.shuffle(headers)
        src = ['#include "%s"' % h for h in headers] + [cprobe.PRELUDE, "int main(void)\n{"]
        for c in choices:
            U, v = "union " + m.cname(c.name), m.lowerize(m.cname(c.name))
            src.append('printf("U %s %%zu\\n", sizeof(%s));' % (m.cname(c.name), U))
            for x in c.members:
                T, k = m.cname(x.type.name), m.cname(x.key)
                # the variable of the union, through the alternative
                src.append(
                    'memset(&%s, 0, sizeof %s); memset(&%s.%s, 0xff, sizeof %s.%s); printf("A %s %s %%ld %%zu %%zu %%d\\n", (long)((char *)&%s.%s - (char *)&%s), sizeof %s.%s, sizeof(%s), '
                    "(int)__builtin_types_compatible_p(__typeof__(%s.%s), %s));" % (v, v, v, k, v, k, m.cname(c.name), k, v, k, v, v, k, T, v, k, T)
                )
        src.append('puts("END"); return 0;\n}')
        ok, text = cprobe.build_and_run("\n".join(src) + "\n", out)
        if not ok:
            raise Violation("the unions of generate-%s cannot be used: %s" % (g, text), **common.arts(texts, generator=g))
        lines = [x.split() for x in text.splitlines()]
        if not lines or lines[-1] != ["END"]:
            raise Violation("the probe program did not finish: " + text[-300:], **common.arts(texts, generator=g))
        size = {p[1]: int(p[2]) for p in lines if p[0] == "U"}
        biggest = {}
        for p in lines:
            if p[0] == "A":
                off, mine, typ, same = (int(y) for y in p[3:])
                if off != 0 or mine != typ or not same:
                    raise Violation("alternative %s of union %s: offset %d, size %d, size of its type %d, of its type %d" % (p[2], p[1], off, mine, typ, same), **common.arts(texts, generator=g))
                biggest[p[1]] = max(biggest.get(p[1], 0), typ)
                stats["alternatives_located"] += 1
        for u, s in size.items():
            if s != biggest[u]:
                raise Violation("union %s takes %d bytes, its biggest alternative %d" % (u, s, biggest[u]), **common.arts(texts, generator=g))
            stats["unions_compiled"] += 1


def make_choices(g, rng, compiled):
    """lets the generator add choices to its modules"""
    inner = g.make_enum

    def make_choice(mod):
        used = {"primary"}
        n = rng.choice([1, 2, 3, 4, 6, rng.randint(1, 12)])
        if rng.random() < 0.05:
            n = rng.choice([17, 33, 70])
        members = []
        for _ in range(n):
            if compiled:
                names = g.visible(mod, lambda d: isinstance(d, (m.Seq, m.Enum)))
                if not names:
                    return
                t = m.TRef(rng.choice(names))
            else:
                t = g.member_type(mod)
            members.append(m.Member(g.lower(used), t, g.comment()))
        g.add(mod, m.Choice(g.type_name(), members, g.comment()))

    seq = g.make_seq

    def make_seq(mod, *a, **k):
        seq(mod, *a, **k)
        if rng.random() < 0.5:
            make_choice(mod)

    def make_enum(mod, *a, **k):
        inner(mod, *a, **k)
        if rng.random() < 0.3:
            make_choice(mod)

    g.make_seq, g.make_enum = make_seq, make_enum


CHECK = C21
