"""C07: text outside the grammar is refused, and nothing is written."""
import os
import re

from .. import api, common, gen, model as m, mutate, render
from ..harness import Check, Violation

JUNK = ["$", "@", "#", "!", "~", ";", ",", ")", "}", "(", "{", "]", "[", "|", "&", "=", "?", "_", "\"", "'", "`", "\\", "%", "^", "*", "/", "+", ".", ":", "::=", "..", "...",
        "END", "BEGIN", "FROM", "IMPORTS", "OPTIONAL", "DEFAULT", "SEQUENCE", "OF", "x", "foo-bar", "Foo", "42", "0.5", "TRUE", "(5)", "(0..7)", "{}", "()", "/*", "*/", "//", "\u00e9", "\u00a0", "\x00", "\x0b", "\x1a", "\x0c", "\u2028", "\ufeff", "\u3000"]
BAD_INT = ["0x1F", "1e3", "7.5", "- 5", "+-5", "--5", "1_000", "MAX", "MIN", "PI", "\"1\"", "'1'", "1,5", "", " ", "TRUE", "\u0663", "\uff11", "1.", ".5", "$1", "5a", "a5", "1'000", "0b1", "1n", "1u", "x"]
BAD_REAL = ["1,5", "0x1p3", "nan", "NaN", "inf", "-inf", "PLUS-INFINITY", "MAX", "1.5.2", "--1.0", "+-1.0", "1.0f", "e5", ".", "", "1.0e", "1.0e+", "- 1.0", "1_0.0", "{1, 10, 2}", "\"1.0\"", "TRUE"]
BAD_VALUE = ["0x1", "true", "True", "false", "TRUEx", "1 2", "", "\"a\"", "'a'", "- 1", "1_0", "nan", "inf", "1.5.2", "e", "YES", "1,2", "x", "1f", "1..2", "..", "(1)", "{1}", "1;", "TRUE FALSE", "NULL", "+", "-", "."]
BAD_LOW = ["aB", "a-B", "a_b", "Ab", "AB", "1a", "-a", "a.b", "a-1B", "aBC", "_a", "a$", "a-b_c", "a-bC-d", "\u00e4b", "a\u00e9", "a-", "a-b-", "a\u0663"]
BAD_CAP = ["ab", "AB", "FooBar", "Foo_bar", "Foo-Bar", "1Foo", "-Foo", "FOO", "F-B", "Foo.bar", "Foo$", "_Foo", "Foo-bAr", "\u00c4b", "Fo\u00f6", "Foo-", "Foo-b-", "F\u0663"]
BAD_TEXT = ["[", "]", "--", "\\", "*/", "~", "|", "`", "\u00e9", "\u20ac", "[]", "]x", "x[", "\\n", "**/", "/*x*/", "--x", "\x00", "\x7f"]
BAD_BYTES = [b"\xff", b"\xfe", b"\x80", b"\xc3\x28", b"\xe2\x82", b"\xc0\xaf", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\xe9"]


def token_kind(t):
    t = t.strip()
    if re.match(r"[A-Z][a-z0-9-]*$", t) and t != "Module-":
        return "Name"
    if re.match(r"[a-z]", t):
        return "name"
    if re.match(r"[0-9.+-]*[0-9.]", t) and t != "..":
        return "number"
    return t


class C07(Check):
    id = "C07"
    rule = (
        "one error planted into the text of a random file of a random valid bundle: cut at any character before the end of END, any single token deleted (each kind of token in each surrounding equally likely), a keyword misspelt, doubled or preceded by a foreign token, "
        "a name outside of the naming rules used consistently, text before or after the module, a forbidden character sequence in a comment at any place where the grammar allows comments, "
        "a malformed number as bound, size, position or value, bytes which are not UTF-8, an empty or missing file; distinct by kind, token and structure"
    )
    assumptions = ["the token classes chosen for insertion never form a valid text with their neighbours (argued in DESIGN.md)"]
    quick = 3500
    thorough = 20000
    OPS = ["cut", "cut", "delete", "delete", "double", "insert", "insert", "word", "word", "name", "name", "after", "before", "comment", "comment", "comment", "bytes", "file", "literal", "literal"]
    required = {"grid_texts": 3000, "grid_tight": 1000, "op_cut": 80, "op_delete": 80, "op_double": 40, "op_insert": 80, "op_name": 70, "op_after": 40, "op_before": 40, "op_comment": 100, "op_bytes": 40, "op_file": 20, "op_word": 80, "op_literal": 150,
                "refusals_without_output": 900, "bases_accepted": 100, "comment_member": 8, "comment_module": 3, "comment_enumitem": 4, "comment_component": 4, "comment_import": 3, "comment_simple": 4,
                "literal_int": 20, "literal_real": 15, "literal_size": 15, "negative_size": 3, "literal_pos": 15, "literal_value": 15}

    def case(self, idx, rng, box, stats):
        self.stats = stats
        if idx % 100 == 3:
            return self.grid(idx, rng, box, stats)
        op = rng.choice(self.OPS)
        p = mutate.base_profile(rng, gen, comments=rng.choice([0.0, 0.3, 0.6]))
        if op == "comment":
            p.comments = 0.5
        p.modules = rng.choice([(1, 1), (1, 2), (2, 4)])
        b = gen.bundle(rng, p)
        gens, cmod, cmsg = mutate.gens_for(b, rng, 1)
        if rng.random() < 0.15:
            mutate.accept_base(box, b, rng, stats, common.render_all(b, rng), gens[0], cmod, cmsg)
            stats["bases_accepted"] += 1
        names = None
        if op in ("name", "comment", "literal"):
            res = getattr(self, "abs_" + op)(rng, b, stats, cmod, cmsg)
            if res is None:
                return None, None
            why, cmod, cmsg = res
            texts = common.render_all(b, rng)
            names = b.names()
        elif op == "file":
            return self.op_file(idx, rng, box, stats, b, gens, cmod, cmsg)
        else:
            i = rng.randrange(len(b.modules))
            texts = common.render_all(b, rng)
            res = getattr(self, "op_" + op)(rng, b.modules[i], texts[i][1])
            if res is None:
                return None, None
            why, text = res
            texts[i] = (texts[i][0], text)
        rng.shuffle(texts)
        for g in gens:
            common.expect_reject(box, rng, g, texts, names or b.names(), stats, why, module=cmod, messages=[cmsg])
        stats["op_" + op] += 1
        return "%s/%s" % (why, common.feature_key(b)), why if idx < 10 else None

    # --- many errors in one small module

    STRUCT = [",", ",", ";", ")", "}", "(", "{", ".", "(5)", "x", "Foo", "42", "::=", ".."]

    TIGHT = ["(", ")", "..", "{", "}", "})", ";"]  # never part of a name or number, and always in pairs or at one place only

    def grid(self, idx, rng, box, stats):
        """every kind of place of a module (token, token before it, enclosing construct) with a token deleted, doubled or put in front of it, with and without blanks;
        the texts go through the parser in one process, and those it accepts to the command"""
        p = mutate.base_profile(rng, gen, modules=rng.choice([(1, 1), (2, 2)]), defs=(3, 5), members=(1, 4), choice=0.15, arrays="both", comments=rng.choice([0.0, 0.3]), big=0.0, wc=0.7, huge=0.0, enum_bias=0.3,
                                enum_sizes=lambda r: r.randrange(1, 4))
        b = gen.bundle(rng, p)
        i = len(b.modules) - 1 if rng.random() < 0.7 else 0
        st = common.style(rng)
        items = render.module_doc(b.modules[i]).items
        places, encl, prev = {}, ["module"], ""
        for k, it in enumerate(items):
            if it[0] != "t":
                continue
            kind = token_kind(it[1])
            places.setdefault((encl[-1], prev, kind), []).append(k)
            for w in ("ENUMERATED", "SEQUENCE {", "CHOICE", "WITH COMPONENTS", "IMPORTS"):
                if w in it[1]:
                    encl.append(w)
            if it[1].strip() in ("}", "})", ";") and len(encl) > 1:
                encl.pop()
            prev = kind
        texts = [t for _, t in common.render_all(b, rng)]
        todo, tight = [], []
        for key in sorted(places):
            k = rng.choice(places[key])
            todo += [(key, "delete", k, ""), (key, "double", k, "")]
            todo += [(key, "insert", k, j) for j in sorted(set(self.STRUCT)) + [rng.choice(JUNK)]]
            # the same without blanks: in the places where the grammar has none these are the closer misses
            if key[2] not in ("Name", "name", "number", ","):
                tight.append((key, "delete tightly", k, ""))
            if items[k][1].strip() in self.TIGHT:
                tight.append((key, "double tightly", k, ""))
            tight.append((key, "insert tightly", k, rng.choice(self.TIGHT)))
        rng.shuffle(todo)
        rng.shuffle(tight)
        # two reals without anything between them can look like two other reals
        dots = [(("real", "", ".."), "delete tightly", k, "") for k, it in enumerate(items) if it[0] == "t" and it[1] == " .. "]
        rng.shuffle(dots)
        todo = todo[:130] + tight[:60] + dots[:15]
        cand = []
        for key, how, k, j in todo:
            if how == "delete":
                new = items[:k] + [("t", " ")] + items[k + 1:]
            elif how == "double":
                new = items[: k + 1] + [("t", " " + items[k][1] + " ")] + items[k + 1:]
            elif how == "insert":
                new = items[:k] + [("t", " " + j + " ")] + items[k:]
            elif how == "delete tightly":
                new = items[:k] + items[k + 1:]
            elif how == "double tightly":
                new = items[: k + 1] + [("t", items[k][1].strip())] + items[k + 1:]
            else:
                new = items[:k] + [("t", j)] + items[k:]
            stats["grid_tight"] += how.endswith("tightly")
            cand.append(texts[:i] + [render.join(new, st)] + texts[i + 1:])
        kind, res = api.call(box, "accepted", [[x.replace("\r\n", "\n") for x in t] for t in [texts] + cand])
        if kind != "ok" or not res[0]:
            raise Violation("parsing a valid bundle: %s %s" % (kind, res if kind != "ok" else "refused"), texts=texts)
        for (key, how, k, j), t, ok in zip(todo, cand, res[1:]):
            stats["grid_texts"] += 1
            if ok:
                files = [("m%d.asn" % n, x) for n, x in enumerate(t)]
                why = "%s %r at %r after %r in %s" % (how, j, items[k][1], key[1], key[0])
                common.expect_reject(box, rng, rng.choice(["cfs", "c"]), files, b.names(), stats, why)
                stats["refused_later"] += 1
        stats["grid_places"] += len(places)
        stats["op_grid"] += 1
        return "grid/" + common.feature_key(b), sorted(places)[:40] if idx < 80 else None

    # --- on the text

    def op_cut(self, rng, mod, text):
        last = text.rindex("END") + 3
        x = rng.random()
        if x < 0.25:
            n = rng.randrange(max(0, last - 30), last)
        elif x < 0.35:
            n = rng.randrange(0, min(60, last))
        else:
            n = rng.randrange(0, last)
        t = text[:n]
        return "cut after %d of %d characters, at %r" % (n, len(text), t[-30:]), t

    def items(self, rng, mod):
        return render.module_doc(mod).items, common.style(rng)

    def pick(self, rng, items):
        """index of a token: the kinds of tokens and their surroundings are equally likely, not their occurrences"""
        toks = [i for i, it in enumerate(items) if it[0] == "t"]
        if rng.random() < 0.3:
            return rng.choice(toks)

        groups = {}
        for k, i in enumerate(toks):
            ctx = token_kind(items[toks[k - 1]][1]) if k else ""
            groups.setdefault(token_kind(items[i][1]), {}).setdefault(ctx, []).append(i)
        g = groups[rng.choice(sorted(groups))]
        return rng.choice(g[rng.choice(sorted(g))])

    def op_word(self, rng, mod, text):
        """one keyword left out of its phrase, misspelt or glued to the next"""
        items, st = self.items(rng, mod)
        words = []
        for i, it in enumerate(items):
            if it[0] == "t":
                for w in re.finditer(r"\S+", it[1]):
                    if re.match(r"[A-Z]{2,}$|::=|Module-|IA5String|NumericString", w.group()):
                        words.append((w.group(), i, w.start(), w.end()))
        kinds = sorted({w[0] for w in words})
        word = rng.choice(kinds)
        _, i, a, z = rng.choice([w for w in words if w[0] == word])
        how = rng.randrange(5)
        t = items[i][1]
        if how == 0 or word == "::=":
            new = t[:a] + t[z:]
        elif how == 1:
            new = t[:a] + (word.lower() if word != "Module-" else "module-") + t[z:]
        elif how == 2:
            n = rng.randrange(len(word))
            new = t[:a] + word[:n] + word[n + 1:] + t[z:]
        elif how == 3:
            new = t[:a] + word + rng.choice("XSE_") + t[z:]
        else:
            new = t[:a] + (word.capitalize() if word != "Module-" else "MODULE-") + t[z:]
        if new == t or (new.strip() == "" and word == "END"):
            new = t.replace(word, "")
        self.stats["word " + word] += 1
        t = render.join(items[:i] + [("t", new)] + items[i + 1:], st)
        return "%r instead of %r" % (new, items[i][1]), t

    def op_delete(self, rng, mod, text):
        items, st = self.items(rng, mod)
        i = self.pick(rng, items)
        self.stats["deleted " + token_kind(items[i][1])] += 1
        t = render.join(items[:i] + [("t", " ")] + items[i + 1:], st)
        return "token %r deleted, after %r" % (items[i][1], [x[1] for x in items[max(0, i - 3):i] if x[0] == "t"]), t

    def op_double(self, rng, mod, text):
        items, st = self.items(rng, mod)
        i = self.pick(rng, items)
        t = render.join(items[: i + 1] + [("t", " " + items[i][1] + " ")] + items[i + 1:], st)
        return "token %r doubled, after %r" % (items[i][1], [x[1] for x in items[max(0, i - 3):i] if x[0] == "t"]), t

    def op_insert(self, rng, mod, text):
        items, st = self.items(rng, mod)
        i = self.pick(rng, items)
        j = rng.choice(JUNK)
        t = render.join(items[:i] + [("t", " " + j + " ")] + items[i:], st)
        return "%r inserted before %r" % (j, items[i][1]), t

    def op_after(self, rng, mod, text):
        x = rng.choice([
            "x", "END", ";", ".", "}", "-- a comment", "Foo ::= BOOLEAN", "Foo ::= BOOLEAN\nEND", "Module-zz DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nZz ::= BOOLEAN\nEND",
            "Zz ::= SEQUENCE {\n a BOOLEAN\n}", "\x00", "\x1a", "0", "$", "DEFINITIONS", text,
        ])
        sep = rng.choice(["\n", "\n\n", " ", "\n", " \n\t"])
        return "text after END: %r" % x[:40], text.rstrip() + sep + x + rng.choice(["", "\n"])

    def op_before(self, rng, mod, text):
        x = rng.choice(["\ufeff", "x", "Module", "-- a comment\n", "-- a comment\n\n", ";", "Foo ::= BOOLEAN\n", "END\n", "Module-\n", "{", "#!x\n", "0", "DEFINITIONS\n", "\x00",
                        "Module-zz DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nZz ::= BOOLEAN\nEND\n", "Module-zz DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n"])
        return "text before the module: %r" % x, x + rng.choice(["", " ", "\n"]) + text

    def op_bytes(self, rng, mod, text):
        raw = text.encode("utf8")
        bad = rng.choice(BAD_BYTES)
        x = rng.random()
        if x < 0.1:
            enc = rng.choice(["utf-16", "utf-16-le", "utf-32"])
            return "encoded as " + enc, text.encode(enc)
        if x < 0.4 and b"--" in raw:  # inside of a comment
            places = [i for i in range(len(raw) - 1) if raw[i : i + 2] == b"--"]
            n = rng.choice(places) + 2
        elif x < 0.55:
            n = len(raw)
        elif x < 0.65:
            n = 0
        else:
            n = rng.randrange(len(raw) + 1)
        return "bytes %s at %d" % (bad.hex(), n), raw[:n] + bad + raw[n:]

    # --- on the bundle

    def abs_name(self, rng, b, stats, cmod, cmsg):
        k = rng.randrange(5)
        mod = rng.choice(b.modules)
        if k == 0:  # module
            old, new = mod.name, rng.choice(BAD_LOW)
            mod.name = new
            for x in b.modules:
                for i in x.imports:
                    if i.module == old:
                        i.module = new
            stats["name_module"] += 1
            return "module name %r" % new, new if cmod == old else cmod, cmsg
        if k in (1, 2):  # type
            d = rng.choice(mod.defs)
            old, new = d.name, rng.choice(BAD_CAP)
            d.name = new

            def sub(t):
                if isinstance(t, m.TRef) and t.name == old:
                    t.name = new
                elif isinstance(t, m.TArr):
                    sub(t.elem)

            for x in b.modules:
                for i in x.imports:
                    i.names = [new if n == old else n for n in i.names]
                for y in x.defs:
                    for mem in getattr(y, "members", []):
                        sub(mem.type)
                    if isinstance(y, m.Simple):
                        sub(y.type)
            stats["name_type"] += 1
            return "type name %r" % new, cmod, new if cmsg == old else cmsg
        enums = [d for d in mod.defs if isinstance(d, m.Enum)]
        if k == 3 and enums:
            it = rng.choice(rng.choice(enums).items)
            it.key = rng.choice(BAD_LOW)
            stats["name_item"] += 1
            return "enumeration item %r" % it.key, cmod, cmsg
        nodes = mutate.wc_nodes(b)
        seqs = [d for d in mod.defs if isinstance(d, (m.Seq, m.Choice))]
        if not seqs:
            return None
        d = rng.choice(seqs)
        mem = rng.choice(d.members)
        old, new = mem.key, rng.choice(BAD_LOW)
        mem.key = new
        for owner, mm, wc, seq, depth in nodes:
            if seq is d:
                for c in wc.items:
                    if c.key == old:
                        c.key = new
        stats["name_member"] += 1
        return "member name %r" % new, cmod, cmsg

    def abs_literal(self, rng, b, stats, cmod, cmsg):
        """a malformed number at any place which takes one"""
        ints, reals, sizes, poss, vals = [], [], [], [], []

        def ty(t, where):
            if isinstance(t, m.TInt):
                ints.append((t, where))
            elif isinstance(t, m.TReal):
                reals.append((t, where))
            elif isinstance(t, m.TStr):
                sizes.append((t, where))
            elif isinstance(t, m.TArr):
                sizes.append((t, where))
                ty(t.elem, where)

        def wc(w, where):
            for c in w.items:
                if isinstance(c.value, m.WC):
                    wc(c.value, where)
                else:
                    vals.append((c.value, where + "." + c.key))

        for mod in b.modules:
            for d in mod.defs:
                if isinstance(d, m.Simple):
                    ty(d.type, d.name)
                for x in getattr(d, "members", []):
                    ty(x.type, d.name + "." + x.key)
                    if x.wc:
                        wc(x.wc, d.name + "." + x.key)
                for x in getattr(d, "items", []):
                    poss.append((x, d.name + "." + x.key))
        kinds = [(n, k) for n, k in (("int", ints), ("real", reals), ("size", sizes), ("pos", poss), ("value", vals)) if k]
        if not kinds:
            return None
        n, k = rng.choice(kinds)
        obj, where = rng.choice(k)
        if n in ("int", "real"):
            bad = rng.choice(BAD_INT if n == "int" else BAD_REAL)
            lit = list(obj.lit or ((str(obj.b), str(obj.e)) if n == "int" else (repr(obj.b), repr(obj.e))))
            lit[rng.randrange(2)] = bad
            obj.lit = tuple(lit)
        elif n == "size":
            bad = rng.choice(BAD_INT + ["1..3", "1 3", "n", "-1", "-1", "-3", "-3", "-8", "-%d" % rng.choice([2, 8, 255, 2**31, 2**64])])
            if bad[:1] == "-" and bad[1:].isdigit():
                stats["negative_size"] += 1
            obj.n = bad
        elif n == "pos":
            bad = rng.choice(BAD_INT + ["1..3", "0 1"])
            obj.pos = bad
        else:
            bad = rng.choice(BAD_VALUE)
            obj.lit = bad
        stats["literal_" + n] += 1
        return "%s %r at %s" % (n, bad, where), cmod, cmsg

    def abs_comment(self, rng, b, stats, cmod, cmsg):
        """a forbidden text in one comment"""
        mod = rng.choice(b.modules)
        places = [("module", mod, "comment")]
        for i in mod.imports:
            places.append(("import", i, "comment"))
        if mod.imports:
            places.append(("imports", mod, "comment_import"))

        def walk(wc):
            places.append(("components", wc, "comment"))
            for c in wc.items:
                places.append(("component", c, "comment"))
                if isinstance(c.value, m.WC):
                    walk(c.value)

        for d in mod.defs:
            places.append(({m.Seq: "sequence", m.Choice: "choice", m.Enum: "enum", m.Simple: "simple"}[type(d)], d, "comment"))
            for x in getattr(d, "members", []):
                places.append(("member", x, "comment"))
                if x.wc:
                    walk(x.wc)
            for x in getattr(d, "items", []):
                places.append(("enumitem", x, "comment"))
        kinds = sorted({x[0] for x in places})
        kind = rng.choice(kinds)
        _, obj, attr = rng.choice([x for x in places if x[0] == kind])
        bad = rng.choice(BAD_TEXT)
        pre = rng.choice(["a", "some text", "x ", "A, b. ", "see (1) "])
        post = rng.choice(["", "b", " more", "."])
        c = m.Comment(pre + bad + post)
        if kind in ("member", "enumitem", "component", "simple") and rng.random() < 0.3:
            c.unit = "m/s"
        if kind == "member" and rng.random() < 0.2:
            c.le = True
        setattr(obj, attr, c)
        stats["comment_" + kind] += 1
        return "comment of a %s with %r: %r" % (kind, bad, c.text), cmod, cmsg

    # --- files

    def op_file(self, idx, rng, box, stats, b, gens, cmod, cmsg):
        texts = common.render_all(b, rng)
        k = rng.randrange(5)
        i = rng.randrange(len(texts))
        extra = rng.random() < 0.5  # a file beside the bundle, or instead of one of its files
        inputs = None
        if k == 0:
            bad, why = "", "empty file"
        elif k == 1:
            bad, why = rng.choice(["\n", " ", "\n\n\t ", "\r\n"]), "blank file"
        elif k == 2:
            bad, why = "-- only a comment\n", "file without module"
        else:
            inputs = box.write_inputs(texts)
            p = os.path.join(os.path.dirname(inputs[0]), "none.asn")
            if k == 3:
                why = "file does not exist"
            else:
                why = "folder given as file"
                os.mkdir(p)
            if extra:
                inputs.insert(rng.randrange(len(inputs) + 1), p)
            else:
                inputs[i] = p
        if inputs is None:
            if extra:
                texts.insert(rng.randrange(len(texts) + 1), ("extra", bad))
            else:
                texts[i] = (texts[i][0], bad)
        for g in gens:
            common.expect_reject(box, rng, g, texts, b.names(), stats, why, module=cmod, messages=[cmsg], inputs=inputs)
        stats["op_file"] += 1
        return "file/%s/%s" % (why, common.feature_key(b)), None


CHECK = C07
