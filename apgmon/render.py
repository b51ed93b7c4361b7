"""Renders abstract bundles as ASN.1 text, as tokens and whitespace slots.

A text is a list of items:
  ("t", text)   a token
  ("w", mode)   whitespace: "one" exactly one blank, "opt" any, "req" at least
                one, "nl" at least one line break
  ("c", text)   a comment up to the end of the line (without line break)
"""
from . import model as m


class Style:
    """Decides every whitespace slot.  kinds: plain, dense, random."""

    def __init__(self, kind="plain", rng=None, eol="\n"):
        self.kind, self.rng, self.eol = kind, rng, eol

    def _rand(self, minimum):
        r = self.rng
        n = r.choice([0, 0, 1, 1, 1, 2, 3, 8]) if minimum == 0 else r.choice([1, 1, 1, 2, 3, 12])
        return "".join(r.choice([" ", " ", " ", "\n", "\t"]) for _ in range(n))

    def ws(self, mode, hint):
        if mode == "one":
            return " "
        if self.kind == "plain":
            return hint
        if self.kind == "dense":
            return {"opt": "", "req": " ", "nl": "\n"}[mode]
        r = self.rng
        if mode == "nl":
            pre = "" if r.random() < 0.5 else " " * r.randrange(4)
            return pre + "\n" + ("" if r.random() < 0.5 else self._rand(0))
        return self._rand(0 if mode == "opt" else 1)

    def before_comment(self, glue_ok):
        if self.kind == "plain":
            return " "
        if self.kind == "dense":
            return "" if glue_ok else " "
        return " " * self.rng.choice([0, 1, 2, 5] if glue_ok else [1, 2, 5])

    def comment_gap(self):
        """blanks between the parts of a comment"""
        if self.kind == "plain":
            return " "
        if self.kind == "dense":
            return ""
        return " " * self.rng.choice([0, 1, 1, 2, 4])


class Doc:
    def __init__(self):
        self.items = []

    def t(self, text):
        self.items.append(("t", text))

    def w(self, mode, hint=" "):
        self.items.append(("w", mode, hint))

    def c(self, comment):
        self.items.append(("c", comment))

    def text(self, style):
        return join(self.items, style)


def comment_text(c, style):
    out = "--" + style.comment_gap()
    if c.le:
        out += "ENDIANNESS(LITTLE)" + style.comment_gap()
    if c.unit:
        out += "[" + c.unit + "]" + style.comment_gap()
    return out + c.text


def join(items, style):
    out = []
    after_comment = False
    for it in items:
        if it[0] == "t":
            if after_comment:
                out.append("\n")
                after_comment = False
            out.append(it[1])
        elif it[0] == "w":
            ws = style.ws(it[1], it[2])
            if after_comment:
                if "\n" not in ws:
                    ws = "\n" + ws
                else:
                    ws = ws[ws.index("\n"):]
                after_comment = False
            out.append(ws)
        else:
            prev = out[-1] if out else ""
            glue = not prev[-1:].isalnum()
            out.append(style.before_comment(glue))
            out.append(comment_text(it[1], style))
            after_comment = True
    text = "".join(out)
    if after_comment:
        text += "\n"
    return text.replace("\n", style.eol)


def lit_int(v):
    return str(v)


def type_tokens(d, t):
    """The blank before a type belongs to the type."""
    d.w("one")
    if isinstance(t, m.TInt):
        d.t("INTEGER")
        if t.b is not None:
            b, e = t.lit or (str(t.b), str(t.e))
            d.t("(")
            d.t(b)
            d.t("..")
            d.t(e)
            d.t(")")
    elif isinstance(t, m.TReal):
        d.t("REAL")
        if t.b is not None:
            b, e = t.lit or (repr(t.b), repr(t.e))
            d.t("(")
            d.t(b)
            d.t(" .. ")
            d.t(e)
            d.t(")")
    elif isinstance(t, m.TBool):
        d.t("BOOLEAN")
    elif isinstance(t, m.TNull):
        d.t("NULL")
    elif isinstance(t, m.TStr):
        d.t(t.kind)
        d.t(" (SIZE (")
        d.t(str(t.n))
        d.t("))")
    elif isinstance(t, m.TArr):
        d.t("SEQUENCE (SIZE (")
        d.t(str(t.n))
        d.t(")) OF")
        type_tokens(d, t.elem)
    elif isinstance(t, m.TRef):
        d.t(t.name)
    else:
        raise TypeError(t)


def wc_tokens(d, wc, ind):
    d.t("(WITH COMPONENTS {")
    if wc.comment:
        d.c(wc.comment)
    for i, comp in enumerate(wc.items):
        last = i == len(wc.items) - 1
        d.w("opt", "\n" + ind + "  ")
        d.t(comp.key)
        d.w("opt", " ")
        if isinstance(comp.value, m.WC):
            wc_tokens(d, comp.value, ind + "  ")
        else:
            d.t("(")
            d.w("opt", "")
            d.t(comp.value.lit)
            d.w("opt", "")
            d.t(")")
        if not last:
            d.w("opt", "")
            d.t(",")
        if comp.comment:
            d.c(comp.comment)
    d.w("opt", "\n" + ind)
    d.t("})")


def members_tokens(d, members):
    for i, mem in enumerate(members):
        last = i == len(members) - 1
        d.w("opt", "\n  ")
        d.t(mem.key)
        type_tokens(d, mem.type)
        if mem.wc is None:
            if not last:
                d.w("opt", "")
                d.t(",")
            if mem.comment:
                d.c(mem.comment)
        else:
            if mem.comment:
                d.c(mem.comment)
                d.w("opt", "\n  ")
            else:
                d.w("opt", " ")
            wc_tokens(d, mem.wc, "  ")
            if not last:
                d.w("opt", "")
                d.t(",")


def def_tokens(d, df):
    d.t(df.name)
    d.w("opt", " ")
    if isinstance(df, m.Simple):
        d.t("::=")
        type_tokens(d, df.type)
        if df.comment:
            d.c(df.comment)
        return
    word = {m.Seq: "SEQUENCE", m.Choice: "CHOICE", m.Enum: "ENUMERATED"}[type(df)]
    d.t("::= " + word + " {")
    if df.comment:
        d.c(df.comment)
    if isinstance(df, m.Enum):
        for i, it in enumerate(df.items):
            last = i == len(df.items) - 1
            d.w("opt", "\n  ")
            d.t(it.key)
            if it.pos is not None:
                d.w("opt", "")
                d.t("(")
                d.w("opt", "")
                d.t(str(it.pos))
                d.w("opt", "")
                d.t(")")
            if not last:
                d.w("opt", "")
                d.t(",")
            if it.comment:
                d.c(it.comment)
    else:
        members_tokens(d, df.members)
    d.w("opt", "\n")
    d.t("}")


def module_doc(mod):
    d = Doc()
    d.t("Module-")
    d.t(mod.name)
    d.w("req", " ")
    d.t("DEFINITIONS AUTOMATIC TAGS ::= BEGIN")
    if mod.comment:
        d.c(mod.comment)
    d.w("req", "\n")
    if mod.imports:
        d.t("IMPORTS")
        for imp in mod.imports:
            d.w("req", "\n  ")
            for i, n in enumerate(imp.names):
                if i:
                    d.w("opt", "")
                    d.t(",")
                    d.w("opt", " ")
                d.t(n)
            d.w("req", " ")
            d.t("FROM Module-")
            d.t(imp.module)
            if imp.comment:
                d.c(imp.comment)
        d.w("opt", "")
        d.t(";")
        if mod.comment_import:
            d.c(mod.comment_import)
        d.w("opt", "\n")
    for df in mod.defs:
        d.w("req", "\n")
        def_tokens(d, df)
    d.w("req", "\n")
    d.t("END")
    d.w("opt", "\n")
    return d


def render(mod, style=None):
    return module_doc(mod).text(style or Style())
