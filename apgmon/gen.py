"""Seeded generator of abstract bundles.  Everything comes from one Random."""
import os

from . import model as m
from . import ref

WORDS = (
    "alt bat cur dev ecl fan gyro head imu jet kit lamp mode nav orb pay quad rate sun temp "
    "urg volt wheel xray yaw zone a b c d e f g h i j k l n o p q r s t u v w x y z "
    "len idx flag status counter raw age telemetry data value type size begin end key"
).split()
# words which are C keywords or macros, alone or after changing the first letter
C_WORDS = set(
    "auto break case char const continue default do double else enum extern float for goto if "
    "inline int long register restrict return short signed sizeof static struct switch typedef "
    "union unsigned void volatile while asm typeof linux unix i386 main true false bool "
    "y0 y1 yn j0 j1 jn gamma index rindex exp exp2 pow sin cos tan log".split()
)
BASIC_CHARS = "".join(chr(c) for c in range(0x20, 0x60) if chr(c) not in "[]\\") + "abcdefghijklmnopqrstuvwxyz"
UNIT_CHARS = "%ABCXYZabcmsVdegHz0123456789/^"
HOSTILE = [
    'a "quoted" word', '"', '""', "it's", "// slashes", "/* open", "#define X 1", "#include <x.h>",
    "END", "::= SEQUENCE", "(WITH COMPONENTS", "a, b, c", "100 %", "%s %d", "$HOME", "a;b", "_MID (0x1801)",
    "x = 1;", "TRUE", "IMPORTS A FROM Module-b;", "A ::= BOOLEAN", "^_@!?", "?", "??/", "??)", "<: :>", "<% %>", "%:",
    "ENDIANNESS", "ENDIANNESS(BIG)", "a ENDIANNESS(LITTLE)", "(SIZE (3))", "- dash", "a-b-c", "0", "42", "*", "/", "/ *",
    "**", "//", "a//b", "trailing space ", "two  blanks", "tail*", "tail/", "tail-", "-", "- -", "STATE x 1", "UNITS m m",
    "LITTLE_ENDIAN", "APPEND_ITEM x 8 UINT", "None", "'", "''", "&amp;", "<b>", "=>", "+", "=", ",", ".", ":", ";", "()", "(", ")",
]


class Profile:
    """What a bundle may contain."""

    def __init__(self, **kw):
        self.modules = (1, 4)
        self.defs = (2, 7)
        self.members = (1, 8)
        self.big = 0.05  # chance of a big definition
        self.comments = 0.4
        self.hostile = 0.3  # share of hostile comment texts
        self.wc = 0.4  # chance that a member of sequence type has values
        self.wc_none = 0.0  # chance that the bundle has no values at all
        self.wc_bin = False  # only values which the binary generator supports
        self.wc_partial = True
        self.ccsds = 0.3
        self.choice = 0.0
        self.strings = True
        self.arrays = "c"  # "", "c" (what C supports), "cosmos" (what COSMOS supports), "both"
        self.unique_wc_keys = False
        self.enum_bias = 0.0
        self.array_bias = 0.0  # further chance that a member is an array
        self.enum_sizes = None
        self.enum_numbered = None
        self.alias = 0.0  # simple definitions naming another definition (parsed model only)
        self.aligned = False
        self.odd_literals = 0.05
        self.le = 0.1
        self.extra_imports = 0.2
        self.posix_only = False
        self.shuffle = True
        self.chain = 0.05  # chance of a long chain of nested sequences
        self.module_chain = 0.02  # chance of a long chain of modules
        self.huge = float(os.environ.get("APGMON_HUGE", 0.04))  # chance that one dimension of the bundle is much bigger than usual
        for k, v in kw.items():
            assert hasattr(self, k), k
            setattr(self, k, v)


class Gen:
    def __init__(self, rng, profile=None):
        self.r = rng
        self.p = profile or Profile()
        self.types = set()  # type names in use
        self.labels = set()  # enumeration labels and variable names
        self.where = {}  # type name -> module name
        self.bundle = None
        self.leafs = {}  # sequence name -> number of leaf fields
        self.huge = None
        if rng.random() < self.p.huge:
            self.huge = rng.choice(["members", "members", "defs", "names", "sizes", "sizes", "comments", "modules", "values"])

    # --- names

    def lower(self, used=None, long_ok=True):
        r = self.r
        for _ in range(1000):
            parts = [r.choice(WORDS)]
            if r.random() < 0.25:
                parts[0] += str(r.randrange(100))
            for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
                s = r.choice(WORDS + ["1", "2b", "0", "99"])
                parts.append(s)
            if long_ok and r.random() < 0.03:
                parts += [r.choice(WORDS) for _ in range(r.randrange(3, 9))]
            if self.huge == "names" and r.random() < 0.4:
                parts += [r.choice(WORDS) for _ in range(r.choice([12, 20, 30, 60]))]
                while len("-".join(parts)) > 180:  # names of files
                    parts.pop()
            name = "-".join(parts)
            if name in C_WORDS or m.cname(name) in C_WORDS or name.endswith("-t"):
                continue  # keywords, library names and the reserved names with _t
            if used is None or name not in used:
                if used is not None:
                    used.add(name)
                return name
            if r.random() < 0.5:
                name = name + "-" + str(r.randrange(10000))
                if name not in used:
                    used.add(name)
                    return name
        raise RuntimeError("no name")

    def type_name(self):
        for _ in range(1000):
            n = self.lower()
            n = n[0].upper() + n[1:]
            if n in m.POSIX or n in ("Float", "Double"):
                continue
            low = n[0].lower() + n[1:]
            if n in self.types or low in self.labels or low in C_WORDS:
                if self.r.random() < 0.5:
                    continue
                n += "-t" + str(self.r.randrange(10000))
                low = n[0].lower() + n[1:]
                if n in self.types or low in self.labels:
                    continue
            self.types.add(n)
            self.labels.add(low)
            return n
        raise RuntimeError("no name")

    # --- comments

    def text(self):
        r = self.r
        for _ in range(100):
            x = r.random()
            if x < self.p.hostile * 0.7:
                t = r.choice(HOSTILE)
                if r.random() < 0.3:
                    t = r.choice(HOSTILE) + " " + t
            elif x < self.p.hostile:
                n = r.choice([1, 2, 5, 20, 60, 150])
                if self.huge == "comments":
                    n = r.choice([255, 256, 257, 400, 1023, 1025, 3000])
                t = "".join(r.choice(BASIC_CHARS) for _ in range(n))
            else:
                t = " ".join(r.choice(WORDS) for _ in range(r.randrange(1, 7) if self.huge != "comments" else r.choice([3, 30, 100, 300])))
            t = t.lstrip(" ")
            if not t or "--" in t or "*/" in t or t.startswith("[") or t.startswith("ENDIANNESS(LITTLE)"):
                continue
            return t
        return "text"

    def comment(self, p=None, unit=True):
        r = self.r
        if r.random() >= (self.p.comments if p is None else p):
            return None
        c = m.Comment()
        x = r.random()
        if x < 0.04:
            return c  # empty comment
        if unit and r.random() < 0.35:
            c.unit = "".join(r.choice(UNIT_CHARS) for _ in range(r.choice([1, 1, 2, 3, 6]) if r.random() < 0.9 else r.randrange(1, 70)))
        if unit and r.random() < self.p.le:
            c.le = True
        if not (c.unit or c.le) or r.random() < 0.8:
            c.text = self.text()
        if c.text.startswith("-") and not (c.unit or c.le):
            # "---" would be read as two dashes and text, but keep clear of it
            c.text = "x" + c.text
        return c

    # --- types

    def int_lit(self, v):
        r = self.r
        if r.random() >= self.p.odd_literals:
            return str(v)
        k = r.randrange(3)
        if k == 0 and v >= 0:
            return "+" + str(v)
        if k == 1:
            return ("-" if v < 0 else "") + "0" * r.randrange(1, 4) + str(abs(v))
        return str(v)

    def float_lit(self, v):
        """returns (literal, value of the literal)"""
        r = self.r
        forms = [repr(float(v))] * 3
        forms += ["%.1f" % v if abs(v) < 1e15 else "%.6E" % v, "%.3e" % v, "%.10E" % v]
        if float(v) == int(v) and abs(v) < 1e15:
            forms += ["%d." % v, "%d.0" % v, "%de0" % v]
        if 0 < v < 1 and "e" not in repr(v):
            forms.append(repr(v).lstrip("0"))
        if v > 0:
            forms.append("+" + repr(float(v)))
        lit = r.choice(forms)
        f = float(lit)
        if f in (float("inf"), float("-inf")):
            lit = repr(float(v))
            f = float(lit)
        return lit, f

    def uint_range(self, bits=None):
        r = self.r
        if bits is None:
            bits = r.choice([1, 1, 2, 3, 4, 5, 7, 8, 8, 9, 11, 12, 15, 16, 16, 17, 24, 31, 32, 32, 33, 48, 63, 64, 64, r.randrange(1, 65)])
        lo, hi = (0 if bits == 1 else 2 ** (bits - 1)), 2**bits - 1
        e = r.choice([lo, hi, hi, hi, min(lo + 1, hi), max(hi - 1, lo), r.randint(lo, hi)])
        b = r.choice([0, 0, 0, min(1, e), e, r.randint(0, e)])
        return b, e

    def int_range(self, bits=None):
        r = self.r
        bits = bits or r.choice([8, 16, 32, 64])
        prev = {8: 0, 16: 8, 32: 16, 64: 32}[bits]
        lo, hi = -(2 ** (bits - 1)), 2 ** (bits - 1) - 1
        plo = -(2 ** (prev - 1)) if prev else 0
        phi = 2 ** (prev - 1) - 1 if prev else 0
        k = r.randrange(4)
        if k == 0:
            return lo, hi
        if k == 1:  # the begin decides
            b = r.choice([lo, min(plo - 1, -1), r.randint(lo, min(plo - 1, -1))])
            e = r.choice([b, -1, 0, hi, r.randint(b, hi)])
            return b, max(e, b)
        if k == 2:  # the end decides
            if hi > phi + 1 or prev:
                e = r.choice([hi, phi + 1, r.randint(phi + 1, hi)])
            else:
                e = hi
            b = r.choice([-1, lo, r.randint(lo, -1)])
            return b, e
        b = r.randint(lo, -1)
        return b, r.randint(b, hi)

    def t_int(self, bits=None, signed=None):
        r = self.r
        if signed is None:
            signed = r.random() < 0.35
        b, e = self.int_range(bits) if signed else self.uint_range(bits)
        return m.TInt(b, e, (self.int_lit(b), self.int_lit(e)))

    def t_real(self, double=None):
        r = self.r
        if double is None:
            double = r.random() < 0.35
        F, D = m.FLOAT_LIMIT, m.DOUBLE_LIMIT
        while True:
            if double:
                vals = [-D, D, -3.5e38, 3.5e38, 3.4000001e38, -3.4000001e38, 1e300, -1e39, 0.0, 1.0, r.uniform(-1e40, 1e40)]
            else:
                vals = [-F, F, 0.0, 0.5, 1.0, -1.0, 255.0, 3.3e38, -3.3e38, 1e-30, r.uniform(-1000, 1000), r.uniform(-1e6, 1e30), round(r.uniform(-10, 10), 2)]
            x, y = r.choice(vals), r.choice(vals)
            if r.random() < 0.15:
                x, y = (-D, D) if double else (-F, F)
            if r.random() < 0.1:
                x = y
            x, y = min(x, y), max(x, y)
            (lx, x), (ly, y) = self.float_lit(x), self.float_lit(y)
            if x > y:
                continue
            is_float = x >= -F and y <= F
            if is_float == (not double) and x >= -D and y <= D:
                return m.TReal(x, y, (lx, ly))

    def t_str(self):
        r = self.r
        return m.TStr(r.choice(["IA5String", "NumericString"]), (r.choice([255, 256, 257, 1000, 4096, 8191]) if r.random() < 0.9 else 65536) if self.huge == "sizes" or r.random() < 0.02 else r.choice([1, 2, 3, 5, 8, 16, 20, 33, 64, 128, r.randrange(1, 300)]))

    def visible(self, mod, pred):
        """names of types usable in mod (its own so far, and all of earlier modules)"""
        out = []
        for mm in self.done + [mod]:
            for d in mm.defs:
                if pred(d):
                    out.append(d.name)
        return out

    def posix_names(self, mod):
        return self.visible(mod, lambda d: isinstance(d, m.Simple) and (d.name in m.POSIX or d.name in ("Float", "Double")))

    def array_elem(self, mod):
        """An element type in the requested class, or None."""
        r = self.r
        cls = self.p.arrays
        if cls == "any":
            x = r.random()
            if x < 0.15:
                e = self.array_elem(mod)
                return m.TArr(r.choice([1, 2, 5]), e)
            if x < 0.5:
                return r.choice([self.t_int, self.t_real, m.TBool, self.t_str])()
            return m.TRef(r.choice(self.visible(mod, lambda d: True) or ["Int8-t"])) if self.visible(mod, lambda d: True) else m.TBool()

        def c_ok(d):
            if isinstance(d, m.Seq):
                return self.leafs[d.name] <= 40
            if isinstance(d, m.Simple):
                t = d.type
                if isinstance(t, m.TStr):
                    return True
                if isinstance(t, m.TReal):
                    return True
                if isinstance(t, m.TInt):
                    return ref.int_bits(t.b, t.e) in (8, 16, 32, 64)
            return False

        def cosmos_ok(d):
            return isinstance(d, (m.Simple, m.Enum))

        if cls == "c":
            pred = c_ok
        elif cls == "cosmos":
            pred = cosmos_ok
        elif cls == "both":
            pred = lambda d: c_ok(d) and cosmos_ok(d)
        else:
            return None
        names = self.visible(mod, pred)
        if cls == "cosmos" and r.random() < 0.1:
            return m.TBool()
        if not names:
            return None
        return m.TRef(r.choice(names))

    def member_type(self, mod, scalar_only=False):
        r = self.r
        p = self.p
        for _ in range(50):
            x = r.random()
            if p.enum_bias and r.random() < p.enum_bias:
                x = 0.5
            if p.array_bias and r.random() < p.array_bias:
                x = 0.99
            if x < 0.22:
                return self.t_int()
            if x < 0.30:
                return self.t_real()
            if x < 0.40:
                return m.TBool()
            if x < 0.46 and p.strings:
                return self.t_str()
            if x < 0.56:
                names = self.visible(mod, lambda d: isinstance(d, m.Enum))
                if names:
                    return m.TRef(r.choice(names))
            elif x < 0.72:
                names = self.visible(mod, lambda d: isinstance(d, m.Simple))
                if names:
                    return m.TRef(r.choice(names))
            elif x < 0.82:
                names = self.posix_names(mod)
                if names:
                    return m.TRef(r.choice(names))
            elif x < 0.93 and not scalar_only:
                names = self.visible(mod, lambda d: isinstance(d, m.Seq) and self.leafs[d.name] <= 60)
                if names:
                    return m.TRef(r.choice(names))
            elif p.arrays and not scalar_only:
                e = self.array_elem(mod)
                if e:
                    n = r.choice([1, 2, 3, 4, 7, 16, r.randrange(1, 40)])
                    if (self.huge == "sizes" or r.random() < 0.04) and not (isinstance(e, m.TRef) and isinstance(self.alldefs[e.name], m.Seq)):
                        n = r.choice([100, 127, 128, 255, 256, 257, 999, 1000, 1024, 1250, 4096])
                    return m.TArr(n, e)
        return self.t_int()

    def bin_type(self, mod):
        """A type which the binary generator can encode."""
        r = self.r
        x = r.random()
        names = self.posix_names(mod)
        if names and x < 0.45:
            return m.TRef(r.choice(names))
        if x < 0.8:
            bits = r.choice([8, 16, 32, 64])
            return self.t_int(bits=bits)
        return self.t_real()

    # --- values

    def leaf_value(self, t):
        """A Value which fits the type, or None (strings, arrays, ...)."""
        r = self.r
        k = ref.resolve(t, self.alldefs)
        if k.kind == "bool":
            b = r.random() < 0.5
            return m.Value(b, "TRUE" if b else "FALSE")
        if k.kind == "enum":
            n = len(k.enum.items)
            v = r.choice([0, n - 1, r.randrange(n)])
            return m.Value(v, self.int_lit(v))
        if k.kind in ("uint", "int"):
            lo, hi = k.b, k.e
            c = [lo, hi, r.randint(lo, hi)]
            if lo <= 0 <= hi:
                c.append(0)
            if lo <= -1 <= hi:
                c.append(-1)
            if lo <= 2**31 <= hi:
                c += [2**31, 2**31 - 1, 2**32 - 1 if hi >= 2**32 - 1 else hi]
            v = r.choice(c)
            return m.Value(v, self.int_lit(v))
        if k.kind in ("float", "double"):
            lo, hi = k.b, k.e
            if r.random() < 0.15:
                vi = r.choice([0, 1, -1, 2, 100, -300, 2**63, -(2**63) - 1, 2**64 - 1, 2**64, 10**20, -(10**22), 10**30])
                if lo <= vi <= hi:
                    return m.Value(vi, self.int_lit(vi))
            for _ in range(20):
                c = [lo, hi, lo / 2 + hi / 2, 0.5, 1.5, -2.25, 1e-3, 3.141592653589793, 1e10, 123456.789, r.uniform(-1, 1)]
                v = r.choice(c)
                lit, v = self.float_lit(v)
                if lo <= v <= hi:
                    return m.Value(v, lit)
            lit, v = repr(lo), lo
            return m.Value(v, lit)
        return None

    def values(self, seq, depth=0, full=False, used_keys=None, avoid=()):
        """A WC for a member of type seq, or None."""
        r = self.r
        items = []
        for mem in seq.members:
            if mem.key in avoid:
                continue
            if mem.key == "primary":
                continue
            if not full and r.random() < r.choice([0.1, 0.4, 0.8]):
                continue
            if used_keys is not None and mem.key in used_keys:
                continue
            k = ref.resolve(mem.type, self.alldefs)
            if k.kind == "seq":
                if k.seq.name != mem.type.name:
                    continue  # values through an alias are not supported
                inner_avoid = mem.wc.keys() if mem.wc and not self.p.wc_bin else ()
                w = self.values(k.seq, depth + 1, full, used_keys, inner_avoid)
                if w is None:
                    continue
                items.append(m.Comp(mem.key, w, self.comment()))
            else:
                v = self.leaf_value(mem.type)
                if v is None:
                    continue
                if used_keys is not None:
                    used_keys.add(mem.key)
                items.append(m.Comp(mem.key, v, self.comment()))
        if not items:
            return None
        if r.random() < 0.6:
            r.shuffle(items)
        return m.WC(items, self.comment())

    # --- definitions

    def add(self, mod, d):
        mod.defs.append(d)
        self.where[d.name] = mod.name
        self.alldefs[d.name] = d
        if isinstance(d, m.Seq):
            n = 0
            for mem in d.members:
                k = ref.resolve(mem.type, self.alldefs)
                base = k.elem if k.kind == "arr" else k
                f = k.n if k.kind == "arr" and base.kind == "seq" else 1
                n += f * self.leafs[base.seq.name] if base.kind == "seq" else 1
            self.leafs[d.name] = n

    def make_simple(self, mod):
        r = self.r
        x = r.random()
        names = self.visible(mod, lambda d: True) if self.p.alias and r.random() < self.p.alias else []
        if names:
            t = m.TRef(r.choice(names))
            if r.random() < 0.3:
                t = m.TArr(r.randrange(1, 100), t)
        elif x < 0.45:
            t = self.t_int()
        elif x < 0.65:
            t = self.t_real()
        elif x < 0.8 or not self.p.strings:
            t = m.TBool()
        else:
            t = self.t_str()
        self.add(mod, m.Simple(self.type_name(), t, self.comment()))

    def make_posix(self, mod):
        r = self.r
        names = [n for n in list(m.POSIX) + ["Float", "Double"] if n not in self.types]
        if not names:
            return
        n = r.choice(names)
        self.types.add(n)
        if n == "Float":
            lits = r.choice([("-3.4E38", "3.4E38"), ("-3.4e38", "3.4e38"), ("-340000000000000000000000000000000000000.0", "3.4e+38")])
            t = m.TReal(-3.4e38, 3.4e38, lits)
        elif n == "Double":
            t = m.TReal(-m.DOUBLE_LIMIT, m.DOUBLE_LIMIT, r.choice([("-1.7976931348623157E308", "1.7976931348623157E308"), ("-1.7976931348623157e308", "1.7976931348623157e+308")]))
        else:
            b, e = m.POSIX[n]
            t = m.TInt(b, e, (self.int_lit(b), self.int_lit(e)))
        self.add(mod, m.Simple(n, t, self.comment()))

    def make_enum(self, mod, n=None, numbered=None):
        r = self.r
        if n is None and self.p.enum_sizes:
            n = self.p.enum_sizes(r)
        if numbered is None:
            numbered = self.p.enum_numbered
        if n is None:
            n = r.choice([1, 2, 2, 3, 3, 4, 5, 8, 9, r.randrange(1, 20)])
            if r.random() < self.p.big:
                n = r.choice([16, 17, 32, 33, 64, 65, 128, 129])
        items = [m.EnumItem(self.lower(self.labels), None, self.comment()) for _ in range(n)]
        if numbered is None:
            numbered = r.random() < 0.5
        if numbered:
            pos = list(range(n))
            x = r.random()
            if x < 0.6:
                r.shuffle(pos)
            elif x < 0.68:
                pos.reverse()
            elif x < 0.76 and n > 1:
                i, j = r.sample(range(n), 2)
                pos[i], pos[j] = pos[j], pos[i]
            elif x < 0.84:
                k = r.randrange(n)
                pos = pos[k:] + pos[:k]
            for it, p in zip(items, pos):
                it.pos = p
        self.add(mod, m.Enum(self.type_name(), items, self.comment()))

    def count_members(self):
        r = self.r
        lo, hi = self.p.members
        if self.huge == "members" and r.random() < 0.3:
            return r.choice([50, 64, 65, 100, 101, 128, 150, 257])
        if r.random() < self.p.big:
            return r.randrange(hi, hi * 5)
        return r.randint(lo, hi)

    def make_seq(self, mod, n=None, name=None):
        used = {"primary"}
        members = []
        for _ in range(n or self.count_members()):
            if self.p.posix_only:
                t = self.bin_type(mod)
                nested = [d.name for d in mod.defs if isinstance(d, m.Seq) and self.bin_ok(d, mod) and self.leafs[d.name] <= 40]
                if nested and self.r.random() < 0.2:
                    t = m.TRef(self.r.choice(nested))
            else:
                t = self.member_type(mod)
            members.append(m.Member(self.lower(used), t, self.comment()))
        if self.p.aligned:
            members = self.align(members, used)
        d = m.Seq(name or self.type_name(), members, self.comment(unit=False))
        self.add(mod, d)
        return d

    def align(self, members, used):
        """Inserts fill fields so that runs of bit fields end at bytes."""
        out = []
        run = 0

        def fill():
            nonlocal run
            if run % 8:
                b = 8 - run % 8
                out.append(m.Member(self.lower(used), m.TInt(0, 2**b - 1), self.comment()))
            run = 0

        for mem in members:
            k = ref.resolve(mem.type, self.alldefs)
            if ref.is_bitfield(k):
                run += k.bits
            else:
                fill()
            out.append(mem)
        fill()
        return out

    def make_valued_seq(self, mod):
        """A sequence with at least one member of sequence type with values."""
        r = self.r
        full = self.p.wc_bin
        if full:
            names = [d.name for d in mod.defs if isinstance(d, m.Seq) and self.bin_ok(d, mod)]
        else:
            names = self.visible(mod, lambda d: isinstance(d, m.Seq) and self.leafs[d.name] <= 60)
        if not names:
            return
        used = {"primary"}
        members = []
        used_keys = set() if self.p.unique_wc_keys else None
        k = r.choice([1, 1, 1, 2, 3])
        if self.huge == "values":
            k = r.choice([5, 10, 20])
        for _ in range(k):
            t = m.TRef(r.choice(names))
            mem = m.Member(self.lower(used), t, self.comment())
            mem.wc = self.values(self.alldefs[t.name], full=full or r.random() < 0.3, used_keys=used_keys)
            if mem.wc is None and full:
                return
            members.append(mem)
        if not full:
            for _ in range(r.randrange(0, 4)):
                members.append(m.Member(self.lower(used), self.member_type(mod), self.comment()))
            r.shuffle(members)
        if self.p.aligned:
            members = self.align(members, used)
        self.add(mod, m.Seq(self.type_name(), members, self.comment(unit=False)))

    def bin_ok(self, seq, mod):
        """all fields encodable, all sequences in the same module, no values inside"""
        for mem in seq.members:
            if mem.wc is not None:
                pass
            t = mem.type
            k = ref.resolve(t, self.alldefs)
            if k.kind == "seq":
                if self.where[k.seq.name] != mod.name or not self.bin_ok(k.seq, mod):
                    return False
            elif k.kind in ("uint", "int", "float", "double"):
                if k.kind == "uint" and k.bits not in (8, 16, 32, 64):
                    return False
                if isinstance(t, m.TRef) and t.name not in m.POSIX and t.name not in ("Float", "Double"):
                    return False
            else:
                return False
        return True

    # --- CCSDS headers

    def make_ccsds(self, mod):
        """Defines Packet-id, Primary and a header; returns their names."""
        r = self.r
        flag = (lambda: m.TBool()) if r.random() < 0.8 else (lambda: m.TInt(0, 1))
        idm = [
            m.Member("packet-version-number", m.TInt(0, 7), self.comment()),
            m.Member("packet-type-is-cmd", flag(), self.comment()),
            m.Member("sec-hdr-flag-is-present", flag(), self.comment()),
            m.Member("application-process-identifier", m.TInt(0, 2047), self.comment()),
        ]
        ident = m.Seq(self.type_name(), idm, self.comment(unit=False))
        self.add(mod, ident)
        prim = m.Seq(
            self.type_name(),
            [m.Member("packet-identification", m.TRef(ident.name), self.comment())]
            + (
                [
                    m.Member("sequence-flags", m.TInt(0, 3), self.comment()),
                    m.Member("sequence-count", m.TInt(0, 16383), self.comment()),
                    m.Member("packet-length", m.TInt(0, 65535), self.comment()),
                ]
                if r.random() < 0.8
                else []
            ),
            self.comment(unit=False),
        )
        self.add(mod, prim)
        mem = [m.Member("primary", m.TRef(prim.name), self.comment())]
        used = {"primary"}
        if r.random() < 0.8:
            if r.random() < 0.5:
                sec = self.make_seq(mod, r.randint(1, 4))
                mem.append(m.Member("secondary", m.TRef(sec.name), self.comment()))
            for _ in range(r.randrange(0, 3)):
                mem.append(m.Member(self.lower(used), self.member_type(mod, True), self.comment()))
        if self.p.aligned:
            mem = self.align(mem, used)
        head = m.Seq(self.type_name(), mem, self.comment(unit=False))
        self.add(mod, head)
        return head

    def primary_values(self, head, used_keys=None, parts=None):
        """A WC for a member of the header type which fixes the message id."""
        r = self.r
        items = []
        prim = self.alldefs[head.members[0].type.name]
        ident = self.alldefs[prim.members[0].type.name]
        ids = []
        for mem in ident.members:
            if r.random() < 0.12:
                continue
            if mem.key == "application-process-identifier":
                v = r.choice([0, 1, 2, 15, 16, 255, 256, 1023, 1024, 2046, 2047, r.randrange(2048), r.randrange(2048)])
                ids.append(m.Comp(mem.key, m.Value(v, self.int_lit(v)), self.comment()))
            else:
                ids.append(m.Comp(mem.key, self.leaf_value(mem.type), self.comment()))
        if not ids:
            return None
        if r.random() < 0.6:
            r.shuffle(ids)
        items.append(
            m.Comp(
                "primary",
                m.WC([m.Comp("packet-identification", m.WC(ids, self.comment()), self.comment())], self.comment()),
                self.comment(),
            )
        )
        rest = self.values(head, used_keys=used_keys)
        if rest:
            items += rest.items
        if r.random() < 0.5:
            r.shuffle(items)
        return m.WC(items, self.comment())

    def make_message(self, mod, head):
        r = self.r
        used = {"primary"}
        used_keys = set() if self.p.unique_wc_keys else None
        htype = head
        wc = self.primary_values(head, used_keys)
        if wc is None:
            return
        # wrap the header into further sequences
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            mk = self.lower(set(used))
            wused = {"primary", mk}
            wmem = [m.Member(mk, m.TRef(htype.name), self.comment())]
            for _ in range(r.randrange(0, 2)):
                wmem.append(m.Member(self.lower(wused), self.member_type(mod, True), self.comment()))
            if self.p.aligned:
                wmem = self.align(wmem, wused)
            w = m.Seq(self.type_name(), wmem, self.comment(unit=False))
            self.add(mod, w)
            htype = w
            wc = m.WC([m.Comp(mk, wc, self.comment())], self.comment())
        members = [m.Member(self.lower(used), m.TRef(htype.name), self.comment(), wc)]
        for _ in range(r.randrange(0, 6)):
            members.append(m.Member(self.lower(used), self.member_type(mod), self.comment()))
        if r.random() < 0.3:
            names = self.visible(mod, lambda d: isinstance(d, m.Seq) and self.leafs[d.name] <= 30)
            if names:
                t = m.TRef(r.choice(names))
                mem = m.Member(self.lower(used), t, self.comment())
                mem.wc = self.values(self.alldefs[t.name], used_keys=used_keys)
                members.append(mem)
        if r.random() < 0.3:
            r.shuffle(members)
        if self.p.aligned:
            members = self.align(members, used)
        self.add(mod, m.Seq(self.type_name(), members, self.comment(unit=False)))

    def make_chain(self, mod, n=None):
        """sequences which each contain the one before"""
        r = self.r
        prev = None
        for _ in range(n or r.choice([5, 8, 12, 16, 20, 25, 30])):
            used = {"primary"}
            t = [self.bin_type(mod) if self.p.posix_only else self.member_type(mod, True) for _ in range(1 if prev and r.random() < 0.7 else 2 if not prev else 0)]
            if prev:
                t.insert(r.choice([0, len(t)]), m.TRef(prev.name))
            members = [m.Member(self.lower(used), x, self.comment()) for x in t]
            if self.p.aligned:
                members = self.align(members, used)
            prev = m.Seq(self.type_name(), members, self.comment(unit=False))
            self.add(mod, prev)
        return prev

    def make_choice(self, mod):
        used = {"primary"}
        n = self.r.randint(1, 5)
        mem = [m.Member(self.lower(used), self.member_type(mod), self.comment()) for _ in range(n)]
        self.add(mod, m.Choice(self.type_name(), mem, self.comment()))

    # --- bundles

    def make(self):
        r, p = self.r, self.p
        n = r.randint(*p.modules)
        if r.random() < p.big:
            n += r.randrange(1, 5)
        if self.huge == "modules" and p.modules[1] > 1:
            n = r.choice([12, 20, 33])
        linked = r.random() < p.module_chain
        if linked:
            n = r.choice([8, 12, 16])
        chained = r.randrange(n) if r.random() < p.chain else None
        self.alldefs = {}
        self.done = []
        names = set()
        wc_on = r.random() >= p.wc_none
        heads = []
        ccsds = wc_on and not p.wc_bin and r.random() < p.ccsds
        for i in range(n):
            mod = m.Module(self.lower(names), [])
            for _ in range(r.randrange(0, 4)):
                self.make_posix(mod)
            if ccsds and (i == 0 or (not heads and i == n - 1)):
                heads.append(self.make_ccsds(mod))
            if i == chained:
                self.make_chain(mod)
            if linked and self.done:
                prev = [d for d in self.done[-1].defs if isinstance(d, m.Seq) and self.leafs[d.name] <= 60]
                if prev and not p.posix_only:
                    self.add(mod, m.Seq(self.type_name(), [m.Member(self.lower(), m.TRef(r.choice(prev).name), self.comment())], self.comment(unit=False)))
            count = r.randint(*p.defs)
            if self.huge == "modules" and n >= 12:
                count = r.randint(1, 3)
            if self.huge == "defs":
                count = r.choice([30, 51, 65, 100]) // min(n, 3)
            for _ in range(count):
                x = r.random()
                if p.enum_bias and r.random() < p.enum_bias:
                    x = 0.3
                if x < 0.2:
                    self.make_simple(mod)
                elif x < 0.38:
                    self.make_enum(mod)
                elif x < 0.38 + p.choice:
                    self.make_choice(mod)
                elif wc_on and x > 1 - 0.6 * p.wc:
                    have = len(mod.defs)
                    if heads and r.random() < 0.6:
                        self.make_message(mod, r.choice(heads))
                    else:
                        self.make_valued_seq(mod)
                    if len(mod.defs) == have:
                        self.make_seq(mod)
                else:
                    self.make_seq(mod)
            if not any(isinstance(d, m.Seq) for d in mod.defs):
                self.make_seq(mod)
            if wc_on and i == n - 1 and p.wc > 0.3:
                if heads:
                    self.make_message(mod, r.choice(heads))
                else:
                    self.make_valued_seq(mod)
            self.done.append(mod)
        for mod in self.done:
            mod.comment = self.comment(unit=False)
            if p.shuffle and r.random() < 0.7:
                if r.random() < 0.3:
                    mod.defs.reverse()
                else:
                    r.shuffle(mod.defs)
        self.bundle = m.Bundle(self.done)
        self.link(self.bundle)
        if p.shuffle and r.random() < 0.7:
            if r.random() < 0.3:
                self.bundle.modules.reverse()
            else:
                r.shuffle(self.bundle.modules)
        return self.bundle

    def link(self, bundle):
        """Computes the import clauses."""
        r = self.r
        order = {mod.name: i for i, mod in enumerate(self.done)}
        for mod in bundle.modules:
            need = []
            for d in mod.defs:
                for name in ref.direct_refs(d):
                    if self.where[name] != mod.name and name not in need:
                        need.append(name)
            extra = int(self.p.extra_imports) + (r.random() < self.p.extra_imports % 1)
            earlier = [x for mm in self.done[: order[mod.name]] for x in mm.defs] if extra else []
            for _ in range(extra if earlier else 0):
                x = r.choice(earlier).name
                if x not in need:
                    need.append(x)
            r.shuffle(need)
            groups = {}
            for name in need:
                groups.setdefault(self.where[name], []).append(name)
            clauses = []
            for mn, names in groups.items():
                if len(names) > 1 and r.random() < 0.15:
                    k = r.randrange(1, len(names))
                    clauses.append(m.Import(names[:k], mn, self.comment(unit=False)))
                    clauses.append(m.Import(names[k:], mn, self.comment(unit=False)))
                else:
                    clauses.append(m.Import(names, mn, self.comment(unit=False)))
            r.shuffle(clauses)
            mod.imports = clauses
            mod.comment_import = self.comment(unit=False) if clauses else None


def bundle(rng, profile=None):
    return Gen(rng, profile).make()
