"""Compiles generated C with sanitizers and reads back what a program sees."""
import os
import re
import signal
import subprocess

from . import model as m
from . import ref
from .runner import Inconclusive

CC = "gcc"
BASE = ["-std=gnu11", "-w", "-fmax-errors=5"]
SAN = ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99", "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=0"}


def _run(cmd, cwd, timeout=300, env=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Inconclusive("compiler or probe timed out")


def syntax(path):
    """None, or the compiler's message"""
    r = _run([CC] + BASE + ["-fsyntax-only", "-x", "c", path], os.path.dirname(path))
    return None if r.returncode == 0 else r.stdout.decode("utf8", "replace")[:1500]


def syntax_many(paths, cwd):
    """compiles each file as a translation unit of its own"""
    if not paths:
        return None
    r = _run([CC] + BASE + ["-fsyntax-only", "-x", "c"] + paths, cwd)
    return None if r.returncode == 0 else r.stdout.decode("utf8", "replace")[:1500]


def build_and_run(source, cwd, name="probe"):
    """(ok, output): compiles with sanitizers and runs"""
    src = os.path.join(cwd, name + "_main.c")
    exe = os.path.join(cwd, name + ".exe")
    with open(src, "w") as f:
        f.write(source)
    r = _run([CC] + BASE + SAN + ["-I", cwd, "-o", exe, src, "-lm"], cwd)
    if r.returncode != 0:
        return False, "compile: " + r.stdout.decode("utf8", "replace")[:1500]
    r = _run([exe], cwd, env=ENV)
    os.unlink(exe)
    if r.returncode != 0:
        return False, "run (%d): %s" % (r.returncode, r.stdout.decode("utf8", "replace")[-1500:])
    return True, r.stdout.decode("utf8", "replace")


def macros(path):
    """{name: replacement} defined by a header (and what it includes)"""
    d = os.path.dirname(path)
    r = _run([CC] + BASE + ["-dM", "-E", "-x", "c", path], d)
    if r.returncode:
        return None, r.stdout.decode("utf8", "replace")[:1000]
    e = _run([CC] + BASE + ["-dM", "-E", "-x", "c", "/dev/null"], d)
    pre = set(e.stdout.decode().splitlines())
    out = {}
    for line in r.stdout.decode().splitlines():
        if line in pre:
            continue
        mt = re.match(r"#define (\w+)(\(.*?\))? ?(.*)$", line)
        # a replacement which starts with "(" follows a blank
        mt = re.match(r"#define (\w+)(?: (.*))?$", line)
        if mt:
            out[mt.group(1)] = mt.group(2) or ""
        else:
            out[line] = ""
    return out, None


PRELUDE = r"""
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <string.h>
#include <stddef.h>
"""

# prints: first bit, number of bits, whether they are contiguous
HELP = r"""
static void apgmon_bits(const char *tag, const char *s, const char *f, const unsigned char *p, size_t n, int neg)
{
  long first = -1, last = -1, cnt = 0;
  for (size_t i = 0; i < n * 8; i++)
    if (p[i / 8] >> (i % 8) & 1) { if (first < 0) first = (long)i; last = (long)i; cnt++; }
  printf("%s %s %s %ld %ld %d %d\n", tag, s, f, first, cnt, (int)(last - first + 1 == cnt), neg);
}
static volatile long long apgmon_ones = -1;
#define APGMON_BF(S, F) do { memset(&x, 0, sizeof x); x.F = apgmon_ones; \
  apgmon_bits("B", #S, #F, (const unsigned char *)&x, sizeof x, x.F < 0); } while (0)
#define APGMON_KIND(e) _Generic((e), float: 1, double: 2, char: 3, signed char: 4, unsigned char: 5, short: 6, unsigned short: 7, \
  int: 8, unsigned: 9, long: 10, unsigned long: 11, long long: 12, unsigned long long: 13, default: 0)
#define APGMON_SC(S, F) do { memset(&x, 0, sizeof x); \
  printf("S %s %s %ld %ld %d\n", #S, #F, (long)((char *)&x.F - (char *)&x) * 8, (long)sizeof(x.F) * 8, APGMON_KIND(x.F)); } while (0)
#define APGMON_AR(S, F, N0) do { memset(&x, 0, sizeof x); \
  printf("A %s %s %ld %ld %ld %d\n", #S, #F, (long)((char *)&x.F - (char *)&x) * 8, (long)sizeof(x.F) * 8, \
  (long)sizeof(x.F[0]) * 8, APGMON_KIND(x.F N0)); } while (0)
#define APGMON_NS(S, F, T) do { memset(&x, 0, sizeof x); \
  printf("N %s %s %ld %ld %d\n", #S, #F, (long)((char *)&x.F - (char *)&x) * 8, (long)sizeof(x.F) * 8, \
  (int)__builtin_types_compatible_p(__typeof__(x.F), T)); } while (0)
#define APGMON_NA(S, F, T) do { memset(&x, 0, sizeof x); \
  printf("M %s %s %ld %ld %ld %d\n", #S, #F, (long)((char *)&x.F - (char *)&x) * 8, (long)sizeof(x.F) * 8, \
  (long)sizeof(x.F[0]) * 8, (int)__builtin_types_compatible_p(__typeof__(x.F[0]), T)); } while (0)
"""


def layout_source(bundle, headers, after_includes=True):
    """A program which prints the layout of all sequences and the values of all
    enumerators.  headers: file names to include."""
    defs = bundle.defs()
    out = ["#include \"%s\"" % h for h in headers]
    out.append(PRELUDE)
    out.append(HELP)
    funcs = []
    n = 0
    for mod in bundle.modules:
        for d in mod.defs:
            body = []
            if isinstance(d, m.Enum):
                for it in d.items:
                    body.append('printf("E %s %s %%lld\\n", (long long)%s);' % (m.cname(d.name), m.cname(it.key), m.cname(it.key)))
                body.append('printf("Z %s %%ld\\n", (long)sizeof(%s) * 8);' % (m.cname(d.name), m.cname(d.name)))
                # the type of the enumeration holds every item
                for it in d.items:
                    body.append(
                        '{ %s v = %s; if ((long long)v != (long long)%s) printf("H %s %s\\n"); }'
                        % (m.cname(d.name), m.cname(it.key), m.cname(it.key), m.cname(d.name), m.cname(it.key))
                    )
            elif isinstance(d, m.Seq):
                S = m.cname(d.name)
                body.append("static %s x;" % S)
                body.append('printf("T %s %%ld\\n", (long)sizeof(%s) * 8);' % (S, S))
                for mem in d.members:
                    k = ref.resolve(mem.type, defs)
                    F = m.cname(mem.key)
                    if ref.is_bitfield(k):
                        body.append("APGMON_BF(%s, %s);" % (S, F))
                    elif k.kind == "str":
                        body.append("APGMON_AR(%s, %s, [0]);" % (S, F))
                    elif k.kind == "seq":
                        body.append("APGMON_NS(%s, %s, %s);" % (S, F, m.cname(k.seq.name)))
                    elif k.kind == "arr":
                        if k.elem.kind == "seq":
                            body.append("APGMON_NA(%s, %s, %s);" % (S, F, m.cname(k.elem.seq.name)))
                        elif k.elem.kind == "str":
                            body.append("APGMON_AR(%s, %s, [0][0]);" % (S, F))
                        else:
                            body.append("APGMON_AR(%s, %s, [0]);" % (S, F))
                    else:
                        body.append("APGMON_SC(%s, %s);" % (S, F))
            if body:
                funcs.append("apgmon_f%d" % n)
                out.append("static void apgmon_f%d(void)\n{\n  %s\n}" % (n, "\n  ".join(body)))
                n += 1
    out.append("int main(void)\n{\n%s\n  puts(\"END\");\n  return 0;\n}" % "\n".join("  %s();" % f for f in funcs))
    return "\n".join(out) + "\n"


SCALAR_KIND = {
    ("float", 32): (1,),
    ("double", 64): (2,),
    ("int", 8): (4,),
    ("int", 16): (6,),
    ("int", 32): (8,),
    ("int", 64): (10, 12),
    ("uint", 8): (5,),
    ("uint", 16): (7,),
    ("uint", 32): (9,),
    ("uint", 64): (11, 13),
}
CHAR_KIND = (3,)


def parse_layout(text):
    """{"size": {S: bits}, "field": {(S, F): (tag, numbers...)}, "enum": {E: {label: value}}, "esize": {E: bits}}"""
    res = {"size": {}, "field": {}, "enum": {}, "esize": {}, "lost": []}
    lines = text.splitlines()
    if not lines or lines[-1] != "END":
        return None
    for line in lines:
        p = line.split()
        if p[0] == "T":
            res["size"][p[1]] = int(p[2])
        elif p[0] == "E":
            res["enum"].setdefault(p[1], {})[p[2]] = int(p[3])
        elif p[0] == "Z":
            res["esize"][p[1]] = int(p[2])
        elif p[0] == "H":
            res["lost"].append((p[1], p[2]))
        elif p[0] in "BSANM":
            res["field"][(p[1], p[2])] = (p[0],) + tuple(int(x) for x in p[3:])
    return res


def expected_layout(bundle):
    """the same structure from the reference; kinds as tuples of allowed codes"""
    lay = ref.Layout(bundle)
    res = {"size": {}, "field": {}, "enum": {}, "esize": {}, "lost": []}
    for mod in bundle.modules:
        for d in mod.defs:
            if isinstance(d, m.Enum):
                res["enum"][m.cname(d.name)] = {m.cname(k): v for k, v in ref.numbered(d)}
            elif isinstance(d, m.Seq):
                fields, total = lay.seq(d)
                S = m.cname(d.name)
                res["size"][S] = total
                for f in fields:
                    k = f.kind
                    key = (S, f.name)
                    if ref.is_bitfield(k):
                        res["field"][key] = ("B", f.offset, k.bits, 1, 0)
                    elif k.kind == "str":
                        res["field"][key] = ("A", f.offset, f.bits, 8, CHAR_KIND)
                    elif k.kind == "seq":
                        res["field"][key] = ("N", f.offset, f.bits, 1)
                    elif k.kind == "arr":
                        eb = lay.bits_of(k.elem)
                        if k.elem.kind == "seq":
                            res["field"][key] = ("M", f.offset, f.bits, eb, 1)
                        elif k.elem.kind == "str":
                            res["field"][key] = ("A", f.offset, f.bits, eb, CHAR_KIND)
                        else:
                            res["field"][key] = ("A", f.offset, f.bits, eb, SCALAR_KIND[(k.elem.kind, eb)])
                    else:
                        res["field"][key] = ("S", f.offset, f.bits, SCALAR_KIND[(k.kind, k.bits)])
    return res


def compare_layout(got, exp):
    """list of differences"""
    out = []
    for S, n in exp["size"].items():
        if got["size"].get(S) != n:
            out.append("size of %s: %s bits, expected %s" % (S, got["size"].get(S), n))
    for key, e in exp["field"].items():
        g = got["field"].get(key)
        same = g is not None and len(g) == len(e) and all((x in y) if isinstance(y, tuple) else x == y for x, y in zip(g, e))
        if not same:
            out.append("%s.%s: measured %s, expected %s (tag, first bit, bits, ...)" % (key[0], key[1], g, e))
    for E, items in exp["enum"].items():
        if got["enum"].get(E) != items:
            out.append("enum %s: %s, expected %s" % (E, got["enum"].get(E), items))
    for E, label in got["lost"]:
        out.append("enum %s does not hold %s" % (E, label))
    return out


# --- lexer: separates comments from code

LEX = re.compile(
    r"""(?P<block>/\*.*?\*/)|(?P<line>//[^\n]*)|(?P<str>"(?:\\.|[^"\\\n])*")|(?P<chr>'(?:\\.|[^'\\\n])*')"""
    r"""|(?P<pp>^[ \t]*\#[^\n]*)|(?P<word>\w+)|(?P<ws>\s+)|(?P<op>.)""",
    re.S | re.M | re.X,
)


def lex(text):
    """[(kind, text)] without whitespace; preprocessor lines are one token.
    A comment inside of a preprocessor line is split off."""
    out = []
    pos = 0
    while pos < len(text):
        mt = LEX.match(text, pos)
        k = mt.lastgroup
        s = mt.group(0)
        if k == "pp":
            # cut at a comment
            cut = re.search(r"//|/\*", re.sub(r'"(?:\\.|[^"\\\n])*"', lambda x: "_" * len(x.group(0)), s))
            if cut:
                s = s[: cut.start()]
            out.append(("pp", " ".join(s.split())))
            pos += len(s)
            continue
        if k != "ws":
            out.append((k, s))
        pos = mt.end()
    return out


def code_tokens(text):
    return [t for t in lex(text) if t[0] not in ("block", "line")]
