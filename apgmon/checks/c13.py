"""C13: generated C variables hold exactly the values given in the ASN.1 text."""
import os
import struct

from .. import common, cprobe, gen, model as m, ref
from ..harness import Check, Violation


def fields(seq, defs, vals, path=()):
    """[(path, kind, value or None)] of all leaf fields"""
    out = []
    for mem in seq.members:
        k = ref.resolve(mem.type, defs)
        p = path + (mem.key,)
        if k.kind == "seq":
            out += fields(k.seq, defs, vals, p)
        else:
            out.append((p, k, vals.get(p)))
    return out


def expected(k, v):
    """what the probe prints for a field"""
    if k.kind in ("arr", "str"):
        return "zero"
    if k.kind in ("float", "double"):
        return struct.pack("<f" if k.kind == "float" else "<d", 0 if v is None else v).hex()
    if k.kind == "int":
        return str(v or 0)
    return str(int(v or 0))


HELP = r"""
#include <stdio.h>
#include <string.h>
static void apgmon_hex(const void *p, size_t n) { for (size_t i = 0; i < n; i++) printf("%02x", ((const unsigned char *)p)[i]); printf("\n"); }
static void apgmon_zero(const void *p, size_t n) { size_t i; for (i = 0; i < n && !((const unsigned char *)p)[i]; i++); printf("%s\n", i == n ? "zero" : "not zero"); }
"""


class C13(Check):
    id = "C13"
    rule = (
        "random valid bundles with value lists (several valued members and sequences per module, partial and complete lists, components in any order, nested to any depth and through other modules, "
        "boundary integers, reals in several notations, booleans, enumerations) through the C generator; each source file compiled alone, all in one program under ASan and UBSan which prints every leaf field "
        "of every variable; the symbols of the object file are compared with the sequences with values; distinct by structure digest; non-trivial if a variable was read"
    )
    assumptions = ["gcc 13 on x86-64", "the source files of all modules are compiled as one translation unit, because the generated headers define the variables tentatively"]
    quick = 1000
    thorough = 6000
    required = {"fields_with_value": 4000, "fields_zero": 4000, "variables": 800, "floats": 300, "booleans": 300, "negative": 200, "beyond_32_bits": 100, "sequences_without_variable": 800, "source_files": 500, "variables_used_by_header": 600}

    def case(self, idx, rng, box, stats):
        p = gen.Profile(wc=rng.choice([0.5, 0.9, 1.2]), ccsds=rng.choice([0.0, 0.0, 0.5, 1.0]), comments=rng.choice([0.0, 0.3]), arrays=rng.choice(["c", ""]),
                        wc_none=0.05, wc_bin=rng.random() < 0.15, modules=rng.choice([(1, 1), (1, 4), (3, 6)]))
        b = gen.bundle(rng, p)
        defs = b.defs()
        texts = common.render_all(b, rng)
        out = box.path("out")
        files = common.accept(box, "c", texts, b.names(), stats, outdir=out)
        csrc = [m.cname(n) + ".c" for n in b.names()]
        if any(c not in files for c in csrc):
            raise Violation("source files missing: %s" % [c for c in csrc if c not in files], **common.arts(texts))
        err = cprobe.syntax_many([os.path.join(out, c) for c in csrc], out)
        if err:
            raise Violation("a generated source file does not compile on its own:\n%s" % err, **common.arts(texts))
        stats["source_files"] += len(csrc)
        rng.shuffle(csrc)
        valued = [s for s in b.seqs() if any(x.wc for x in s.members)]
        incl = "".join('#include "%s"\n' % c for c in csrc)
        # variables
        names = {m.cname(m.lowerize(s.name)) for s in valued}
        sym = self.symbols(incl, out, texts)
        if sym != names:
            raise Violation("variables without values: %s; missing: %s" % (sorted(sym - names)[:8], sorted(names - sym)[:8]), **common.arts(texts))
        stats["variables"] += len(names)
        stats["sequences_without_variable"] += len(b.seqs()) - len(names)
        # another source file which includes a header can use the variables of that module
        users = []
        for i, mod in enumerate(b.modules):
            own = [d for d in mod.defs if d in valued]
            if own and len(users) < 4:
                users.append(os.path.join(out, "apgmon_use%d.c" % i))
                with open(users[-1], "w") as f:
                    f.write('#include "%s.h"\n' % m.cname(mod.name))
                    f.write("".join("const void *apgmon_p%d(void) { %s *p = &%s; return p; }\n" % (n, m.cname(d.name), m.cname(m.lowerize(d.name))) for n, d in enumerate(own)))
                stats["variables_used_by_header"] += len(own)
        err = cprobe.syntax_many(users, out) if users else None
        if err:
            raise Violation("a header does not declare the variables of its module:\n%s" % err, **common.arts(texts))
        # values
        src = [incl, HELP]
        plan = []
        for n, s in enumerate(valued):
            var = m.cname(m.lowerize(s.name))
            body = ['  (void)sizeof(char[__builtin_types_compatible_p(__typeof__(%s), %s) ? 1 : -1]);' % (var, m.cname(s.name))]
            for path, k, v in fields(s, defs, ref.leaf_values(s)):
                e = var + "".join("." + m.cname(x) for x in path)
                if k.kind in ("arr", "str"):
                    body.append("  apgmon_zero(&%s, sizeof(%s));" % (e, e))
                elif k.kind in ("float", "double"):
                    body.append("  { %s apgmon_x = %s; apgmon_hex(&apgmon_x, sizeof apgmon_x); }" % (k.kind, e))
                elif k.kind == "int":
                    body.append('  printf("%%lld\\n", (long long)%s);' % e)
                else:
                    body.append('  printf("%%llu\\n", (unsigned long long)%s);' % e)
                plan.append((s.name, path, k, v))
            src.append("static void apgmon_v%d(void)\n{\n%s\n}" % (n, "\n".join(body)))
        src.append("int main(void)\n{\n%s  puts(\"END\");\n  return 0;\n}\n" % "".join("  apgmon_v%d();\n" % i for i in range(len(valued))))
        ok, text = cprobe.build_and_run("\n".join(src), out)
        if not ok:
            raise Violation("the source files compiled together: %s" % text, **common.arts(texts))
        got = text.split("\n")
        if len(got) < len(plan) + 1 or got[len(plan)] != "END":
            raise Violation("the probe program did not finish", **common.arts(texts))
        for g, (name, path, k, v) in zip(got, plan):
            e = expected(k, v)
            if g != e:
                raise Violation("%s.%s: %s, expected %s (value %r)" % (name, ".".join(path), g, e, v), **common.arts(texts, sources={c: files[c].decode("utf8", "replace") for c in csrc}))
            stats["fields_zero" if v is None else "fields_with_value"] += 1
            if v is not None:
                stats["floats"] += k.kind in ("float", "double")
                stats["booleans"] += k.kind == "bool"
                stats["enumerations"] += k.kind == "enum"
                if k.kind in ("int", "uint"):
                    stats["negative"] += v < 0
                    stats["beyond_32_bits"] += v >= 2**32
                stats["depth_%d" % min(len(path), 5)] += 1
        return common.feature_key(b), files[csrc[0]].decode("utf8", "replace")[:1200] if idx < 8 else None

    def symbols(self, incl, out, texts):
        src, obj = os.path.join(out, "apgmon_sym.c"), os.path.join(out, "apgmon_sym.o")
        with open(src, "w") as f:
            f.write(incl)
        r = cprobe._run([cprobe.CC] + cprobe.BASE + ["-c", "-o", obj, src], out)
        if r.returncode:
            raise Violation("the source files compiled together: %s" % r.stdout.decode("utf8", "replace")[:1500], **common.arts(texts))
        r = cprobe._run(["nm", "--defined-only", obj], out)
        return {p[2] for p in (x.split() for x in r.stdout.decode().splitlines()) if len(p) == 3 and p[1].upper() in "BDCRGSV"}


CHECK = C13
