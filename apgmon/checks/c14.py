"""C14: binary files are the memory image of the struct in the chosen byte order."""
import os
import struct

from .. import common, cprobe, gen, model as m, ref
from ..harness import Check, Violation
from . import c13


def bin_name(seq):
    return m.lowerize(m.cname(seq.name)) + ".bin"


def comps(seq, defs):
    """[(WC, index, kind of the component)] of all value lists of a sequence, nested ones included"""
    out = []

    def walk(s, wc):
        for i, c in enumerate(wc.items):
            k = ref.resolve(next(x for x in s.members if x.key == c.key).type, defs)
            out.append((wc, i, k))
            if isinstance(c.value, m.WC):
                walk(k.seq, c.value)

    for mem in seq.members:
        if mem.wc:
            walk(ref.resolve(mem.type, defs).seq, mem.wc)
    return out


def misfit(rng, k):
    """a Value which does not fit the field"""
    if k.kind == "uint":
        v = rng.choice([2**k.bits, 2**k.bits + rng.randrange(1000), -1, -rng.randrange(1, 2**k.bits), 2 ** (k.bits * 2)])
        return m.Value(v, str(v))
    if k.kind == "int":
        h = 2 ** (k.bits - 1)
        v = rng.choice([h, -h - 1, 2 * h - 1, 2 * h, -2 * h, 2**64 + 1])
        return m.Value(v, str(v))
    if k.kind == "float":
        v = rng.choice([3.5e38, -3.5e38, 1e39, 1e300])
        return m.Value(v, repr(v))
    return None


class C14(Check):
    id = "C14"
    rule = (
        "random bundles of sequences with complete value lists (fields of 8-64 bit integers, floats and doubles at and around their limits, nested sequences, several valued members, "
        "components in any order) through the binary generator in both byte orders; every binary file compared with the reference image, and read back through the compiled generated struct under ASan and UBSan; "
        "the same bundles with one component removed or one value beyond its field must be refused; distinct by structure digest; non-trivial if a file was compared or a bundle refused"
    )
    assumptions = ["big-endian images are compared with the reference, read back by the struct only in the byte order of this machine", "values of reals are rounded to the nearest float"]
    quick = 1200
    thorough = 8000
    required = {"files_compared": 600, "fields_read_back": 2000, "big_endian": 200, "little_endian": 200, "refused_incomplete": 60, "refused_misfit": 60, "floats": 200, "doubles": 100, "negative": 100}

    def case(self, idx, rng, box, stats):
        for _ in range(10):
            p = gen.Profile(wc=1.2, wc_bin=True, posix_only=rng.random() < 0.9, comments=rng.choice([0.0, 0.3]), arrays="", modules=rng.choice([(1, 1), (1, 3)]), defs=rng.choice([(3, 8), (4, 12)]), big=0.02)
            b = gen.bundle(rng, p)
            if common.binary_supported(b) and common.wc_paths(b):
                break
        else:
            return None, None
        defs = b.defs()
        valued = [s for s in b.seqs() if any(x.wc for x in s.members)]
        order = rng.choice(["little-endian", "big-endian"])
        if rng.random() < 0.3:
            return self.refuse(idx, rng, box, stats, b, defs, valued, order)
        texts = common.render_all(b, rng)
        out = box.path("out")
        files = common.accept(box, "binary", texts, b.names(), stats, outdir=out, endianness=order)
        full = [s for s in valued if all(x.wc for x in s.members)]
        for s in valued:
            n = bin_name(s)
            if n not in files:
                raise Violation("no binary file %s" % n, **common.arts(texts))
        for s in full:
            n = bin_name(s)
            want = ref.binary_image(s, defs, order)
            if files[n] != want:
                raise Violation("%s (%s):\n%s, expected\n%s" % (n, order, files[n].hex(), want.hex()), **common.arts(texts))
            stats["files_compared"] += 1
            stats["bytes_compared"] += len(want)
            stats[order.replace("-", "_")] += 1
        # the generated struct
        heads = sorted(f for f in files if f.endswith(".h"))
        rng.shuffle(heads)
        src = ["".join('#include "%s"\n' % h for h in heads), c13.HELP]
        plan = []
        for i, s in enumerate(full):
            T = m.cname(s.name)
            body = ["  %s v; memset(&v, 0x5a, sizeof v);" % T, '  printf("%ld\\n", (long)sizeof v);', '  FILE *f = fopen("%s", "rb"); if (!f || fread(&v, 1, sizeof v, f) != sizeof v) { puts("short"); return; } fclose(f);' % bin_name(s)]
            plan.append((s.name, (), None, len(files[bin_name(s)])))
            if order == "little-endian":
                for path, k, v in c13.fields(s, defs, ref.leaf_values(s)):
                    e = "v" + "".join("." + m.cname(x) for x in path)
                    if k.kind in ("float", "double"):
                        body.append("  { %s apgmon_x = %s; apgmon_hex(&apgmon_x, sizeof apgmon_x); }" % (k.kind, e))
                    elif k.kind == "int":
                        body.append('  printf("%%lld\\n", (long long)%s);' % e)
                    else:
                        body.append('  printf("%%llu\\n", (unsigned long long)%s);' % e)
                    plan.append((s.name, path, k, v))
            src.append("static void apgmon_v%d(void)\n{\n%s\n}" % (i, "\n".join(body)))
        src.append("int main(void)\n{\n%s  puts(\"END\");\n  return 0;\n}\n" % "".join("  apgmon_v%d();\n" % i for i in range(len(full))))
        ok, text = cprobe.build_and_run("\n".join(src), out)
        if not ok:
            raise Violation("the generated headers: %s" % text, **common.arts(texts))
        got = text.split("\n")
        for g, (name, path, k, v) in zip(got, plan):
            e = str(v) if k is None else c13.expected(k, v)
            if g != e and not (k and k.kind in ("float", "double") and float(v) == 0 and g.strip("0") in ("", "8")):
                what = "size of the struct" if k is None else "." + ".".join(path)
                raise Violation("%s (%s), read into the struct: %s is %s, expected %s" % (name, order, what, g, e), **common.arts(texts))
            if k is not None:
                stats["fields_read_back"] += 1
                stats["floats"] += k.kind == "float"
                stats["doubles"] += k.kind == "double"
                stats["negative"] += v < 0
        if got[len(plan)] != "END":
            raise Violation("a binary file is shorter than its struct", **common.arts(texts))
        return common.feature_key(b) + order[0], texts[0][1][:1200] if idx < 8 else None

    def refuse(self, idx, rng, box, stats, b, defs, valued, order):
        s = rng.choice(valued)
        cs = comps(s, defs)
        if rng.random() < 0.5:
            cand = [(wc, i) for wc, i, _ in cs if len(wc.items) > 1]
            if not cand:
                return None, None
            wc, i = rng.choice(cand)
            why = "the values of %s leave out %s" % (s.name, wc.items[i].key)
            del wc.items[i]
            kind = "refused_incomplete"
        else:
            cand = [(wc, i, k) for wc, i, k in cs if k.kind in ("uint", "int", "float")]
            if not cand:
                return None, None
            wc, i, k = rng.choice(cand)
            v = misfit(rng, k)
            why = "value %s of %s in %s does not fit %d bits (%s)" % (v.lit, wc.items[i].key, s.name, k.bits, k.kind)
            wc.items[i].value = v
            kind = "refused_misfit"
        texts = common.render_all(b, rng)
        out = box.path("out")
        inputs = box.write_inputs(texts)
        a = common.argv("binary", inputs, b.names(), out, endianness=order)
        r = box.run(a)
        if r.ok:
            raise Violation("generate-binary accepts: %s" % why, **common.arts(texts, argv=a))
        if os.path.lexists(os.path.join(out, bin_name(s))):
            raise Violation("generate-binary refuses (%s) but leaves %s" % (why, bin_name(s)), **common.arts(texts, argv=a))
        stats[kind] += 1
        return common.feature_key(b) + kind + order[0], None


CHECK = C14
