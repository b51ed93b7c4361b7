"""C09: generated headers compile, alone and together, with the specified layout."""
import os

from .. import common, cprobe, gen, model as m
from ..harness import Check, Violation


class C09(Check):
    id = "C09"
    rule = (
        "random valid bundles (1-8 modules, random import graph, definition and file order, all supported member types, "
        "bounds at and around powers of two, comments, value lists) through the cFS, C and binary generators; every header compiled alone, "
        "all together in random order, and every member of every struct located at run time by setting it to all ones under ASan and UBSan; "
        "a case counts as distinct by the digest of its structure and is non-trivial if at least one member was located"
    )
    assumptions = [
        "gcc 13 on x86-64 defines the layout of packed structs with bit fields",
        "reference layout in apgmon/ref.py",
        "choices and arrays of strings, arrays, bit fields, booleans and enumerations are outside of the statement (known findings)",
    ]
    quick = 900
    thorough = 4000
    required = {"members_located": 2000, "headers_compiled_alone": 300, "structs_measured": 500, "enumerators_read": 300}

    def case(self, idx, rng, box, stats):
        wcmode = rng.choice(["none", "bin", "any", "any"])
        p = gen.Profile(
            wc_none=1.0 if wcmode == "none" else 0.0,
            wc_bin=wcmode == "bin",
            posix_only=wcmode == "bin" and rng.random() < 0.5,
            arrays="c",
            comments=rng.choice([0.0, 0.2, 0.6]),
        )
        if rng.random() < 0.06:
            p.members = (10, 40)
        if rng.random() < 0.06:
            p.defs = (10, 25)
        b = gen.bundle(rng, p)
        texts = common.render_all(b, rng)
        inputs = box.write_inputs(texts)
        gens = ["cfs", "c"]
        if common.binary_supported(b):
            gens.append("binary")
        g = rng.choice(gens + ["cfs"])
        exp = cprobe.expected_layout(b)
        # one generator per case in detail, keeps the number of bundles high
        out = box.path("out")
        files = common.accept(box, g, texts, b.names(), stats, outdir=out, inputs=inputs)
        headers = sorted(f for f in files if f.endswith(".h"))
        main = [h for h in headers if g != "cfs" or not h.endswith("_msgids.h")]
        want = {m.cname(n) + ("_msg.h" if g == "cfs" else ".h") for n in b.names()}
        if not want <= set(headers):
            raise Violation("headers missing: %s" % sorted(want - set(headers)), **common.arts(texts, generator=g))
        err = cprobe.syntax_many([os.path.join(out, h) for h in headers], out)
        if err:
            raise Violation("a header generated by generate-%s does not compile on its own:\n%s" % (g, err), **common.arts(texts, generator=g))
        stats["headers_compiled_alone"] += len(headers)
        order = headers[:]
        rng.shuffle(order)
        ok, text = cprobe.build_and_run(cprobe.layout_source(b, order), out)
        if not ok:
            raise Violation("headers of generate-%s included in the order %s: %s" % (g, order, text), **common.arts(texts, generator=g))
        got = cprobe.parse_layout(text)
        if got is None:
            raise Violation("the probe program did not finish:\n" + text[-500:], **common.arts(texts, generator=g))
        diff = cprobe.compare_layout(got, exp)
        if diff:
            raise Violation("layout of generate-%s:\n%s" % (g, "\n".join(diff[:10])), **common.arts(texts, generator=g))
        stats["members_located"] += len(exp["field"])
        stats["structs_measured"] += len(exp["size"])
        stats["enumerators_read"] += sum(len(v) for v in exp["enum"].values())
        stats["probes_" + g] += 1
        stats["modules"] += len(b.modules)
        for key, e in exp["field"].items():
            stats["located_" + {"B": "bitfields", "S": "scalars", "A": "arrays", "N": "nested", "M": "nested_arrays"}[e[0]]] += 1
        return common.feature_key(b) + g, texts[0][1][:1500] if idx < 8 else None


CHECK = C09
