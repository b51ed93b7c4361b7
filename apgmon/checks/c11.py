"""C11: cFS structs and COSMOS packets of the same message agree."""
import os
from dataclasses import dataclass
from typing import Any

from .. import common, cosmos, cprobe, gen, model as m, ref
from ..harness import Check, Violation
from . import c10

UNSIGNED, SIGNED, FLOATS, CHARS = (5, 7, 9, 11, 13), (4, 6, 8, 10, 12), (1, 2), (3,)


@dataclass
class Leaf:
    key: str
    kind: Any
    cpath: tuple  # ((struct, field), ...)
    owner: Any  # sequence whose value list gives the value, or None
    prim: Any  # identifies the primary header this leaf belongs to, or None


def leaves(seq, defs, cpath=(), given=None, prim=None):
    """given: {key: (value, owner, primary)}"""
    out = []
    given = given or {}
    for mem in seq.members:
        k = ref.resolve(mem.type, defs)
        step = cpath + ((m.cname(seq.name), m.cname(mem.key)),)
        v = given.get(mem.key)
        if k.kind == "seq":
            inner = {}
            if mem.wc:
                for c in mem.wc.items:
                    inner[c.key] = (c.value, seq, (seq.name, step) if c.key == "primary" else None)
            if v and isinstance(v[0], m.WC):
                for c in v[0].items:
                    inner[c.key] = (c.value, v[1], v[2] or ((v[1].name, step) if c.key == "primary" else None))
            out += leaves(k.seq, defs, step, inner)
        else:
            ok = v is not None and isinstance(v[0], m.Value) and k.kind != "arr"
            out.append(Leaf(mem.key, k, step, v[1] if ok else None, v[2] if ok else None))
    return out


class C11(Check):
    id = "C11"
    rule = (
        "random valid bundles, half of them with bit fields padded to whole bytes; every field of every message located in the compiled cFS struct under ASan and UBSan, the macros of the message id "
        "headers evaluated by the preprocessor, and both compared field by field with the parsed COSMOS packet; distinct by structure digest; non-trivial if a field was compared"
    )
    assumptions = ["gcc 13 on x86-64", "bit positions count from the first bit of the struct in the order of the bit fields", "arrays of sequences and of bit fields are known findings and not generated"]
    quick = 600
    thorough = 6000
    required = {"fields_compared": 4000, "offsets_compared": 1500, "ids_compared": 300, "mids_compared": 60, "enum_values_compared": 500, "arrays_compared": 50, "packets_aligned": 150}

    def case(self, idx, rng, box, stats):
        aligned = rng.random() < 0.55
        p = gen.Profile(arrays="both", aligned=aligned, comments=rng.choice([0.0, 0.3]), wc=rng.choice([0.4, 0.8]), ccsds=rng.choice([0.0, 1.0]), unique_wc_keys=True)
        if rng.random() < 0.1:
            p.members = (8, 25)
        b = gen.bundle(rng, p)
        defs = b.defs()
        texts = common.render_all(b, rng)
        inputs = box.write_inputs(texts)
        out = box.path("out")
        files = common.accept(box, "cfs", texts, b.names(), stats, outdir=out, inputs=inputs)
        heads = sorted(f for f in files if f.endswith("_msg.h"))
        ok, text = cprobe.build_and_run(cprobe.layout_source(b, heads), out)
        if not ok:
            raise Violation("cFS headers: %s" % text, **common.arts(texts))
        lay = cprobe.parse_layout(text)
        if lay is None:
            raise Violation("the probe program did not finish", **common.arts(texts))
        macros = {}
        for mod in b.modules:
            mac, err = cprobe.macros(os.path.join(out, m.cname(mod.name) + "_msgids.h"))
            if mac is None:
                raise Violation("message id header: %s" % err, **common.arts(texts))
            macros.update(mac)
        where = {d.name: mod.name for mod in b.modules for d in mod.defs}
        for mod in b.modules:
            seqs = [d for d in mod.defs if isinstance(d, m.Seq)]
            if not seqs:
                continue
            rng.shuffle(seqs)
            cf = common.accept(box, "cosmos", texts, b.names(), stats, module=mod.name, messages=[s.name for s in seqs], inputs=inputs)
            ctext, pks = c10.read(cf, "tlm", texts)
            if [x.name for x in pks] != [s.name for s in seqs]:
                raise Violation("packets %s, requested %s" % ([x.name for x in pks], [s.name for s in seqs]), **common.arts(texts))
            for pk, seq in zip(pks, seqs):
                d = self.compare(pk, seq, defs, lay, macros, stats)
                if d:
                    raise Violation("message %s of module %s: cFS and COSMOS differ:\n%s" % (seq.name, mod.name, "\n".join(d[:8])), **common.arts(texts, output=ctext))
                stats["packets"] += 1
        return common.feature_key(b), texts[0][1][:1200] if idx < 8 else None

    def compare(self, pk, seq, defs, lay, macros, stats):
        out = []
        ls = leaves(seq, defs)
        if len(ls) != len(pk.items):
            return ["%d fields in the struct, %d items in the packet" % (len(ls), len(pk.items))]
        cosmos_off = 0
        aligned = self.whole_bytes(seq, defs)
        mids = {}
        for leaf, it in zip(ls, pk.items):
            name = ".".join(x[1] for x in leaf.cpath)
            f = [lay["field"].get(x) for x in leaf.cpath]
            if any(x is None for x in f):
                out.append("%s: not in the struct" % name)
                continue
            off = sum(x[1] for x in f)
            last = f[-1]
            if m.cname(it.name) != leaf.cpath[-1][1]:
                out.append("%s: called %s in COSMOS" % (name, it.name))
            bits, code, total = it.bits, None, None
            if it.kw == "APPEND_ARRAY_ITEM":
                total = int(it.value)
                stats["arrays_compared"] += 1
            cn = 1
            if last[0] == "B":
                cbits, ctotal = last[2], last[2]
                ctype = "INT" if last[4] else "UINT"
            elif last[0] == "A":
                ctotal = last[2]
                if leaf.kind.kind == "str":
                    cbits, ctype = last[2], "STRING" if last[4] in CHARS else "?"
                else:
                    cbits = last[3]
                    ctype = self.ctype(last[4])
            else:
                cbits = ctotal = last[2]
                ctype = self.ctype(last[3])
            if leaf.kind.kind == "arr" and total is None:
                out.append("%s: an array in C but %s in COSMOS" % (name, it.kw))
            if (cbits, ctotal, ctype) != (bits, total or bits, it.type):
                out.append("%s: %d bits (%d in total) %s in C, %d (%d) %s in COSMOS" % (name, cbits, ctotal, ctype, bits, total or bits, it.type))
            stats["fields_compared"] += 1
            if aligned:
                if off != cosmos_off:
                    out.append("%s: starts at bit %d of the struct and at bit %d of the packet" % (name, off, cosmos_off))
                stats["offsets_compared"] += 1
            cosmos_off += total or bits
            base = leaf.kind.elem if leaf.kind.kind == "arr" else leaf.kind
            if base.kind == "enum":
                e = lay["enum"].get(m.cname(base.enum.name))
                st = {m.cname(a): v for a, v in it.states}
                if e != st:
                    out.append("%s: enumeration %s in C, states %s in COSMOS" % (name, e, st))
                stats["enum_values_compared"] += len(st)
            # ids
            if leaf.owner is None:
                if it.kw == "APPEND_ID_ITEM":
                    out.append("%s: id item without a value" % name)
                continue
            if it.kw != "APPEND_ID_ITEM":
                out.append("%s: %s has a value, but it is no id item" % (name, leaf.owner.name))
                continue
            try:
                v = cosmos.number(it.value)
            except ValueError:
                out.append("%s: value %r" % (name, it.value))
                continue
            if leaf.prim:
                mids.setdefault(leaf.prim, {})[leaf.key] = v
                continue
            macro = (m.cname(leaf.owner.name) + "_" + m.cname(leaf.key)).upper()
            mv = self.value(macros.get(macro))
            if mv is None or mv != v:
                out.append("%s: %s in COSMOS, macro %s is %s" % (name, it.value, macro, macros.get(macro)))
            stats["ids_compared"] += 1
        for (owner, _), v in mids.items():
            macro = m.cname(owner).upper() + "_MID"
            mid = (
                v.get("packet-version-number", 0) * 8192 + v.get("packet-type-is-cmd", 0) * 4096
                + v.get("sec-hdr-flag-is-present", 0) * 2048 + v.get("application-process-identifier", 0)
            )
            if self.value(macros.get(macro)) != mid:
                out.append("%s is %s, the id items of COSMOS give 0x%04X" % (macro, macros.get(macro), mid))
            stats["mids_compared"] += 1
        if aligned:
            if lay["size"].get(m.cname(seq.name)) != cosmos_off:
                out.append("struct of %s bits, packet of %d bits" % (lay["size"].get(m.cname(seq.name)), cosmos_off))
            stats["packets_aligned"] += 1
        return out

    def ctype(self, code):
        return "UINT" if code in UNSIGNED else "INT" if code in SIGNED else "FLOAT" if code in FLOATS else "STRING" if code in CHARS else "?"

    def value(self, text):
        if text is None:
            return None
        t = text.strip()
        while t.startswith("(") and t.endswith(")"):
            t = t[1:-1].strip()
        if t in ("true", "false"):
            return int(t == "true")
        try:
            return cosmos.number(t)
        except ValueError:
            return None

    def whole_bytes(self, seq, defs):
        run = 0
        for mem in seq.members:
            k = ref.resolve(mem.type, defs)
            if ref.is_bitfield(k):
                run += k.bits
            else:
                if run % 8:
                    return False
                run = 0
                e = k.elem if k.kind == "arr" else k
                if e.kind == "seq" and not self.whole_bytes(e.seq, defs):
                    return False
        return run % 8 == 0


CHECK = C11
