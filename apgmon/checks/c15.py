"""C15: output depends only on the modules, not on order, process, history or hash seed."""
import os
import shutil

from .. import api, common, gen, model as m, runner
from ..harness import Check, Violation

EXISTING = [b"", b"x", b"old text\n", b"# This file was autogenerated from ASN.1 model.\n\nTELEMETRY tlm X BIG_ENDIAN \"\"\n", b"no line break at the end", b"\xff\xfe\x00binary", b"\r\n\r\n", b"a" * 70000]


def cosmos_chunks(data):
    """header and the text of each packet"""
    parts = data.split(b"\nTELEMETRY ")
    return parts[0], parts[1:]


class C15(Check):
    id = "C15"
    rule = (
        "random valid bundles through all generators, compared byte by byte between: new interpreters with random hash seeds, environments and working directories; random orders of the input files and of the "
        "module list, renamed and moved input files; the same process after random histories of other (valid and invalid) commands; several generators on one parsed bundle; all, single and permuted COSMOS messages; "
        "COSMOS files with existing content; distinct by scenario, generator and structure; non-trivial if two outputs were compared"
    )
    assumptions = ["whether a bundle is accepted at all is decided by the other checks; here only differences count"]
    quick = 800
    thorough = 7000
    SCEN = ["process", "process", "order", "order", "history", "history", "shared", "shared", "messages", "messages", "append"]
    required = {"scen_process": 50, "scen_order": 50, "scen_history": 50, "scen_shared": 50, "scen_messages": 50, "scen_append": 25, "files_compared": 1200, "hash_seeds": 40, "packets_compared": 150, "history_steps": 200}

    def bundle(self, rng):
        p = gen.Profile(modules=rng.choice([(1, 3), (2, 5), (3, 7)]), comments=rng.choice([0.0, 0.4]), wc=rng.choice([0.3, 0.9]), ccsds=rng.choice([0.0, 0.6]), arrays=rng.choice(["both", ""]), extra_imports=0.4)
        if rng.random() < 0.3:
            p.wc_bin, p.posix_only, p.wc = True, rng.random() < 0.6, 0.9
        return gen.bundle(rng, p)

    def plan(self, b, rng):
        """(generator, module, messages, byte order) of a run"""
        gens = ["cfs", "c"]
        if common.binary_supported(b):
            gens += ["binary", "binary"]
        mod, msg = common.pick_message(b, rng)
        if msg:
            gens += ["cosmos"]
        g = rng.choice(gens)
        msgs = [d.name for d in b.module(mod).defs if isinstance(d, m.Seq)] if msg else []
        rng.shuffle(msgs)
        return g, mod, msgs[: rng.randint(1, len(msgs))] if msgs else [], rng.choice(["little-endian", "big-endian"])

    def argv(self, plan, inputs, names, out):
        g, mod, msgs, order = plan
        return common.argv(g, inputs, names, out, mod, msgs, order)

    def same(self, a, b, what, texts, stats, **kw):
        (ra, fa), (rb, fb) = a, b
        if (ra == 0) != (rb == 0):
            raise Violation("%s: exit status %s and %s" % (what, ra, rb), **common.arts(texts, **kw))
        if ra == 0 and fa != fb:
            n = sorted(k for k in set(fa) | set(fb) if fa.get(k) != fb.get(k))
            raise Violation("%s: the output differs in %s\n%s" % (what, n[:5], self.first(fa.get(n[0]), fb.get(n[0]))), **common.arts(texts, **kw))
        stats["files_compared"] += len(fa)

    def first(self, a, b):
        if a is None or b is None:
            return "written in only one of the runs"
        x, y = a.splitlines(), b.splitlines()
        for i, (p, q) in enumerate(zip(x, y)):
            if p != q:
                return "line %d: %r / %r" % (i + 1, p[:200], q[:200])
        return "%d / %d lines" % (len(x), len(y))

    def run(self, box, plan, inputs, names, out=None, **kw):
        out = out or box.path("out")
        r = box.run(self.argv(plan, inputs, names, out), **kw)
        if r.hang:
            raise Violation("no end of generate-%s" % plan[0])
        return r.rc, runner.files(out)

    def case(self, idx, rng, box, stats):
        b = self.bundle(rng)
        texts = common.render_all(b, rng)
        inputs = box.write_inputs(texts)
        plan = self.plan(b, rng)
        scen = rng.choice(self.SCEN)
        base = self.run(box, plan, inputs, b.names())
        stats["gen_" + plan[0]] += 1
        stats["accepted"] += base[0] == 0
        getattr(self, "s_" + scen)(rng, box, stats, b, texts, inputs, plan, base)
        stats["scen_" + scen] += 1
        return "%s/%s/%s" % (scen, plan[0], common.feature_key(b)), {"scenario": scen, "generator": plan[0], "files": sorted(base[1])} if idx < 10 else None

    def s_process(self, rng, box, stats, b, texts, inputs, plan, base):
        for _ in range(2):
            hs = rng.randrange(1, 2**32 - 1)
            env = {"LC_ALL": rng.choice(["C", "C.UTF-8", "POSIX"]), "TZ": rng.choice(["UTC", "Asia/Tokyo"]), "COLUMNS": str(rng.randrange(20, 200)), "USER": "u%d" % rng.randrange(99), "HOME": box.root}
            if rng.random() < 0.3:
                env["PYTHONOPTIMIZE"] = "1"
            cwd = box.new("cwd")
            got = self.run(box, plan, inputs, b.names(), mode="spawn", hashseed=hs, env=env, cwd=cwd)
            self.same(base, got, "generate-%s in a new process with hash seed %d and %s" % (plan[0], hs, env), texts, stats)
            stats["hash_seeds"] += 1

    def s_order(self, rng, box, stats, b, texts, inputs, plan, base):
        for _ in range(3):
            order = list(range(len(inputs)))
            rng.shuffle(order)
            d = box.new("moved")
            moved = []
            for i in order:
                q = os.path.join(d, rng.choice(["", "sub%d/" % i]) + rng.choice(["z", "a", "m", "Module"]) + "%d.asn" % i)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                shutil.copyfile(inputs[i], q)
                moved.append(q)
            cwd = box.root
            if rng.random() < 0.4:
                cwd = d
                moved = [os.path.relpath(x, d) for x in moved]
            names = b.names()
            rng.shuffle(names)
            kw = {"mode": "spawn", "hashseed": rng.randrange(2**32 - 1)} if rng.random() < 0.3 else {}
            got = self.run(box, plan, moved, names, cwd=cwd, **kw)
            self.same(base, got, "generate-%s with files in the order %s and modules %s" % (plan[0], order, names), texts, stats)
            stats["orders"] += 1

    def s_history(self, rng, box, stats, b, texts, inputs, plan, base):
        """other commands first, in the same process; then the command, twice"""
        steps = []
        for _ in range(rng.randrange(1, 5)):
            k = rng.random()
            o = b if k < 0.4 else self.bundle(rng)
            ti = inputs if o is b else box.write_inputs(common.render_all(o, rng))
            if 0.4 <= k < 0.65:  # something to be refused
                p = ti[rng.randrange(len(ti))]
                with open(p, "rb") as f:
                    data = f.read()
                with open(p, "wb") as f:
                    f.write(rng.choice([data[: rng.randrange(len(data))], data.replace(b"END", b"Zz ::= SEQUENCE { a Undefined-thing }\nEND"), data + data, data.replace(b"INTEGER", b"Nope")]))
            pl = self.plan(o, rng)
            if o is b and rng.random() < 0.5:
                pl = (plan[0], plan[1], plan[2], rng.choice(["little-endian", "big-endian"]))
            steps.append((self.argv(pl, ti, o.names(), box.path("h")), box.root))
        n = len(steps)
        outs = [box.path("out"), box.path("out")]
        for o in outs:
            steps.append((self.argv(plan, inputs, b.names(), o), box.root))
        kind, res = api.call(box, "history", steps)
        if kind != "ok":
            raise Violation("the history of commands ends with %s %s" % (kind, res), **common.arts(texts))
        for i, o in enumerate(outs):
            self.same(base, (res[n + i], runner.files(o)), "generate-%s after %d other commands in the same process (%s)" % (plan[0], n + i, [s[0][0] for s in steps[:n]]), texts, stats, history=[s[0] for s in steps])
        stats["history_steps"] += len(steps)
        stats["history_failed_steps"] += sum(1 for x in res[:n] if x)

    def s_shared(self, rng, box, stats, b, texts, inputs, plan, base):
        plans = [plan] + [self.plan(b, rng) for _ in range(rng.randrange(1, 4))]
        if rng.random() < 0.4:
            plans.append(plan)
        rng.shuffle(plans)
        outs = [box.path("out") for _ in plans]
        argvs = [self.argv(p, inputs, b.names(), o) for p, o in zip(plans, outs)]
        alone = [self.run(box, p, inputs, b.names()) for p in plans]
        if any(a[0] for a in alone):
            stats["shared_skipped"] += 1
            return
        kind, res = api.call(box, "shared", (rng.choice(argvs), argvs, box.root))
        if kind != "ok":
            raise Violation("generating %s from one bundle: %s %s" % ([p[0] for p in plans], kind, res), **common.arts(texts))
        if res is None:  # the code has no such entry points any more
            stats["shared_absent"] += 1
            return
        for i, (a, o) in enumerate(zip(alone, outs)):
            self.same(a, (0, runner.files(o)), "generate-%s after %s from one bundle" % (plans[i][0], [p[0] for p in plans[:i]]), texts, stats)

    def s_messages(self, rng, box, stats, b, texts, inputs, plan, base):
        mod, msg = common.pick_message(b, rng)
        if not msg:
            return
        msgs = [d.name for d in b.module(mod).defs if isinstance(d, m.Seq)]
        rng.shuffle(msgs)
        rc, files = self.run(box, ("cosmos", mod, msgs, ""), inputs, b.names())
        ok = rc == 0
        chunks = {}
        if ok:
            head, parts = cosmos_chunks(files.get("tlm.txt", b""))
            if len(parts) != len(msgs):
                raise Violation("%d packets for %d messages" % (len(parts), len(msgs)), **common.arts(texts))
            chunks = dict(zip(msgs, parts))
        for _ in range(3):
            sub = rng.sample(msgs, rng.randint(1, len(msgs)))
            rc, files = self.run(box, ("cosmos", mod, sub, ""), inputs, b.names())
            if rc and ok:
                raise Violation("messages %s are accepted together, but not %s alone" % (msgs, sub), **common.arts(texts))
            if not ok:
                continue
            want = head + b"".join(b"\nTELEMETRY " + chunks[x] for x in sub)
            if files.get("tlm.txt") != want:
                raise Violation("the packets of %s differ from those of a run with %s\n%s" % (sub, msgs, self.first(files.get("tlm.txt"), want)), **common.arts(texts))
            stats["packets_compared"] += len(sub)

    def s_append(self, rng, box, stats, b, texts, inputs, plan, base):
        mod, msg = common.pick_message(b, rng)
        if not msg:
            return
        msgs = [d.name for d in b.module(mod).defs if isinstance(d, m.Seq)]
        out = box.new("out")
        old = rng.choice(EXISTING)
        p = os.path.join(out, "tlm.txt")
        if old or rng.random() < 0.5:
            with open(p, "wb") as f:
                f.write(old)
        want = old
        for _ in range(rng.randrange(1, 4)):
            sub = rng.sample(msgs, rng.randint(1, len(msgs)))
            rc, fresh = self.run(box, ("cosmos", mod, sub, ""), inputs, b.names())
            rc2, got = self.run(box, ("cosmos", mod, sub, ""), inputs, b.names(), out=out)
            if rc != rc2:
                raise Violation("exit status %d with a new file and %d with an existing one" % (rc, rc2), **common.arts(texts))
            if rc:
                continue
            want += fresh["tlm.txt"]
            if got.get("tlm.txt") != want:
                raise Violation("appending %s to a file with %d bytes: not the old content and then the new packets\n%s" % (sub, len(want) - len(fresh["tlm.txt"]), self.first(got.get("tlm.txt"), want)), **common.arts(texts))
            stats["appends"] += 1
            stats["files_compared"] += 1


CHECK = C15
