"""C18: commands which cannot be carried out are refused, all others mean what their options say."""
import os

from .. import common, gen, runner
from ..harness import Check, Violation

NOBODY = 65534


def drop():
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)


class C18(Check):
    id = "C18"
    rule = (
        "random valid bundles; commands of all four generators with one fault (an input which is missing, a folder, unreadable, empty or a dangling link at a random place among the inputs; "
        "no input; each required option missing or without value; unknown options, commands and byte orders; options of other commands; values to encode without a byte order), "
        "which must be refused without any file written or changed; and valid commands in random spellings and orders of options and of paths, compared byte by byte with the plain command; "
        "distinct by fault, generator and structure"
    )
    assumptions = ["the output folder itself may be created by a refused command"]
    quick = 1600
    thorough = 9000
    FAULTS = ["missing", "missing", "missing", "folder", "unreadable", "empty", "dangling", "noinput", "nooption", "nooption", "novalue", "unknown_option", "unknown_option", "unknown_command", "foreign_option", "byteorder", "byteorder", "no_byteorder"]
    required = {"fault_missing": 40, "fault_folder": 10, "fault_unreadable": 10, "fault_empty": 10, "fault_dangling": 10, "fault_noinput": 10, "fault_nooption": 25, "fault_novalue": 10, "fault_unknown_option": 25,
                "fault_unknown_command": 10, "fault_foreign_option": 10, "fault_byteorder": 8, "fault_no_byteorder": 4, "refusals_without_output": 300, "spellings": 200, "files_compared": 400, "input_not_last": 20, "input_not_first": 20}

    def case(self, idx, rng, box, stats):
        for p in (os.path.dirname(box.root), box.root):
            os.chmod(p, 0o755)
        fault = rng.choice(self.FAULTS) if rng.random() < 0.65 else None
        g = rng.choice(["cfs", "c", "binary", "cosmos"])
        if fault in ("byteorder", "no_byteorder"):
            g = "binary"
        p = gen.Profile(modules=rng.choice([(1, 1), (1, 3), (2, 5)]), defs=(1, 5), comments=0.1, wc=0.8)
        if g == "binary":
            p.wc_bin, p.posix_only = True, True
        b = gen.bundle(rng, p)
        if g == "binary" and not common.binary_supported(b):
            return None, None
        mod, msg = common.pick_message(b, rng)
        if g == "cosmos" and not msg:
            return None, None
        if fault == "no_byteorder" and not common.wc_paths(b):
            fault = None
        texts = common.render_all(b, rng)
        inputs = box.write_inputs(texts)
        order = rng.choice(["little-endian", "big-endian"])
        names = b.names()
        clean = common.accept(box, g, texts, names, stats, module=mod, messages=[msg], endianness=order, inputs=inputs)
        opts = [("--asn1-module", mod), ("--asn1-messages", msg), ("--output-file-name", "tlm")] if g == "cosmos" else [("--asn1-modules", ",".join(names))]
        if g == "binary":
            opts.append(("--endianness", order))
        self.texts = texts
        if fault:
            what = self.refuse(rng, box, stats, fault, g, inputs, opts, clean)
            stats["fault_" + fault] += 1
        else:
            what = self.spell(rng, box, stats, g, inputs, opts, clean)
            stats["spellings"] += 1
        return "%s/%s/%s/%s" % (fault, g, what, common.feature_key(b)), {"fault": fault, "generator": g, "detail": what} if idx < 8 else None

    def line(self, rng, g, inputs, opts, command=None):
        """the arguments in random order and spelling"""
        o = list(opts)
        rng.shuffle(o)
        words = []
        for k, v in o:
            if v is None:
                words.append([k])
            elif rng.random() < 0.5 and k != "-x":
                words.append([k + "=" + v])
            else:
                words.append([k, v])
        at = rng.choice([0, len(words), rng.randrange(len(words) + 1)])
        words.insert(at, list(inputs))
        return [command or "generate-" + g] + [w for ws in words for w in ws]

    # --- refusals

    def refuse(self, rng, box, stats, fault, g, inputs, opts, clean):
        out = box.path("o")
        if rng.random() < 0.5:
            os.makedirs(out)
            for n in clean:
                with open(os.path.join(out, n), "w") as f:
                    f.write("sentinel " + n)
        opts = list(opts) + [("--output-dir", out)]
        inputs = list(inputs)
        pre = None
        command = None
        what = fault
        if fault in ("missing", "folder", "unreadable", "empty", "dangling"):
            d = box.new("bad")
            os.chmod(d, 0o755)
            bad = os.path.join(d, "x.asn")
            if fault == "missing":
                bad = rng.choice([bad, os.path.join(d, "no", "x.asn"), "x.asn", inputs[0] + ".asn", os.path.splitext(inputs[0])[0], "*.asn"])
            elif fault == "folder":
                bad = rng.choice([d, os.path.dirname(inputs[0]), "."])
            elif fault == "unreadable":
                with open(inputs[0], "rb") as a, open(bad, "wb") as f:
                    f.write(a.read())
                os.chmod(bad, 0)
                for p in inputs:
                    os.chmod(p, 0o644)
                os.chmod(os.path.dirname(inputs[0]), 0o755)
                if os.path.isdir(out):
                    os.chmod(out, 0o777)
                    for n in clean:
                        os.chmod(os.path.join(out, n), 0o666)
                else:
                    os.makedirs(out)
                    os.chmod(out, 0o777)
                pre = drop
            elif fault == "empty":
                with open(bad, "wb") as f:
                    f.write(rng.choice([b"", b"", b"\n", b" \n\t\n"]))
            else:
                os.symlink(os.path.join(d, "nowhere"), bad)
            at = rng.randrange(len(inputs) + 1)
            # in place of a module its definitions would be missing as well, so mostly added to a complete set
            inputs.insert(at, bad)
            if at:
                stats["input_not_first"] += 1
            if at < len(inputs) - 1:
                stats["input_not_last"] += 1
            what = "%s/%d/%d" % (fault, at, len(inputs))
        elif fault == "noinput":
            inputs = []
        elif fault == "nooption":
            need = [i for i, (k, v) in enumerate(opts) if k not in ("--output-dir", "--endianness")]
            i = rng.choice(need)
            what = "no " + opts.pop(i)[0]
        elif fault == "novalue":
            i = rng.randrange(len(opts))
            k = opts[i][0]
            what = k + " without value"
            del opts[i]
            a = self.line(rng, g, inputs, opts)
            if rng.random() < 0.5:
                a.append(k)
            else:  # the next word is an option
                j = next(j for j, w in enumerate(a) if w.startswith("--"))
                a.insert(j, k)
        elif fault == "unknown_option":
            opts.append(rng.choice([("--bogus", None), ("--bogus", "1"), ("-x", None), ("--verbose", None), ("--asn1-modulesx", "a"), ("--output-dirs", out), ("--force", None), ("--skip-validation", None), ("--append", None)]))
            what = opts[-1][0]
        elif fault == "unknown_command":
            command = rng.choice(["generate-xml", "generate", "generate_" + g, "Generate-" + g, "generate-" + g.upper() if g != "c" else "generate-C", g, "generate-" + g + "x", "parse", "generate-icd"])
            what = command
        elif fault == "foreign_option":
            if g == "cosmos":
                opts.append(rng.choice([("--asn1-modules", "a"), ("--endianness", "big-endian")]))
            elif g == "binary":
                opts.append(rng.choice([("--asn1-messages", "S"), ("--output-file-name", "t")]))
            else:
                opts.append(rng.choice([("--asn1-messages", "S"), ("--output-file-name", "t"), ("--endianness", "little-endian")]))
            what = opts[-1][0]
        elif fault == "byteorder":
            v = rng.choice(["middle-endian", "LITTLE-ENDIAN", "Big-Endian", "little", "big", "little_endian", "bigendian", "native", "", "<", ">", "little-endian,big-endian"])
            opts = [(k, v if k == "--endianness" else x) for k, x in opts]
            what = v
        elif fault == "no_byteorder":
            opts = [(k, x) for k, x in opts if k != "--endianness"]
        if fault != "novalue":
            a = self.line(rng, g, inputs, opts, command)
        before = runner.files(box.root)
        r = box.run(a, pre=pre)
        stats["rejecting_runs_" + g] += 1
        after = runner.files(box.root)
        if r.hang:
            self.bad(g, "no end: %s" % what, a)
        if r.rc == 0:
            self.bad(g, "accepts a command which cannot be carried out: %s" % what, a)
        if before != after:
            self.bad(g, "refuses (%s) but changed files: %s" % (what, sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))[:5]), a)
        stats["refusals_without_output"] += 1
        return what

    def bad(self, g, text, a):
        raise Violation("generate-%s: %s" % (g, text), **common.arts(self.texts, argv=a))

    # --- spellings

    def spell(self, rng, box, stats, g, inputs, opts, clean):
        cwd = box.new("cwd")
        out = rng.choice([box.path("o"), os.path.join(cwd, "o")])
        paths = []
        kinds = set()
        for i, p in enumerate(inputs):
            kind = rng.choice(["abs", "rel", "dot", "link", "linkdir", "copy", "updown"])
            kinds.add(kind)
            if kind == "rel":
                p = os.path.relpath(p, cwd)
            elif kind == "dot":
                p = "./" + os.path.relpath(p, cwd)
            elif kind == "updown":
                p = os.path.join(os.path.dirname(p), "..", os.path.basename(os.path.dirname(p)), os.path.basename(p))
            elif kind == "link":
                q = os.path.join(cwd, "l%d" % i)
                os.symlink(p, q)
                p = rng.choice([q, os.path.basename(q)])
            elif kind == "linkdir":
                q = os.path.join(cwd, "d%d" % i)
                os.symlink(os.path.dirname(p), q)
                p = os.path.join(q, os.path.basename(p))
            elif kind == "copy":
                q = os.path.join(cwd, rng.choice(["a b", "\u00e4\u00f6", "x.txt", "in.put.asn", "n", "'q'", "a,b.asn", "#1", "ASN"]) + "%d" % i)
                with open(p, "rb") as src, open(q, "wb") as dst:
                    dst.write(src.read())
                p = q
            paths.append(p)
        arg = out
        if out.startswith(cwd):
            arg = rng.choice(["o", "./o", "o/", out])
        a = self.line(rng, g, paths, list(opts) + [("--output-dir", arg)])
        r = box.run(a, cwd=cwd)
        if not r.ok:
            self.bad(g, "refuses another spelling of an accepted command (exit status %d)\n%s" % (r.rc, r.out[-800:]), a)
        got = runner.files(out)
        if got != clean:
            self.bad(g, "another spelling of a command gives other files: %s" % sorted(k for k in set(got) | set(clean) if got.get(k) != clean.get(k))[:5], a)
        stats["files_compared"] += len(got)
        return ",".join(sorted(kinds))


CHECK = C18
