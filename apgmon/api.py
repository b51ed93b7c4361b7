"""Calls of the Python API of /repo in a process of their own.

fork mode: a forked child of the worker; spawn mode: a new interpreter which
reads the call from its standard input."""
import os
import pickle
import signal
import subprocess
import sys
import traceback

from . import runner


def call(box, name, payload, hashseed=None, cpu=runner.CPU_LIMIT):
    """("ok", result) | ("error", text) | ("hang", "")"""
    box.runs += 1
    if box.mode == "fork" and hashseed is None:
        return _fork(name, payload, cpu)
    env = dict(os.environ)
    if hashseed is not None:
        env["PYTHONHASHSEED"] = str(hashseed)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    code = "import sys; sys.path[:0] = [%r, %r]; from apgmon import api; api.child()" % (runner.REPO, here)

    def prep():
        import resource

        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))

    try:
        r = subprocess.run([runner.PY, "-W", "ignore", "-c", code], input=pickle.dumps((name, payload)), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=env, cwd=box.root, timeout=runner.WALL_LIMIT, preexec_fn=prep)
    except subprocess.TimeoutExpired:
        raise runner.Inconclusive("wall-clock watchdog")
    if r.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
        return ("hang", "")
    mark = r.stdout.rfind(b"\nAPGMON\n")
    if mark < 0:
        return ("error", r.stderr.decode("utf8", "replace")[-1500:])
    return pickle.loads(r.stdout[mark + 8:])


def _do(name, payload):
    try:
        return ("ok", FUNCS[name](payload))
    except BaseException:
        return ("error", traceback.format_exc()[-3000:])


def child():
    name, payload = pickle.loads(sys.stdin.buffer.read())
    res = _do(name, payload)
    sys.stdout.flush()
    os.write(1, b"\nAPGMON\n" + pickle.dumps(res))


def _fork(name, payload, cpu):
    import resource

    runner.warm()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            nul = os.open(os.devnull, os.O_RDWR)
            os.dup2(nul, 0)
            os.dup2(nul, 1)
            os.dup2(nul, 2)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
            data = pickle.dumps(_do(name, payload))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        if os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL):
            return ("hang", "")
        return ("error", "signal %d" % os.WTERMSIG(st))
    return pickle.loads(data)


# --- functions


def _comment(c):
    if c is None:
        return None
    return (c.get_comment(), c.get_unit(), bool(c.is_item_little_endian()))


def _type(t, array_cls, str_cls, top=True):
    x = t.get_type()
    if isinstance(x, array_cls):
        return ("array", x.get_length(), _type(x.get_asn_type(), array_cls, str_cls, False))
    if isinstance(x, str_cls):
        return ("string", x.get_type_name(), x.get_length())
    n = t.get_type_name()
    if n in ("INTEGER", "REAL"):
        b, e = t.get_begin(), t.get_end()
        return (n, type(b).__name__, repr(b), repr(e))
    if n == "BOOLEAN":
        return (n,)
    return ("ref", n, x.get_type_name() if x is not None and top else None)


def _wc(w):
    if w is None:
        return None
    out = []
    for c in w.get_components():
        v = c.get_value()
        if hasattr(v, "get_components"):
            v = _wc(v)
        else:
            v = (type(v).__name__, repr(v))
        out.append((c.get_key(), v, _comment(c.get_comment())))
    return (tuple(out), _comment(w.get_comment()))


def extract(payload):
    """the parsed model as nested tuples"""
    texts, sized = payload
    from asn1_parser.asn1.asn1_bundle_builder import ASN1BundleBuilder
    from asn1_parser.asn1.grammar_elements.array import Array
    from asn1_parser.asn1.grammar_elements.asn1_string import Asn1String

    bundle = ASN1BundleBuilder.build_from_texts(texts)
    mods = []
    for mod in bundle.get_modules():
        defs = []
        for d in mod.get_definitions():
            kind = type(d).__name__
            if kind in ("Sequence", "Choice"):
                body = tuple(
                    (
                        c.get_key(),
                        _type(c.get_asn_type(), Array, Asn1String),
                        _comment(c.get_comment()),
                        _wc(c.get_with_components()),
                        c.get_size_bits() if (d.get_type_name(), c.get_key()) in sized else None,
                    )
                    for c in d.get_children()
                )
            elif kind == "Enumerated":
                body = tuple((i.get_key(), i.get_pos(), _comment(i.get_comment())) for i in d.get_enum())
                if tuple(d.get_states()) != tuple(i[0] for i in body):
                    raise AssertionError("get_states of %s: %s" % (d.get_type_name(), d.get_states()))
            else:
                body = _type(d.get_asn_type(), Array, Asn1String)
            size = d.get_size_bits() if d.get_type_name() in sized else None
            defs.append((kind, d.get_type_name(), _comment(d.get_comment()), body, size))
        imports = tuple((i.get_module_name(), tuple(i.get_definitions())) for i in mod.get_import_items())
        mods.append(
            (
                mod.get_module_name(),
                _comment(mod.get_comment()),
                _comment(mod.get_comment_import()),
                imports,
                tuple(sorted(set(mod.get_imported_modules_names()))),
                tuple(defs),
            )
        )
    names = tuple(bundle.get_modules_names())
    for n in names:
        if bundle.get_module(n).get_module_name() != n:
            raise AssertionError("get_module(%s)" % n)
    return (names, tuple(mods))


def accepted(payload):
    """which of several lists of texts are accepted"""
    from asn1_parser.asn1.asn1_bundle_builder import ASN1BundleBuilder

    out = []
    for texts in payload:
        try:
            ASN1BundleBuilder.build_from_texts(texts)
            out.append(True)
        except Exception:
            out.append(False)
    return out


def _main_module():
    import importlib

    return importlib.import_module("asn1_parser.main")


def history(payload):
    """runs several commands in this process: [(argv, cwd)] -> [exit status]"""
    M = _main_module()
    out = []
    for argv, cwd in payload:
        os.chdir(cwd)
        sys.argv = [runner.MAIN] + list(argv)
        try:
            M.main()
            out.append(0)
        except SystemExit as ex:
            out.append(ex.code if isinstance(ex.code, int) else 0 if ex.code is None else 1)
        except Exception:
            out.append(1)
    return out


def _entry(name, place):
    """a class of the code under test: where it is defined, or where the main module has it"""
    import importlib

    for mod in (place, "asn1_parser.main"):
        try:
            return getattr(importlib.import_module(mod), name)
        except (ImportError, AttributeError):
            pass
    return None


def shared(payload):
    """parses once, then runs all commands with the same bundle; None if there are no such entry points"""
    first, argvs, cwd = payload
    M = _main_module()
    os.chdir(cwd)
    root = getattr(M, "ROOT_PATH", runner.REPO)
    parser = _entry("create_args_parser", "asn1_parser.cli.cli_arg_parser")
    builder = _entry("ASN1BundleBuilder", "asn1_parser.asn1.asn1_bundle_builder")
    cls = {"cfs": "CFSGenerator", "c": "CGenerator", "binary": "BinaryGenerator", "cosmos": "COSMOSGenerator"}
    cls = {g: _entry(n, "asn1_parser.generators.%s.generator" % g) for g, n in cls.items()}

    def config(argv):
        sys.argv = [runner.MAIN] + list(argv)
        g = argv[0][len("generate-"):]
        return g, getattr(parser(), "get_generate_%s_config" % g)(root)

    used = {a[0][len("generate-"):] for a in [first] + list(argvs)}
    if parser is None or builder is None or any(not hasattr(builder, "build_from_%s_config" % g) or not hasattr(cls[g], "generate_" + g) for g in used):
        return None
    sys.argv = [runner.MAIN] + list(first)
    if any(not hasattr(parser(), "get_generate_%s_config" % g) for g in used):
        return None
    g, c = config(first)
    bundle = getattr(builder, "build_from_%s_config" % g)(c)
    for argv in argvs:
        g, c = config(argv)
        getattr(cls[g], "generate_" + g)(c, bundle)
    return len(argvs)


FUNCS = {"extract": extract, "accepted": accepted, "history": history, "shared": shared}
