"""Development tool: systematic small changes of the code under test, to find what the checks miss.

  mutants.py make OUT.json [--max N] [--seed S]   changes which the existing tests do not notice
  mutants.py run OUT.json [--scale X]             runs the checks against each of them

Works in scratch copies under /tmp only.
"""
import ast, copy, hashlib, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SKIP = ("pprint", "__str__")
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Pow: [ast.Mult], ast.LShift: [ast.RShift], ast.BitOr: [ast.BitXor, ast.BitAnd]}


def variants(node):
    """changed copies of one node"""
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for c in CMP.get(type(node.ops[0]), ()):
            n = copy.deepcopy(node); n.ops = [c()]; yield n
    elif isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node); n.op = ast.And() if isinstance(node.op, ast.Or) else ast.Or(); yield n
        for i in range(len(node.values)):
            n = copy.deepcopy(node); del n.values[i]
            yield n if len(n.values) > 1 else n.values[0]
    elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
        for c in BIN[type(node.op)]:
            n = copy.deepcopy(node); n.op = c(); yield n
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield copy.deepcopy(node.operand)
    elif isinstance(node, ast.Constant) and type(node.value) is int:
        for v in (node.value + 1, node.value - 1):
            yield ast.Constant(v)
    elif isinstance(node, ast.Constant) and type(node.value) is bool:
        yield ast.Constant(not node.value)
    elif isinstance(node, ast.Constant) and type(node.value) is str and node.value and len(node.value) < 40:
        yield ast.Constant("")
    elif isinstance(node, ast.If):
        n = copy.deepcopy(node); n.test = ast.Constant(False); yield n
        n = copy.deepcopy(node); n.test = ast.Constant(True); yield n
    elif isinstance(node, ast.IfExp):
        yield copy.deepcopy(node.body)
        yield copy.deepcopy(node.orelse)
    elif isinstance(node, (ast.Raise, ast.Continue, ast.Break)):
        yield ast.Pass()
    elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
        yield ast.Pass()
    elif isinstance(node, ast.For):
        n = copy.deepcopy(node)
        n.iter = ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [n.iter], []), ast.Slice(ast.Constant(1), None), ast.Load()); yield n
        n = copy.deepcopy(node)
        n.iter = ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [n.iter], []), ast.Slice(None, ast.Constant(2)), ast.Load()); yield n
    elif isinstance(node, ast.ListComp) and node.generators[0].ifs:
        n = copy.deepcopy(node); n.generators[0].ifs = []; yield n
    elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("copy", "replace", "lower", "upper", "strip") :
        yield copy.deepcopy(node.func.value)
    elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("set", "sorted", "list", "lowerize", "max", "str") and node.args:
        yield copy.deepcopy(node.args[0])
    elif isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) and not isinstance(node.value, ast.Constant):
        n = copy.deepcopy(node); n.value = ast.Constant(None); yield n


def all_mutants(root):
    out = []
    for base, _, names in sorted(os.walk(os.path.join(root, "asn1_parser"))):
        for name in sorted(names):
            p = os.path.join(base, name)
            rel = os.path.relpath(p, root)
            if not name.endswith(".py") or "/log/" in rel or rel.endswith("cli_arg_parser.py"):
                continue
            src = open(p).read()
            tree = ast.parse(src)
            lines = src.splitlines(True)
            offs = [0]
            for l in lines:
                offs.append(offs[-1] + len(l.encode()))
            raw = src.encode()

            def walk(node, fn, ann):
                for f, v in ast.iter_fields(node):
                    kids = v if isinstance(v, list) else [v]
                    for k in kids:
                        if not isinstance(k, ast.AST):
                            continue
                        a = ann or f in ("annotation", "returns") or isinstance(node, ast.JoinedStr)
                        g = k.name if isinstance(k, ast.FunctionDef) else fn
                        if isinstance(k, ast.Raise) and not isinstance(node, ast.FunctionDef):
                            pass
                        inside_raise = isinstance(node, ast.Raise)
                        if g in SKIP or a or inside_raise:
                            continue
                        if hasattr(k, "lineno"):
                            for n in variants(k):
                                s, e = offs[k.lineno - 1] + k.col_offset, offs[k.end_lineno - 1] + k.end_col_offset
                                ast.fix_missing_locations(n)
                                text = ast.unparse(n)
                                if isinstance(n, ast.expr):
                                    text = "(" + text + ")"
                                pad = " " * k.col_offset
                                text = text.replace("\n", "\n" + pad)
                                out.append(dict(file=rel, line=k.lineno, start=s, end=e, old=raw[s:e].decode(), new=text))
                        walk(k, g, a)

            walk(tree, "", False)
            if rel.endswith("grammar.py"):
                import re
                for mm in re.finditer(r"\(comment=Asn1Comment\)\?|\+=|\*\n|\)\?|'[^'\n]*'", src):
                    o = mm.group()
                    news = {"(comment=Asn1Comment)?": [""], "+=": ["="], "*\n": ["?\n"], ")?": [")"]}.get(o, ["''" if False else o + "?"])
                    s = len(src[:mm.start()].encode())
                    for n in news:
                        out.append(dict(file=rel, line=src[:mm.start()].count("\n") + 1, start=s, end=s + len(o.encode()), old=o, new=n))
    return out


def prepare(m, w):
    shutil.rmtree(w, True)
    subprocess.run(["git", "clone", "-q", BASE, w], check=True)
    p = os.path.join(w, m["file"])
    raw = open(p, "rb").read()
    assert raw[m["start"]:m["end"]].decode() == m["old"], m
    open(p, "wb").write(raw[:m["start"]] + m["new"].encode() + raw[m["end"]:])


def tests_pass(w):
    env = dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PATH="/opt/venv/bin:" + os.environ["PATH"])
    try:
        r = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-x", "tests/unit", "-p", "no:cacheprovider"], cwd=w, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        if r.returncode:
            return False
        r = subprocess.run(["/opt/venv/bin/lit", "-q", "-j2", "--max-failures=1", "--param", "ASN1_PARSER_EXEC=python3 -B \"%s/asn1_parser/main.py\"" % w, "tests/integration"], cwd=w, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=240)
        return r.returncode == 0
    except subprocess.TimeoutExpired:
        return False


def make(out, limit, seed):
    """appends to OUT, one per line, as they are found; works on a copy of the repository as it is now"""
    shutil.rmtree(BASE, True)
    subprocess.run(["git", "clone", "-q", "/repo", BASE], check=True)
    ms = all_mutants(BASE)
    random.Random(seed).shuffle(ms)
    ms = ms[:limit]
    print(len(ms), "mutants", flush=True)

    def one(a):
        i, m = a
        w = "/tmp/mut/%d" % i
        try:
            prepare(m, w)
            if tests_pass(w):
                with open(out, "a") as f:
                    f.write(json.dumps(m) + "\n")
        except Exception as e:
            print(m, e, flush=True)
        finally:
            shutil.rmtree(w, True)
        if i % 100 == 0:
            print(i, flush=True)

    with ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
        list(ex.map(one, enumerate(ms)))
    print("end", flush=True)


ORDER = "C01 C09 C10 C12 C13 C14 C17 C20 C21 C19 C04 C03 C02 C05 C07 C16 C18 C11 C15 C08 C06".split()
BASE = "/tmp/mutbase"


def run(path, scale):
    """follows the file which make writes; results go to PATH.res"""
    k = 0
    done = set()
    if os.path.exists(path + ".res"):
        done = {l.split(" ", 1)[0] for l in open(path + ".res")}
    while True:
        ms = [json.loads(l) for l in open(path)]
        if k >= len(ms):
            time.sleep(30)
            continue
        m = ms[k]
        k += 1
        key = hashlib.sha1(json.dumps(m, sort_keys=True).encode()).hexdigest()[:10]
        if key in done:
            continue
        w = "/tmp/mutrun"
        prepare(m, w)
        got = None
        for p in ORDER:
            try:
                r = subprocess.run([VERIF + "/check.py", p, "--tier", "quick"], cwd=VERIF, env=dict(os.environ, APGMON_REPO=w, APGMON_SCALE=str(scale)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            if rc != 0:
                got = "%s rc=%s" % (p, rc)
                break
        with open(path + ".res", "a") as f:
            f.write("%s %s %s %r -> %r :: %s\n" % (key, m["file"], m["line"], m["old"][:90], m["new"][:90], got or "MISSED"))


if __name__ == "__main__":
    av = sys.argv
    opt = lambda n, d: av[av.index(n) + 1] if n in av else d
    if av[1] == "make":
        make(av[2], int(opt("--max", "100000")), int(opt("--seed", "1")))
    else:
        run(av[2], float(opt("--scale", "0.3")))
