"""Mutation sweep used while building the checks: mutate.py OUTDIR N SEED [file regex]

Changes one place of ttp in a copy of /repo, keeps the change if the test suite still passes, then runs all the checks at a small scale
against the copy and notes the first that reports a violation. Not a check: nothing in MANIFEST.json uses it."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
from multiprocessing import Process, Lock, Value

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
ONLY = sys.argv[4] if len(sys.argv) > 4 else "."
SCALE = os.environ.get("MUT_SCALE", "0.12")
SKIP = re.compile(r"_py2|geoip|dns_lookups|syslog|n2g|yangson")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}


def mutants(path, rel):
    src = open(path, encoding="utf-8").read()
    tree = ast.parse(src)
    lines = src.splitlines(True)
    starts = [0]
    for x in lines:
        starts.append(starts[-1] + len(x.encode("utf-8")))
    raw = src.encode("utf-8")

    def off(line, col):
        return starts[line - 1] + col

    def span(n):
        return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)

    def text(n):
        a, b = span(n)
        return raw[a:b].decode("utf-8")
    out = []

    def add(n, new, what):
        a, b = span(n)
        out.append((rel, n.lineno, a, b, new, what))
    for n in ast.walk(tree):
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, "(not (%s))" % text(n.test), "negate")
            if isinstance(n, ast.If):
                add(n.test, "False", "never")
                add(n.test, "True", "always")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            new = CMP.get(type(n.ops[0]))
            if new:
                add(n, "(%s %s %s)" % (text(n.left), new, text(n.comparators[0])), "compare")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(%s)" % op.join(text(v) for v in n.values), "boolop")
            for i in range(len(n.values)):
                rest = [text(v) for j, v in enumerate(n.values) if j != i]
                add(n, "(%s)" % (" and " if isinstance(n.op, ast.And) else " or ").join(rest), "dropterm")
        if isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, str(n.value + 1), "int")
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), "bool")
        if isinstance(n, ast.Constant) and n.value is None:
            pass
        if isinstance(n, (ast.Continue, ast.Break)):
            add(n, "break" if isinstance(n, ast.Continue) else "continue", "loop")
            add(n, "pass", "loop")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "strip", "lower", "upper", "rstrip", "lstrip", "splitlines", "items") and n.func.attr != "items" and n.func.attr != "splitlines":
            add(n, text(n.func.value), "drop ." + n.func.attr)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "dict", "sorted", "deepcopy", "str", "tuple", "set") and len(n.args) == 1 and not n.keywords:
            add(n, "(%s)" % text(n.args[0]), "drop " + n.func.id)
        if isinstance(n, (ast.Assign, ast.AugAssign)) and not text(n).startswith("log"):
            add(n, "pass", "delete")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not text(n).startswith(("log", "self.log", "print")):
            add(n, "pass", "delete")
        if isinstance(n, ast.Return) and n.value is not None and text(n.value) not in ("None",):
            if isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2:
                add(n, "return data, %s" % {"None": "False", "False": "None", "True": "False"}.get(text(n.value.elts[1]), "None"), "return")
        if isinstance(n, ast.AugAssign):
            add(n, "%s = %s" % (text(n.target), text(n.value)), "replace")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "update", "setdefault", "get", "pop", "split", "startswith", "search", "match", "insert", "index") and n.args:
            new = {"append": "extend", "extend": "append", "search": "match", "match": "search"}.get(n.func.attr)
            if new:
                add(n, "%s.%s(%s)" % (text(n.func.value), new, ", ".join(text(x) for x in n.args)), new)
            if n.func.attr in ("get", "pop", "setdefault") and len(n.args) == 2:
                add(n.args[1], "None", "default")
            if n.func.attr == "update":
                add(n, "[%s.setdefault(_k, _v) for _k, _v in dict(%s).items()]" % (text(n.func.value), text(n.args[0])), "keepfirst")
            if n.func.attr == "startswith":
                add(n, "(%s in %s)" % (text(n.args[0]), text(n.func.value)), "anywhere")
            if n.func.attr == "split":
                add(n, "%s.rsplit(%s)" % (text(n.func.value), ", ".join([text(x) for x in n.args[:1]] + (["1"] if len(n.args) < 2 else [text(n.args[1])]))), "split")
        if isinstance(n, ast.Call) and n.keywords:
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    add(n, "%s(%s)" % (text(n.func), ", ".join([text(x) for x in n.args] + ["%s=%s" % (y.arg, text(y.value)) if y.arg else "**" + text(y.value) for y in n.keywords if y is not k])), "dropkw")
        if isinstance(n, ast.For) and not isinstance(n.iter, ast.Call):
            add(n.iter, "list(%s)[:1]" % text(n.iter), "first")
            add(n.iter, "list(%s)[::-1]" % text(n.iter), "reversed")
            add(n.iter, "list(%s)[1:]" % text(n.iter), "rest")
        if isinstance(n, ast.comprehension):
            add(n.iter, "list(%s)[:1]" % text(n.iter), "first")
            add(n.iter, "list(%s)[:-1]" % text(n.iter), "butlast")
            for c in n.ifs:
                add(c, "True", "always")
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], ast.Eq) and isinstance(n.comparators[0], ast.Constant) and isinstance(n.comparators[0].value, str):
            add(n, "(%s in %s)" % (text(n.left), text(n.comparators[0])), "within")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.UnaryOp):
            add(n.slice, "0", "index")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            add(n, "(%s %s %s)" % (text(n.left), "-" if isinstance(n.op, ast.Add) else "+", text(n.right)), "arith")
            add(n, text(n.left), "dropright")
    return out


def apply(copy, m):
    rel, line, a, b, new, what = m
    p = os.path.join(copy, rel)
    raw = open(os.path.join("/repo", rel), "rb").read()
    res = raw[:a] + new.encode() + raw[b:]
    try:
        compile(res, p, "exec")
    except SyntaxError:
        return False
    with open(p, "wb") as f:
        f.write(res)
    return True


def tests(copy):
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "TTPCACHEFOLDER", "TTP_TEMPLATES_DIR")}
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", LANG="C.UTF-8", LC_ALL="C.UTF-8")
    shutil.rmtree(os.path.join(copy, "test/pytest/Output"), ignore_errors=True)
    cache = os.path.join(copy, "ttp/ttp_dict_cache.pickle")
    if os.path.exists(cache):
        os.remove(cache)
    try:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "pytest_timeout", "-p", "no:cacheprovider", "--timeout=60", "-W", "ignore"], cwd=os.path.join(copy, "test/pytest"), env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200, start_new_session=True)
        return r.returncode == 0
    except subprocess.TimeoutExpired:
        return False


def checks_of(copy, order, ev, scale, stop=True):
    hit = []
    for c in order:
        env = dict(os.environ, VERIF_REPO=copy, VERIF_EVIDENCE=ev, VERIF_SCALE=scale)
        t = time.time()
        try:
            r = subprocess.run([os.path.join(VERIF, "bin/check"), c], env=env, capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            hit.append((c, "TIMEOUT"))
            continue
        if "VIOLATION" in r.stdout:
            msg = [x for x in r.stdout.splitlines() if x.startswith("  [")]
            hit.append((c, msg[0].strip()[:160] if msg else ""))
            if stop:
                break
    return hit


def worker(i, todo, nxt, lock):
    copy = os.path.join(OUT, "copy%d" % i)
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree("/repo", copy, ignore=shutil.ignore_patterns(".git", "docs"))
    score = {}
    allc = ["P%02d" % n for n in range(1, 26)]
    while True:
        with lock:
            if nxt.value >= len(todo):
                break
            k = nxt.value
            nxt.value += 1
        m = todo[k]
        if not apply(copy, m):
            continue
        rec = {"k": k, "m": m}
        if not tests(copy):
            rec["verdict"] = "tests"
        else:
            order = sorted(allc, key=lambda c: -score.get(c, 0))
            hit = checks_of(copy, order, os.path.join(OUT, "ev%d" % i), SCALE)
            rec["hit"] = hit
            rec["verdict"] = "caught" if any(h[1] not in ("TIMEOUT",) for h in hit) else "survived"
            for h in hit:
                score[h[0]] = score.get(h[0], 0) + 1
        shutil.copyfile(os.path.join("/repo", m[0]), os.path.join(copy, m[0]))
        with lock:
            with open(os.path.join(OUT, "log.jsonl"), "a") as f:
                f.write(json.dumps(rec) + "\n")
    shutil.rmtree(copy, ignore_errors=True)


def main():
    os.makedirs(OUT, exist_ok=True)
    ms = []
    for d, dirs, files in os.walk("/repo/ttp"):
        for f in sorted(files):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, "/repo")
            if f.endswith(".py") and not SKIP.search(rel) and re.search(ONLY, rel):
                ms += mutants(p, rel)
    ms.sort()
    if os.environ.get("MUT_BASE"):
        # only lines of the original tree
        keep = {}
        for rel in {m[0] for m in ms}:
            b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "--", rel], capture_output=True, text=True).stdout
            keep[rel] = {k for k, x in enumerate(b.splitlines(), 1) if x.startswith("^")}
        ms = [m for m in ms if m[1] in keep[m[0]]]
    skip = set(json.loads(x)["m"][0] + str(json.loads(x)["m"][2:6]) for f in sys.argv[5:] for x in open(f))
    ms = [m for m in ms if m[0] + str(list(m[2:6])) not in skip]
    random.Random(SEED).shuffle(ms)
    print(len(ms), "mutants,", N, "tried")
    todo = ms[:N]
    lock, nxt = Lock(), Value("i", 0)
    ps = [Process(target=worker, args=(i, todo, nxt, lock)) for i in range(int(os.environ.get("MUT_PROCS", "6")))]
    for p in ps:
        p.start()
    for p in ps:
        p.join()


if __name__ == "__main__":
    main()
