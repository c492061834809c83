#!/usr/bin/env python3
"""mutate.py OUT.json [-j N] [-s SCALE] [-n EVERY] [--only ID,ID] [FILE ...]
AST mutants of /repo's convst, each in a scratch copy: stable tests, then the checks
mapped to the file with SCALE times the cases until one reports a violation."""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import tempfile
import threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
T = "transformers/"
MAP = {
    "classifiers/rdst_ensemble.py": "C17 C12 C11 C10 C25 C16 C37 C38 C39 C40",
    "classifiers/rdst_ridge.py": "C16 C12 C34 C11 C25 C09 C37 C38 C39 C40",
    "interpreters/rdst_interpreter.py": "C26 C27 C11 C38",
    T + "_commons.py": "C01 C02 C05 C06 C08 C32 C14 C13 C09 C07 C26 C03 C31 C37 C40",
    T + "_input_transformers.py": "C18 C19 C35 C20 C16 C38",
    T + "_multivariate_same_length.py": "C02 C05 C06 C07 C08 C04 C13 C14 C10 C37 C40",
    T + "_multivariate_variable_length.py": "C03 C05 C06 C07 C08 C04 C13 C14 C10 C37 C40",
    T + "_univariate_same_length.py": "C01 C05 C06 C07 C08 C04 C13 C14 C10 C37 C40",
    T + "_univariate_variable_length.py": "C03 C05 C06 C07 C08 C04 C13 C14 C10 C37 C40",
    T + "rdst.py": "C01 C03 C12 C09 C25 C15 C33 C34 C11 C06 C10 C04 C02 C37 C38 C39 C40",
    "utils/checks_utils.py": "C24 C25 C15 C12",
    "utils/dataset_utils.py": "C21 C20 C35 C31 C23 C32",
    "utils/experiments_utils.py": "C22 C23",
    "utils/numba_utils.py": "C30 C31 C32",
    "utils/plot_utils.py": "C28 C29 C41",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
       ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
CMP2 = {ast.Lt: ">", ast.Gt: "<", ast.LtE: ">=", ast.GtE: "<="}
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "+",
       ast.Pow: "*", ast.BitAnd: "|", ast.BitOr: "&"}


def offsets(src):
    out, k = [], 0
    for line in src.split("\n"):
        out.append(k)
        k += len(line) + 1
    return out


def mutants(src):
    tree = ast.parse(src)
    off = offsets(src)
    lines = src.split("\n")

    def pos(l, c):
        return off[l - 1] + len(lines[l - 1].encode()[:c].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and \
                isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))
            docs.add(id(n.body[0].value))
    out = []

    def seg(n):
        a, b = span(n)
        return src[a:b]

    def add(n, new, kind):
        a, b = span(n)
        out.append((a, b, new, kind, n.lineno))

    def walk(n, fn, deco=False):
        if id(n) in docs or deco:
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = seg(n.left), seg(n.comparators[0])
            for tab in (CMP, CMP2):
                o = tab.get(type(n.ops[0]))
                if o:
                    add(n, "(%s %s %s)" % (l, o, r), "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS:
            if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) and \
                    not isinstance(n.left, ast.JoinedStr):
                add(n, "(%s %s %s)" % (seg(n.left), OPS[type(n.op)], seg(n.right)), "op")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join("(%s)" % seg(v) for v in n.values) + ")", "bool")
            for v in n.values:
                add(n, "(%s)" % seg(v), "bool1")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            add(n, "(%s)" % seg(n.operand), "unary")
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add(n, str(not v), "const")
            elif isinstance(v, int):
                add(n, str(v + 1), "const")
                if v > 0:
                    add(n, str(v - 1), "const")
            elif isinstance(v, float):
                add(n, repr(v * 1.25 + (0.25 if v == 0 else 0)), "const")
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ("copy", "astype", "ravel", "reshape",
                                                           "sort", "flatten"):
                add(n, seg(f.value), "unwrap")
            for k in n.keywords:
                a, b = span(n)
                ka, kb = pos(k.value.lineno, k.value.col_offset), span(k.value)[1]
                name = "%s=" % k.arg if k.arg else "**"
                st = src.rfind(name, a, ka) if k.arg else -1
                if st > 0:
                    e = kb
                    while e < b and src[e] in " \n,":
                        e += 1
                    out.append((st, e if src[e - 1] != ")" else e, "", "kwarg", n.lineno))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                for i in range(len(n.args) - 1):
                    a0, b0 = span(n.args[i])
                    a1, b1 = span(n.args[i + 1])
                    if src[a0:b0] != src[a1:b1]:
                        out.append((a0, b1, src[a1:b1] + src[b0:a1] + src[a0:b0], "swap",
                                    n.lineno))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return, ast.Raise, ast.Delete,
                          ast.Break, ast.Continue)) and fn:
            if not isinstance(n, ast.Return):
                add(n, "pass", "del")
            if isinstance(n, ast.AugAssign):
                o = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}.get(type(n.op))
                if o:
                    add(n, "%s %s %s" % (seg(n.target), o, seg(n.value)), "aug")
                add(n, "%s = %s" % (seg(n.target), seg(n.value)), "aug")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, "True", "cond")
            add(n.test, "False", "cond")
        if isinstance(n, (ast.FunctionDef,)):
            fn = n.name
            for c in n.body:
                walk(c, fn)
            return
        for c in ast.iter_child_nodes(n):
            walk(c, fn)
    for c in tree.body:
        walk(c, None)
    seen, res = set(), []
    for a, b, new, kind, line in out:
        t = src[:a] + new + src[b:]
        if t in seen or t == src:
            continue
        seen.add(t)
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        res.append((line, kind, src[a:b], new, t))
    return res


lock = threading.Lock()


def one(m, scale):
    d = tempfile.mkdtemp(prefix="mut_")
    root = os.path.join(d, "repo")
    try:
        os.makedirs(root)
        for n in ("convst", "tests"):
            shutil.copytree(os.path.join(REPO, n), os.path.join(root, n),
                            ignore=shutil.ignore_patterns("__pycache__"))
        with open(os.path.join(root, "convst", m["file"]), "w", newline="") as f:
            f.write(m["text"])
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        if m["file"].startswith("utils/checks"):
            p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p",
                                "no:cacheprovider", "tests/test_checks_utils.py"], cwd=root, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
            if p.returncode:
                return "tests"
        env.update(VERIF_REPO=root, VERIF_SHARDS=os.environ.get("VERIF_SHARDS", "1"),
                   VERIF_JOBS=os.environ.get("VERIF_JOBS", "1"),
                   VERIF_SCALE=str(scale), VERIF_OUT=d, VERIF_BUDGET_S=os.environ.get("MUT_BUDGET", "60"))
        odd = ""
        for c in os.environ.get("MUT_CHECKS", MAP[m["file"]]).split():
            try:
                p = subprocess.run(["python3-vt", os.path.join(V, "run.py"), c], env=env, cwd=V,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   timeout=400)
            except subprocess.TimeoutExpired:
                odd += " timeout:" + c
                continue
            if p.returncode == 1 and "VIOLATION property=%s " % c in p.stdout:
                return c
            if p.returncode:
                odd += " rc%d:%s:%s" % (p.returncode, c, p.stdout[-200:])
        return "survived" + odd
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-s", type=float, default=0.1)
    ap.add_argument("-n", type=int, default=1)
    ap.add_argument("--again", action="store_true", help="only the survivors in OUT")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("-f", dest="files", nargs="*", default=[])
    a = ap.parse_args()
    res = json.load(open(a.out)) if os.path.exists(a.out) else {}
    todo = []
    for f in a.files or sorted(MAP):
        src = open(os.path.join(REPO, "convst", f), newline="").read()
        for i, (line, kind, old, new, t) in enumerate(mutants(src)):
            k = "%s:%d:%s:%s -> %s" % (f, line, kind, old, new)
            if a.again:
                if not str(res.get(k, "")).startswith("survived"):
                    continue
            elif k in res or i % a.n:
                continue
            todo.append({"key": k, "file": f, "text": t})
    print(len(todo), "mutants", flush=True)
    if a.list:
        return
    done = [0]

    def run(m):
        try:
            r = one(m, a.s)
        except Exception as e:
            r = "harness %r" % e
        with lock:
            res[m["key"]] = r
            done[0] += 1
            if r.startswith(("survived", "harness")):
                print(m["key"].replace("\n", " ")[:200], "=>", r[:200], flush=True)
            if done[0] % 20 == 0:
                json.dump(res, open(a.out, "w"), indent=0)
                print("--", done[0], flush=True)
    with cf.ThreadPoolExecutor(a.j) as ex:
        list(ex.map(run, todo))
    json.dump(res, open(a.out, "w"), indent=0)


if __name__ == "__main__":
    main()
