#!/usr/bin/env python3
"""Mutation sweep: which small changes of pystrata does no check notice?

`tools/mutate.py MAP.json OUT.jsonl [--n N] [--seed S] [--files a.py,b.py] [--scale X] [--jobs J]`

MAP.json maps "file.py:line" to the checks reaching that line (PBT_LINES).  Every
mutant is one edit of one line in a scratch copy of /repo/src; the checks reaching the line run at a
fraction of the quick budget until one reports a violation.  Survivors are
read by hand: equivalent, outside every property, or a gap to close.
"""
import argparse
import ast
import collections
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import tempfile
import threading

SRC = "/repo/src/pystrata"
FILES = ["generic", "logic_tree", "motion", "output", "propagation", "site", "tools", "variation"]
SKIP_FUNCS = {"plot", "_modify_plot", "load_shake_inp", "parse_profile", "parse_curves", "parse_motion", "parse_location", "parse_opt",
              "to_float", "to_str", "_parse", "__repr__", "_repr_html_", "xlabel", "ylabel", "_get_xy"}
ALL = [f"C{i:02d}" for i in range(1, 31)]


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for line in self.lines:
            self.off.append(self.off[-1] + len(line.encode()))
        self.b = src.encode()
        self.out = []
        self.stack = []

    def pos(self, line, col):
        return self.off[line - 1] + col

    def span(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def add(self, n, new, kind, a=None, z=None):
        if a is None:
            a, z = self.span(n)
        if self.stack:
            self.out.append((n.lineno, a, z, new, kind, ".".join(self.stack)))

    def text(self, n):
        a, z = self.span(n)
        return self.b[a:z].decode()

    def visit_FunctionDef(self, n):
        if n.name in SKIP_FUNCS or n.name.startswith("_parse_") or n.name.startswith("plot"):
            return
        self.stack.append(n.name)
        for s in n.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.visit(s)
        for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
            self.visit(d)
        self.stack.pop()

    def visit_ClassDef(self, n):
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.Assign)):
                self.stack.append(n.name)
                self.visit(s)
                self.stack.pop()

    def visit_Raise(self, n):
        self.add(n, "pass", "no raise")

    def visit_JoinedStr(self, n):
        pass

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def between(self, n, left, right, new, kind):
        a, z = self.span(left)[1], self.span(right)[0]
        mid = self.b[a:z].decode()
        if "\n" in mid or "(" in mid or ")" in mid or "#" in mid:
            # keep brackets, replace the operator only
            for op in ("**", "//", "<=", ">=", "==", "!=", "not in", "is not", "and", "or", "in", "is", "+", "-", "*", "/", "<", ">", "%", "@", "|", "&"):
                i = mid.find(op)
                if i >= 0 and "#" not in mid:
                    self.add(n, mid[:i] + new + mid[i + len(op):], kind, a, z)
                    return
            return
        self.add(n, f" {new} ", kind, a, z)

    def visit_BinOp(self, n):
        swaps = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"], ast.Mod: ["*"], ast.FloorDiv: ["/"]}
        for new in swaps.get(type(n.op), []):
            self.between(n, n.left, n.right, new, f"{type(n.op).__name__}->{new}")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        s = self.text(n)
        for a, b in (("+=", "-="), ("*=", "/="), ("-=", "+="), ("/=", "*=")):
            if a in s.split("\n")[0]:
                self.add(n, s.replace(a, b, 1), f"{a}->{b}")
                break
        self.generic_visit(n)

    def visit_Compare(self, n):
        swaps = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
                 ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
        if len(n.ops) == 1:
            for new in swaps.get(type(n.ops[0]), []):
                self.between(n, n.left, n.comparators[0], new, f"{type(n.ops[0]).__name__}->{new}")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        if len(n.values) == 2:
            new = "or" if isinstance(n.op, ast.And) else "and"
            self.between(n, n.values[0], n.values[1], new, f"bool->{new}")
            self.add(n, "(" + self.text(n.values[0]) + ")", "first operand only")
            self.add(n, "(" + self.text(n.values[1]) + ")", "second operand only")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            self.add(n, "(" + self.text(n.operand) + ")", "no minus")
        elif isinstance(n.op, ast.USub):
            v = n.operand.value
            self.add(n, repr(-(v + 1) if isinstance(v, int) else -v * 1.1), "constant")
            return
        elif isinstance(n.op, ast.Not):
            self.add(n, "(" + self.text(n.operand) + ")", "no not")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.add(n, repr(not v), "flag")
        elif isinstance(v, int):
            self.add(n, repr(v + 1), "constant")
        elif isinstance(v, float):
            self.add(n, repr(v * 1.1 if v else 0.1), "constant")

    def visit_If(self, n):
        self.add(n.test, "True", "always")
        self.add(n.test, "False", "never")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, "(" + self.text(n.body) + ")", "always")
        self.add(n, "(" + self.text(n.orelse) + ")", "never")
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call):
            self.add(n, "pass", "no call")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.add(n, "pass", "no assignment")
        self.generic_visit(n)

    def visit_Call(self, n):
        name = ast.unparse(n.func)
        for a, b in (("max", "min"), ("minimum", "maximum"), ("cumsum", "cumprod"), ("abs", "real"), ("any", "all"), ("mean", "sum"), ("log", "log10"),
                     ("exp", "expm1"), ("floor", "ceil"), ("isclose", "greater")):
            for x, y in ((a, b), (b, a)):
                if name == "np." + x:
                    self.add(n.func, "np." + y, f"{x}->{y}")
        for k in n.keywords:
            if k.arg:
                a, z = self.span(k)
                while self.b[a - 1:a] in (b" ", b"\n"):
                    a -= 1
                if self.b[a - 1:a] == b",":
                    self.add(k, "", f"drop {k.arg}", a - 1, z)
        if len(n.args) == 1 and name.endswith((".copy", "np.array", "np.abs", "sorted", "deepcopy")):
            self.add(n, "(" + self.text(n.args[0]) + ")", "unwrapped")
        if not n.args and name.endswith(".copy"):
            self.add(n, self.text(n.func)[: -len(".copy")], "no copy")
        self.generic_visit(n)

    def visit_Return(self, n):
        self.generic_visit(n)

    def visit_Break(self, n):
        self.add(n, "continue", "break->continue")

    def visit_Continue(self, n):
        self.add(n, "pass", "no continue")


def mutants(files):
    for f in files:
        src = open(f"{SRC}/{f}.py").read()
        g = Gen(src)
        g.visit(ast.parse(src))
        seen = set()
        for line, a, z, new, kind, fn in g.out:
            key = (a, z, new)
            if key in seen or g.b[a:z].decode() == new:
                continue
            seen.add(key)
            text = (g.b[:a] + new.encode() + g.b[z:]).decode()
            try:
                ast.parse(text)
            except SyntaxError:
                continue
            yield {"file": f + ".py", "line": line, "kind": kind, "func": fn, "old": g.b[a:z].decode()[:120], "new": new[:120], "a": a, "z": z, "newtext": new,
                   "src": g.lines[line - 1].strip()[:120]}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("map")
    ap.add_argument("out")
    ap.add_argument("--n", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--files", default=",".join(FILES))
    ap.add_argument("--scale", default="0.25")
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--only", help="a jsonl of mutants to run again")
    ap.add_argument("--verif", default="/verif")
    a = ap.parse_args()
    cov = json.load(open(a.map))
    by_func = collections.defaultdict(collections.Counter)
    ms = list(mutants(a.files.split(",")))
    print(len(ms), "mutants", flush=True)
    random.Random(a.seed).shuffle(ms)
    if a.only:
        want = {(m["file"], m["a"], m["z"], m["newtext"]) for m in map(json.loads, open(a.only))}
        ms = [m for m in ms if (m["file"], m["a"], m["z"], m["newtext"]) in want]
    done = set()
    if os.path.exists(a.out):
        done = {(m["file"], m["a"], m["z"], m["newtext"]) for m in map(json.loads, open(a.out))}
    ms = [m for m in ms if (m["file"], m["a"], m["z"], m["newtext"]) not in done]
    rnd = random.Random(a.seed)
    ms = [m for m in ms if m["file"] != "site.py" or not 740 <= m["line"] <= 1520 or rnd.random() < 0.15]
    if a.n:
        ms = ms[: a.n]
    slots = []
    root = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    for i in range(a.jobs):
        d = f"{root}/{i}"
        os.makedirs(d + "/src")
        shutil.copytree(SRC, d + "/src/pystrata", ignore=shutil.ignore_patterns("__pycache__"))
        os.makedirs(d + "/numba")
        slots.append(d)
    lock = threading.Lock()
    size = collections.Counter(c for v in cov.values() for c in v)
    by_file = collections.defaultdict(collections.Counter)
    outf = open(a.out, "a")

    def one(m):
        with lock:
            d = slots.pop()
        try:
            p = f"{d}/src/pystrata/{m['file']}"
            b = open(f"{SRC}/{m['file']}", "rb").read()
            open(p, "wb").write(b[: m["a"]] + m["newtext"].encode() + b[m["z"]:])
            cand = set(cov.get(f"{m['file']}:{m['line']}", []))
            if not cand:  # defaults, tables and continuation lines are never the line traced: take the nearest ones that are
                for sign in (-1, 1):
                    for k in range(1, 40):
                        near = cov.get(f"{m['file']}:{m['line'] + sign * k}")
                        if near:
                            cand |= set(near)
                            break
            if m["file"] == "propagation.py" and 60 <= m["line"] <= 325:
                cand |= {"C01", "C02", "C04", "C05", "C09", "C12"}
            if m["file"] == "site.py" and 600 <= m["line"] <= 1520:
                cand |= {"C14"}
            m["cand"] = sorted(cand)
            hist = by_func[m["file"] + m["func"]]
            order = sorted(cand, key=lambda c: (-hist[c], -by_file[m["file"]][c], size[c]))
            m["killed"] = None
            m["ran"] = []
            for c in order:
                env = dict(os.environ, PBT_REPO=d, PBT_OUT=d + "/out", PBT_NUMBA_CACHE=d + "/numba", VERIF_SEED="7", PBT_NO_SHRINK="1")
                try:
                    r = subprocess.run(["./check", c, "--workers", "1", "--scale", a.scale], cwd=a.verif, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
                    rc, txt = r.returncode, r.stdout
                except subprocess.TimeoutExpired:
                    rc, txt = -9, "timeout"
                m["ran"].append(c)
                if rc:
                    m["killed"] = c
                    m["how"] = [x for x in txt.splitlines() if x.startswith("sub-check")][:1] or txt.splitlines()[-2:]
                    m["how"] = [x[:200] for x in m["how"]]
                    with lock:
                        hist[c] += 1
                        by_file[m["file"]][c] += 1
                    break
            shutil.copy2(f"{SRC}/{m['file']}", p)
        finally:
            with lock:
                slots.append(d)
                outf.write(json.dumps(m) + "\n")
                outf.flush()
        return m

    try:
        with cf.ThreadPoolExecutor(a.jobs) as ex:
            k = 0
            for m in ex.map(one, ms):
                k += m["killed"] is not None
        print(len(ms), "run,", k, "killed")
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    main()
