"""C23: logic trees enumerate exactly the admissible branches."""

import gzip
import json
import os
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from pystrata.logic_tree import Alternative, LogicTree, Node

from .. import gen
from ..core import Sub

RULE = (
    "trees of one to five nodes with one to four alternatives of text, whole, real or tuple values (repeated and mixed values, zero "
    "weights), requirement and exclusion rules by value or list of values on any other node, compared with a brute-force "
    "enumeration; non-trivial = at least one rule removes a combination and at least two branches remain"
)
ASSUMPTIONS = [
    "rules name nodes of the tree and node names are unique",
    "real values in rules are equal to an alternative up to 1e-9 or differ by more than 0.02%",
]

VALUES = {
    "text": ["a", "b", "surface wave", "", "\u03b2"],
    "int": [0, 1, 2, -3, 100, 400000, 400001],
    "float": [0.5, 1.0, 2.0, 4.6, 1e-3, -0.25, 4.61, 2.002, 2e-7, 5e-7],
    "tuple": [{"t": ["x", "y"]}, {"t": ["x"]}, {"t": ["y", "x"]}],
}


def de(v):
    return tuple(v["t"]) if isinstance(v, dict) else v


@st.composite
def values_(draw, tuples=True):
    kinds = ["text", "int", "float", "mixed"] + (["tuple"] if tuples else [])
    kind = draw(st.sampled_from(kinds))
    pool = VALUES["text"][:2] + ["1", "2.0"] + VALUES["int"][:3] + VALUES["float"][:4] if kind == "mixed" else VALUES[kind]
    return draw(st.lists(st.sampled_from(pool), min_size=1, max_size=4))


@st.composite
def case_(draw, tuples=True):
    n = draw(st.integers(1, 5))
    names = draw(st.permutations(["method", "vs", "zeta", "n 1", "k", "vs30", "me"]))[:n]
    nodes = []
    for i in range(n):
        alts = []
        for v in draw(values_(tuples)):
            w = draw(st.sampled_from([1, 1.0, 0.5, 0.3, 0, 0.0]) | gen.fl(0.001, 1.0, 4) | gen.logf(1e-6, 1.0, 3))
            alts.append({"v": v, "w": draw(st.sampled_from([w, None])), "req": {}, "exc": {}, "params": draw(st.sampled_from([None, {"q": 1}]))})
        nodes.append({"n": names[i], "alts": alts})
    jitter = draw(st.booleans())

    def rule(i):
        out = {}
        others = [k for k in range(n) if k != i]
        for k in draw(st.lists(st.sampled_from(others), max_size=2, unique=True)):
            pool = [a["v"] for a in nodes[k]["alts"]]
            x = st.sampled_from(pool) | st.sampled_from(pool + ["other", 7, 0.125])
            if draw(st.booleans()):
                v = draw(x)
                if jitter and isinstance(v, float):
                    v = v * (1 + 1e-10)
                elif draw(st.integers(0, 3)) == 0 and isinstance(v, int) and v < 1000:
                    v = float(v)
            else:
                v = draw(st.lists(x, min_size=1, max_size=3))
            out[nodes[k]["n"]] = v
        return out

    if n > 1:
        for i in range(n):
            for a in nodes[i]["alts"]:
                if draw(st.booleans()):
                    a["req"] = rule(i)
                if draw(st.booleans()):
                    a["exc"] = rule(i)
    return {"nodes": nodes, "omit": draw(st.booleans())}


def kwargs(a, omit, real=True):
    f = de if real else (lambda v: v)
    fr = lambda r: {k: [f(x) for x in v] if isinstance(v, list) else f(v) for k, v in r.items()}
    out = {"value": f(a["v"])}
    if a["w"] is not None:
        out["weight"] = a["w"]
    if a["req"] or not omit:
        out["requires"] = fr(a["req"])
    if a["exc"] or not omit:
        out["excludes"] = fr(a["exc"])
    if a["params"] is not None:
        out["params"] = dict(a["params"])
    return out


def build(case):
    nodes = []
    for nd in case["nodes"]:
        alts = []
        for a in nd["alts"]:
            kw = kwargs(a, case["omit"])
            alts.append(kw["value"] if len(kw) == 1 else Alternative(**kw))
        nodes.append(Node(nd["n"], alts))
    return LogicTree(nodes)


def same(a, b):
    """Equality of values, with reals compared up to rounding."""
    num = (int, float)
    if isinstance(a, num) and isinstance(b, num):
        if isinstance(a, float):
            return abs(a - b) <= 1e-8 * max(abs(a), abs(b))
        return a == b
    return type(a) is type(b) and a == b


def meets(rule, combo):
    """Do all entries of a rule match the combination {name: value}?"""
    for k, want in rule.items():
        v = combo[k]
        if isinstance(want, list):
            if not any(de(w) == v for w in want):
                return False
        elif not same(de(want), v):
            return False
    return True


def brute(case):
    """[(values, weight)] in order, and the number of combinations removed by rules."""
    out, seen, removed = [], [], 0
    nodes = case["nodes"]

    def walk(i, chosen):
        nonlocal removed
        if i == len(nodes):
            combo = {nd["n"]: de(a["v"]) for nd, a in zip(nodes, chosen)}
            for a in chosen:
                if a["req"] and not meets(a["req"], combo):
                    removed += 1
                    return
                if a["exc"] and meets(a["exc"], combo):
                    removed += 1
                    return
            if combo in seen:
                return
            seen.append(combo)
            w = 1.0
            for a in chosen:
                w *= 1.0 if a["w"] is None else a["w"]
            out.append((combo, w, chosen))
            return
        for a in nodes[i]["alts"]:
            if a["w"] is None or a["w"] > 0:
                walk(i + 1, chosen + [a])

    walk(0, [])
    return out, removed


def typed(d):
    return {k: (type(v).__name__, v) for k, v in d.items()}


def check(tree, want):
    got = list(tree)
    assert len(got) == len(want), f"{len(got)} branches, expected {len(want)}: {[b.as_dict() for b in got]}"
    for b, (combo, w, chosen) in zip(got, want):
        assert b.as_dict() == combo and typed(b.as_dict()) == typed(combo), f"branch {b.as_dict()} expected {combo}"
        assert abs(b.weight - w) <= 1e-12 * w, f"weight {b.weight} of {combo}, expected {w}"
        for (k, v), a in zip(combo.items(), chosen):
            assert b.value(k) == v and b[k].value == v and k in b
            assert b[k].params == (a["params"] or {})
        assert "no such node" not in b
        assert tree.is_valid(b)
    return got


def fn(case, t):
    want, removed = brute(case)
    tree = build(case)
    check(tree, want)
    check(tree, want)  # iterating does not use the tree up
    # the weights of a tree without rules and repeated values add up
    t.nt(removed > 0 and len(want) >= 2)
    t.label("rules remove combinations", removed > 0)
    t.label("no branch left", not want)
    # nodes and alternatives
    for nd in case["nodes"]:
        node = tree[nd["n"]]
        assert node is not None and node.name == nd["n"] and len(node) == len(nd["alts"])
        vals = [de(a["v"]) for a in nd["alts"]]
        assert node.options == tuple(vals)
        for i, (v, a) in enumerate(zip(vals, nd["alts"])):
            assert node[i].value == v and node[i].weight == (1 if a["w"] is None else a["w"])
            found = node.by_value(v)
            first = min(k for k, x in enumerate(vals) if same(v, x) or x == v)
            assert found is node[first], f"by_value({v!r})"
        assert node.by_value("no such value") is None and node.by_value(7.125) is None and node.by_value(77) is None
        live = [v for v, a in zip(vals, nd["alts"]) if a["w"] is None or a["w"] > 0]
        assert [x.value for x in node] == live and all(x.name == nd["n"] for x in node)
        if len({type(v) for v in vals}) == 1 and not isinstance(vals[0], tuple):
            da = node.to_xarray("dim", "nm")
            assert da.dims == ("dim",) and da.name == "nm"
            assert list(da.coords["dim"].values) == vals
            assert list(da.values) == [1 if a["w"] is None else a["w"] for a in nd["alts"]]
    assert tree["no such node"] is None
    # the rules of one alternative on a branch
    for combo, _, chosen in want[:6]:
        branch = next(b for b in tree if b.as_dict() == combo)
        for nd in case["nodes"]:
            for k, a in enumerate(nd["alts"]):
                ok = (not a["req"] or meets(a["req"], combo)) and not (a["exc"] and meets(a["exc"], combo))
                assert bool(tree[nd["n"]][k].is_valid(branch)) == ok, f"alternative {a} on the branch {combo}"


# ---------------------------------------------------------------- files
def fn_files(case, t):
    dicts = [{"name": nd["n"], "alts": [kwargs(a, case["omit"], False) for a in nd["alts"]]} for nd in case["nodes"]]
    want, removed = brute(case)
    text = json.dumps(dicts)
    check(LogicTree.from_list(json.loads(text)), want)
    direct = build(case)
    with tempfile.TemporaryDirectory(dir=os.environ.get("PBT_SCRATCH")) as d:
        a, b = os.path.join(d, "t.json"), os.path.join(d, "t.json.gz")
        with open(a, "w") as fp:
            fp.write(text)
        with gzip.open(b, "wt") as fp:
            fp.write(text)
        from pathlib import Path

        c = os.path.join(d, "of.the.site.gz")
        with gzip.open(c, "wt") as fp:
            fp.write(text)
        for f in (a, b, Path(a), Path(b), c):
            tree = LogicTree.from_json(f)
            check(tree, want)
            assert tree == direct, "tree read from a file differs from the tree built directly"
    t.nt(removed > 0 and len(want) >= 2)


# ---------------------------------------------------------------- quadrature
def fn_miller(case, t):
    for n in range(2, 11):
        miller(dict(case, n=n), t)


with (Path(__file__).parents[1] / "data" / "miller_rice.json").open() as _fp:
    MILLER_RICE = {int(k): np.array(v) for k, v in json.load(_fp).items()}


def miller(case, t):
    n = case["n"]
    node = Node.from_miller_rice(case["name"], n)
    assert node.name == case["name"] and len(node) == n
    v = np.array(node.options)
    w = np.array([a.weight for a in node.alts])
    # as published (Miller and Rice 1983, Table 3)
    gen.close(v, MILLER_RICE[n][:, 0], rtol=0, atol=2e-6, what="fractions")
    gen.close(w, MILLER_RICE[n][:, 1], rtol=0, atol=2e-6, what="weights")
    assert abs(w.sum() - 1) < 3e-6, f"total weight {w.sum()}"
    assert np.all(np.diff(v) > 0) and v[0] > 0 and v[-1] < 1
    assert np.abs(v + v[::-1] - 1).max() < 1.5e-6, "symmetric fractions"
    assert np.abs(w - w[::-1]).max() < 1e-9, "symmetric weights"
    c = np.r_[0, np.cumsum(w)]
    assert np.all(v > c[:-1] + 0.3 * w) and np.all(v < c[1:] - 0.3 * w), "fraction inside its bracket"
    # variance approaches that of the uniform distribution as 1/n^2
    var = (w * (v - 0.5) ** 2).sum() * 12
    assert 1 + 0.2 / n**2 < var < 1 + (0.5 if n > 2 else 1.4) / n**2, f"variance ratio {var}"
    # each count refines the previous: lower tails shrink
    if n > 2:
        prev = Node.from_miller_rice("p", n - 1)
        assert v[0] < prev[0].value and w[0] < prev[0].weight
    tree = LogicTree([node, Node("other", [1, 2])])
    ws = [b.weight for b in tree]
    assert len(ws) == 2 * n and abs(sum(ws) / 2 - 1) < 3e-6
    t.nt()


SUBS = [
    Sub("enumeration", case_, fn, 3000),
    Sub("files", lambda: case_(tuples=False), fn_files, 600),
    Sub("miller-rice", lambda: st.fixed_dictionaries({"name": st.sampled_from(["a", "vs"])}), fn_miller, 6, 6),
]
