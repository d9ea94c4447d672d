"""C20: output containers."""

import numpy as np
from hypothesis import strategies as st

import pystrata as ps

from .. import gen, outs
from ..core import Sub
from .c06 import warmup  # noqa: F401

RULE = (
    "histories of up to 10 steps (calculation with or without a name, reset) over one to three outputs of any type, drawing "
    "from a pool of one to four calculations with different profiles (number of layers, whole-number values) and record "
    "lengths, compared with a list of single results after every step; non-trivial = at least three calculations recorded at once"
)
ASSUMPTIONS = ["each calculation can be evaluated by each output (no failing calculations)"]


@st.composite
def case_(draw):
    kinds = draw(st.sampled_from([outs.PROFILE, outs.TS, outs.SPECTRA, outs.PROFILE + outs.TS + outs.SPECTRA]))
    os_ = [draw(outs.output(kinds)) for _ in range(draw(st.integers(1, 3)))]
    # the peak strains are reported by equivalent-linear analyses
    calcs = ["EQL"] if {"MaxStrain", "CSR"} & {o["kind"] for o in os_} else ["LE", "EQL"]
    runs = [draw(outs.run(calcs=calcs)) for _ in range(draw(st.integers(1, 4)))]
    names = st.none() | st.sampled_from(["a", "b", "r1", "case 2", "", 0, 7]) | st.tuples(st.sampled_from("xy"), st.integers(1, 2))
    step = st.integers(0, 9).flatmap(
        lambda k: st.just({"op": "reset"})
        if k == 0
        else st.fixed_dictionaries({"op": st.just("call"), "i": st.integers(0, 3), "name": names, "each": st.booleans(), "only": st.sampled_from([None, None, None, 0, 1, 2])})
    )
    return {"o": os_, "runs": runs, "steps": draw(st.lists(step, min_size=1, max_size=10)), "same_len": draw(st.booleans()), "share": draw(st.sampled_from([None, None, "motion", "motion", "calc", "profile"]))}


def single(o, calc):
    """The result of one calculation, from an output of its own."""
    out = outs.build_output(ps, o)
    out(calc)
    return np.array(out.refs), np.array(out.values)


def check(out, o, model):
    names = [m[0] for m in model]
    assert list(out.names) == names, f"names {out.names} != {names}"
    const = o["kind"] in outs.SPECTRA
    if const:
        gen.close(np.asarray(out.refs, dtype=float), np.array(o["f"]), rtol=1e-12, what="references given by the user")
    if not model:
        assert out.values is None, "values after reset"
        if not const:
            assert len(out.refs) == 0, "references after reset"
        assert list(out.iter_results()) == []
        return
    n = len(model)
    size = max(len(m[2]) for m in model)
    values = np.asarray(out.values)
    assert values.shape == ((size,) if n == 1 else (size, n)), f"values of shape {values.shape} for {n} results of up to {size}"
    values = values.reshape(size, n)
    refs = np.asarray(out.refs)
    if not const:
        rsize = max(len(m[1]) for m in model)
        assert refs.shape == ((rsize,) if n == 1 else (rsize, n)), f"references of shape {refs.shape}"
        refs = refs.reshape(rsize, n)
    for i, (name, ref, val) in enumerate(model):
        k = len(val)
        gen.close(values[:k, i], val, rtol=1e-12, what=f"result {i}")
        assert np.all(np.isnan(values[k:, i])), "missing values"
        if not const:
            k = len(ref)
            gen.close(refs[:k, i], ref, rtol=1e-12, what=f"references {i}")
            assert np.all(np.isnan(refs[k:, i])), "missing references"
    got = list(out.iter_results())
    assert [g[0] for g in got] == names
    for i, (_, ref, val) in enumerate(got):
        gen.close(np.asarray(val), values[:, i], rtol=0, what="iterated values")
        gen.close(np.asarray(ref, dtype=float), np.array(o["f"]) if const else refs[:, i], rtol=1e-12, what="iterated references")


def fn(case, t):
    if not all(outs.usable(o, r["p"]) for o in case["o"] for r in case["runs"]):
        t.reject("normalised stress needs a depth in the soil")
    runs = case["runs"]
    if case["same_len"]:
        runs = [dict(r, m=dict(runs[0]["m"], seed=i)) for i, r in enumerate(runs)]
    share = case.get("share")
    if share in ("motion", "calc"):
        runs = [dict(r, m=runs[0]["m"]) for r in runs]
    elif share == "profile":
        runs = [dict(r, p=runs[0]["p"]) for r in runs]
    mot = gen.build_motion(ps, runs[0]["m"]) if share == "motion" else None
    prof = gen.build_profile(ps, runs[0]["p"]) if share == "profile" else None
    # Calculators, run afresh before every call when they share objects
    made = {}

    def calculator(i):
        if share is None:
            if i not in made:
                made[i] = outs.do_run(ps, runs[i])
            return made[i]
        if share == "calc":
            made[runs[i]["calc"]] = outs.do_run(ps, runs[i], calc=made.get(runs[i]["calc"]))
            return made[runs[i]["calc"]]
        return outs.do_run(ps, runs[i], mot=mot, prof=prof)

    members = [outs.build_output(ps, o) for o in case["o"]]
    coll = ps.output.OutputCollection(members)
    assert len(coll) == len(members) and list(coll) == members
    assert all(m in coll for m in members) and all(coll[i] is m for i, m in enumerate(members))
    model = [[] for _ in members]
    best = 0
    for step in case["steps"]:
        if step["op"] == "reset":
            coll.reset()
            model = [[] for _ in members]
            t.label("reset")
        else:
            i = step["i"] % len(runs)
            calc = calculator(i)
            name = tuple(step["name"]) if isinstance(step["name"], list) else step["name"]
            only = step.get("only")
            some = range(len(members)) if only is None else [only % len(members)]
            if step["each"] or only is not None:
                for j in some:
                    members[j](calc, name) if name is not None else members[j](calc)
            else:
                coll(calc, name) if name is not None else coll(calc)
            for j in some:
                res = single(case["o"][j], calc)
                model[j].append((f"r{len(model[j]) + 1}" if name is None else name, *res))
        for out, o, mod in zip(members, case["o"], model):
            check(out, o, mod)
        best = max(best, *map(len, model))
    t.nt(best >= 3)
    sizes = [len(m[2]) for m in model[0]]
    t.label("different lengths", len(set(sizes)) > 1)
    t.label("longer later", len(sizes) > 1 and sizes[-1] > sizes[0])
    t.label("members differ", len({len(m) for m in model}) > 1)
    t.label(f"shared {share}", share is not None)
    for o in case["o"]:
        t.label(o["kind"])


# ------------------------------------------------------- refusal
@st.composite
def refuse_case(draw):
    return {
        "o": draw(outs.output(["AccelTS", "AriasTS"])),
        "rvt": draw(outs.run(ts=False, max_layers=2)),
        "ts": draw(outs.run(max_layers=2)),
        "n": draw(st.integers(0, 3)),
        "coll": draw(st.booleans()),
    }


def fn_refuse(case, t):
    """Time series of a motion that has none are refused and leave no trace."""
    out = outs.build_output(ps, case["o"])
    coll = ps.output.OutputCollection([out])
    ok, bad = outs.do_run(ps, case["ts"]), outs.do_run(ps, case["rvt"])
    model = []
    for k in range(case["n"] + 1):
        try:
            (coll if case.get("coll") else out)(bad)
        except NotImplementedError:
            pass
        else:
            raise AssertionError("time series of a random-vibration motion")
        check(out, case["o"], model)
        if k < case["n"]:
            out(ok)
            model.append((f"r{k + 1}", *single(case["o"], ok)))
            check(out, case["o"], model)
    t.nt(case["n"] > 0)


# ---------------------------------------------------------- many results
@st.composite
def many_case(draw):
    return {
        "o": draw(st.lists(outs.output(outs.PROFILE + outs.TS + outs.SPECTRA), min_size=1, max_size=2)),
        "runs": [draw(outs.run(calcs=["EQL"])) for _ in range(draw(st.integers(1, 3)))],
        "seed": draw(gen.seeds()),
        "n": draw(st.integers(9, 150)) if draw(st.integers(0, 9)) else draw(st.sampled_from([257, 300, 520])),
        "named": draw(st.booleans()),
    }


def fn_many(case, t):
    """As many results as a study with many motions and realisations."""
    if not all(outs.usable(o, r["p"]) for o in case["o"] for r in case["runs"]):
        t.reject("normalised stress needs a depth in the soil")
    rng = np.random.RandomState(case["seed"])
    calcs = [outs.do_run(ps, r) for r in case["runs"]]
    once = [[single(o, c) for c in calcs] for o in case["o"]]
    members = [outs.build_output(ps, o) for o in case["o"]]
    coll = ps.output.OutputCollection(members)
    model = [[] for _ in members]
    for k in range(case["n"]):
        i = rng.randint(len(calcs))
        name = f"p{k % 7}m{k // 7}" if case["named"] else None
        coll(calcs[i], name) if name is not None else coll(calcs[i])
        for j in range(len(members)):
            model[j].append((f"r{k + 1}" if name is None else name, *once[j][i]))
    for out, o, mod in zip(members, case["o"], model):
        check(out, o, mod)
    coll.reset()
    for out, o in zip(members, case["o"]):
        check(out, o, [])
    t.nt(len({len(m[2]) for m in model[0]}) > 1 or case["n"] > 64)
    t.label("more than 99 results", case["n"] > 99)


SUBS = [
    Sub("many results", many_case, fn_many, 100),
    Sub("histories", case_, fn, 1200),
    Sub("refused", refuse_case, fn_refuse, 100),
]
