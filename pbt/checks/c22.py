"""C22: statistics and tables of recorded results."""

import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import pystrata as ps

from .. import gen, outs
from ..core import Sub
from .c06 import warmup  # noqa: F401

RULE = (
    "two to 40 (now and then 300) results of generated calculations (profiles with different numbers of layers and depths, motions of different "
    "lengths) recorded by an output of any type, with text or tuple names; statistics and tables at generated depths (including "
    "the recorded depths, above and below all of them) compared with a per-depth loop over single results; "
    "non-trivial = results with different references, or at least three results"
)
ASSUMPTIONS = ["two or more results (a single result has no statistics)", "time series and spectra: only outputs with positive values"]


@st.composite
def case_(draw, kinds):
    o = draw(outs.output(kinds))
    calcs = ["EQL"] if o["kind"] in ("MaxStrain", "CSR") else ["LE", "EQL"]
    n = draw(st.integers(2, 6)) if draw(st.integers(0, 7)) else draw(st.integers(7, 40))
    many = draw(st.integers(0, 39)) == 0
    runs = [draw(outs.run(calcs=calcs)) for _ in range(draw(st.integers(1, min(n, 4))))]
    if o["kind"] == "ATF":
        o["absolute"] = True
    style = draw(st.sampled_from(["none", "str", "tuple"]))
    return {
        "o": o,
        "runs": runs,
        "pick": [draw(st.integers(0, 3)) for _ in range(n)],
        "times": -(-300 // n) if many else 1,
        "style": style,
        "names": [draw(st.tuples(st.sampled_from("abc"), st.integers(0, 3))) for _ in range(n)],
        "ref": draw(st.none() | st.lists(gen.fl(0.0, 120.0, 4), min_size=1, max_size=8)),
        "sort": draw(st.booleans()),
        "at": draw(st.booleans()),
    }


def build(case):
    o = case["o"]
    runs = case["runs"]
    calcs = [outs.do_run(ps, r) for r in runs]
    out = outs.build_output(ps, o)
    singles, names = [], []
    rep = case.get("times", 1)
    for k, (i, nm) in enumerate(zip(case["pick"] * rep, case["names"] * rep)):
        calc = calcs[i % len(calcs)]
        one = outs.build_output(ps, o)
        one(calc)
        singles.append((np.array(one.refs, dtype=float), np.array(one.values, dtype=float)))
        name = {"none": None, "str": f"{nm[0]}{nm[1]}", "tuple": tuple(nm)}[case["style"]]
        out(calc, name) if name is not None else out(calc)
        names.append(f"r{k + 1}" if name is None else name)
    return out, singles, names


def stats(vals):
    """Median and logarithmic standard deviation of the available values."""
    vals = [v for v in vals if not math.isnan(v)]
    if not vals:
        return math.nan, math.nan
    if min(vals) == 0:
        return 0.0, None
    ln = [math.log(v) for v in vals]
    m = sum(ln) / len(ln)
    return math.exp(m), math.sqrt(sum((x - m) ** 2 for x in ln) / len(ln))


def compare(got, rows):
    want = [stats(r) for r in rows]
    gen.close(np.asarray(got["median"]), np.array([w[0] for w in want]), rtol=1e-9, what="median")
    keep = [k for k, w in enumerate(want) if w[1] is not None]
    gen.close(np.asarray(got["ln_std"])[keep], np.array([want[k][1] for k in keep]), rtol=1e-7, atol=1e-9, what="ln_std")


def columns_ok(df, names, style):
    if style == "tuple":
        assert isinstance(df.columns, pd.MultiIndex), "tuple names become levels"
        assert [tuple(c) for c in df.columns] == names, (list(df.columns), names)
    else:
        assert list(df.columns) == names, (list(df.columns), names)


def at_depth(single, d):
    refs, vals = single
    for r, v in zip(refs, vals):
        if r >= d:
            return v
    return vals[-1]


def fn_profile(case, t):
    out, singles, names = build(case)
    before = np.array(out.values)
    ref = case["ref"]
    if ref is not None:
        ref = list(ref)
        if case["at"]:
            ref += [x for s in singles[:2] for x in s[0]]
        if case["sort"]:
            ref = sorted(ref)
        ref = np.array(ref)
    deepest = max(s[0].max() for s in singles)
    # statistics
    for frame in (False, True):
        got = out.calc_stats(as_dataframe=frame, ref=ref) if ref is not None else out.calc_stats(as_dataframe=frame)
        if ref is None:
            r = np.asarray(got.index if frame else got["ref"])
            assert r.min() == 0 and r.max() >= deepest * (1 - 1e-12), "default depths cover the results"
            assert len(r) > 10 and np.all(np.diff(r) > 0)
        else:
            r = ref
            gen.close(np.asarray(got.index if frame else got["ref"]), ref, rtol=0, what="depths")
        if frame:
            assert list(got.columns) == ["median", "ln_std"] and got.index.name == "depth"
        compare(got, [[at_depth(s, d) for s in singles] for d in r])
    # table
    df = out.to_dataframe(ref) if ref is not None else out.to_dataframe()
    columns_ok(df, names, case["style"])
    r = np.asarray(df.index)
    if ref is None:
        assert r.min() == 0 and abs(r.max() - deepest) <= 1e-9 * deepest
    else:
        gen.close(r, ref, rtol=0, what="index")
    want = np.array([[at_depth(s, d) for s in singles] for d in r])
    gen.close(df.to_numpy(), want, rtol=1e-9, what="table")
    gen.close(np.asarray(out.values), before, rtol=0, what="values after summarising")
    differ = len({tuple(s[0]) for s in singles}) > 1
    t.nt(differ or len(singles) >= 3)
    t.label("different references", differ)
    t.label(case["o"]["kind"])
    t.label("names " + case["style"])


def fn_spectra(case, t):
    out, singles, names = build(case)
    f = np.array(case["o"]["f"])
    for frame in (False, True):
        got = out.calc_stats(as_dataframe=frame)
        gen.close(np.asarray(got.index if frame else got["ref"], dtype=float), f, rtol=0, what="references")
        if frame:
            assert list(got.columns) == ["median", "ln_std"] and got.index.name == "freq"
        compare(got, [[s[1][k] for s in singles] for k in range(len(f))])
    df = out.to_dataframe()
    columns_ok(df, names, case["style"])
    gen.close(np.asarray(df.index, dtype=float), f, rtol=0, what="index")
    gen.close(df.to_numpy(), np.array([s[1] for s in singles]).T, rtol=1e-12, what="table")
    t.nt(len(singles) >= 3)
    t.label(case["o"]["kind"])
    t.label("names " + case["style"])


def fn_series(case, t):
    """Arias intensity: records of different length leave missing values."""
    out, singles, names = build(case)
    got = out.calc_stats()
    n = max(len(s[1]) for s in singles)
    rows = [[s[1][k] if k < len(s[1]) else math.nan for s in singles] for k in range(n)]
    compare(got, rows)
    gen.close(np.asarray(got["ref"]), np.asarray(out.refs), rtol=0, what="references")
    differ = len({len(s[1]) for s in singles}) > 1
    t.nt(differ or len(singles) >= 3)
    t.label("different lengths", differ)


SUBS = [
    Sub("profiles", lambda: case_(outs.PROFILE), fn_profile, 600),
    Sub("spectra", lambda: case_(outs.SPECTRA), fn_spectra, 300),
    Sub("series", lambda: case_(["AriasTS"]), fn_series, 150),
]
