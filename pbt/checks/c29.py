"""C29: mean effective stress, crustal-model files and the Kamai velocity model."""

import gzip
import json
import math
import os
import tempfile
import urllib.parse
import urllib.request
import warnings
from pathlib import Path
from unittest import mock

import numpy as np
from hypothesis import strategies as st

from pystrata import generic, tools

from .. import gen
from ..core import Sub

RULE = (
    "generated depth grids, unit weights and water tables; crustal-model responses served by a recording stand-in for the web "
    "service, fetched and loaded as plain and gzip files, with and without simplification; both regions of the velocity model for "
    "scalar, list and array depths; non-trivial = water table within the profile, or at least one merged run and one kept boundary"
)
ASSUMPTIONS = ["the web service answers in the format of the bundled documentation (no network)", "depths increase from zero"]

GW = 9.81


def stress_ref(depths, uw, wt, k0=0.5):
    n = len(depths)
    out, s = [], 0.0
    for i in range(n):
        h = depths[i + 1] - depths[i] if i + 1 < n else 0.0
        mid = depths[i] + h / 2
        total = s + uw[i] * h / 2
        s += uw[i] * h
        out.append((1 + 2 * k0) / 3 * (total - GW * max(0.0, mid - wt)))
    return np.array(out)


@st.composite
def grid(draw, n_min=1, n_max=12):
    n = draw(st.integers(n_min, n_max))
    if draw(st.booleans()):
        step = draw(st.sampled_from([5, 1.0, 10.0, 2.5]))
        d = [i * step for i in range(n)]
    else:
        d = [0.0]
        for _ in range(n - 1):
            d.append(gen.r(d[-1] + draw(gen.logf(0.2, 200.0, 4)), 8))
    return d


# ------------------------------------------------------------- stress
@st.composite
def stress_case(draw):
    d = draw(grid())
    return {
        "d": d,
        "uw": [draw(gen.fl(12.0, 28.0, 4)) for _ in d],
        "wt": draw(st.sampled_from([0, 0.0, 1e4]) | gen.fl(0.0, 60.0, 4)),
        "k0": draw(st.none() | gen.fl(0.0, 2.0, 3)),
        "list": draw(st.booleans()),
        "int": draw(st.booleans()),
    }


def fn_stress(case, t):
    d, uw = case["d"], case["uw"]
    if case["int"]:
        uw = [int(x) for x in uw]
    kw = {} if case["k0"] is None else {"k0": case["k0"]}
    f = (lambda x: x) if case["list"] else np.array
    a, b = f(d), f(uw)
    got = tools.calc_mean_eff_stress(a, b, case["wt"], **kw)
    want = stress_ref(d, uw, case["wt"], kw.get("k0", 0.5))
    gen.close(np.asarray(got), want, rtol=1e-9, atol=1e-9 * max(1.0, np.abs(want).max()), what="mean effective stress")
    assert list(a) == d and list(b) == uw, "arguments changed"
    t.nt(len(d) > 1 and 0 < case["wt"] < d[-1])
    # units that are not kN/m3 are warned about
    for bad in (1.8, 1800.0):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            tools.calc_mean_eff_stress(a, f(uw[:-1] + [bad]), case["wt"])
        assert any(issubclass(x.category, UserWarning) for x in w), f"no warning about a unit weight of {bad}"


# ------------------------------------------------------------- crustal model
@st.composite
def ncm_case(draw):
    d = draw(grid(1, 14))
    vs = [draw(gen.logf(100.0, 1500.0, 5))]
    for _ in d[1:]:
        # runs of similar layers, drifting away from the first
        vs.append(gen.r(vs[-1] * draw(st.sampled_from([1.0, 1.01, 1.015, 0.99, 1.05]) | gen.fl(0.8, 1.6, 4)), 7))
    return {
        "d": d,
        "vs": vs,
        "rho": [draw(gen.fl(1500.0, 2900.0, 5) | gen.logf(20.0, 5000.0, 4)) for _ in d],
        "wt": draw(st.sampled_from([0, 0.0]) | gen.fl(0.0, 200.0, 4)),
        "lat": draw(gen.fl(-60, 60, 6)),
        "lon": draw(gen.fl(-180, 180, 7)),
        "rng": [draw(st.sampled_from([0, 0.0, 5])), draw(st.sampled_from([5, 1.0, 2.5, 3.0480061])), draw(st.sampled_from([1e4, 500, 30.0, 1219.2024384]))],
        "kw": draw(st.sampled_from([[], ["depth_start"], ["depth_step", "depth_end"], ["depth_start", "depth_step", "depth_end"]])),
        "gz": draw(st.sampled_from([None, True, False])),
        "ext": draw(st.sampled_from(["json", "json.gz", "dat"])),
        "path": draw(st.booleans()),
        "tol": draw(st.sampled_from([None, 0.02, 0.0]) | gen.fl(0.001, 0.5, 3)),
        "status": draw(st.sampled_from(["success", "sucess", "success", "error", "failure", None])),
        "more": draw(st.booleans()),
        "empty": draw(st.integers(0, 9)) == 0,
    }


@st.composite
def drift_case(draw):
    """Velocity that grows little by little, as in a finely sampled crustal model: long groups."""
    case = draw(ncm_case())
    n = draw(st.integers(15, 120))
    rise = draw(gen.fl(-0.004, 0.008, 5))
    step = draw(st.sampled_from([5, 1.0, 10.0]))
    case.update(
        d=[i * step for i in range(n)],
        vs=[gen.r(case["vs"][0] * (1 + rise) ** i * (1 + 0.001 * ((i * 7) % 5)), 7) for i in range(n)],
        rho=[gen.r(1800.0 + 6.0 * i + (i * 37 % 11), 6) for i in range(n)],
        tol=draw(gen.fl(0.01, 0.5, 3)),
        empty=False,
        status="success",
    )
    return case


class Response:
    def __init__(self, data):
        self.data = json.dumps(data).encode()

    def read(self, *a):
        return self.data

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def response(case):
    res = {
        "location": {"latitude": case["lat"], "longitude": case["lon"], "water_table_depth": case["wt"]},
        "profile": {"vs": case["vs"], "vp": [2 * v for v in case["vs"]], "density": case["rho"]},
    }
    results = [res]
    if case["more"]:
        results.append({"location": {"water_table_depth": 77.0}, "profile": {"vs": case["vs"][::-1], "density": case["rho"][::-1]}})
    data = {
        "request": {"depths": {"depth_vector": case["d"]}, "note": "caf\u00e9"},
        "response": {"results": [] if case["empty"] else results},
    }
    if case["status"] is not None:
        data["status"] = case["status"]
    return data


def runs(vs, tol):
    """Groups of adjacent layers within the tolerance of the first of the group; None if undecided by rounding."""
    out = [[0]]
    for i in range(1, len(vs)):
        first = vs[out[-1][0]]
        rel = abs(vs[i] - first) / first
        if abs(rel - tol) < 1e-9:
            return None
        if rel <= tol:
            out[-1].append(i)
        else:
            out.append([i])
    return out


def fn_ncm(case, t):
    data = response(case)
    asked = []

    def urlopen(url, *a, **k):
        asked.append(getattr(url, "full_url", url))
        return Response(data)

    kw = {}
    rng = [0, 5, 1e4]
    for i, k in enumerate(("depth_start", "depth_step", "depth_end")):
        if k in case["kw"]:
            kw[k] = rng[i] = case["rng"][i]
    if case["gz"] is not None:
        kw["gzip_output"] = case["gz"]
    with tempfile.TemporaryDirectory(dir=os.environ.get("PBT_SCRATCH")) as d:
        fpath = os.path.join(d, "ncm." + case["ext"])
        arg = Path(fpath) if case["path"] else fpath
        patches = [mock.patch.object(urllib.request, "urlopen", urlopen)]
        if hasattr(generic, "urlopen"):
            patches.append(mock.patch.object(generic, "urlopen", urlopen))
        for p in patches:
            p.start()
        try:
            try:
                generic.fetch_ncm_profile(case["lat"], case["lon"], arg, **kw)
                ok = True
            except RuntimeError:
                ok = False
        finally:
            for p in patches:
                p.stop()
        assert len(asked) == 1, "one request"
        u = urllib.parse.urlsplit(asked[0])
        assert u.scheme == "https" and u.netloc == "earthquake.usgs.gov", asked[0]
        q = urllib.parse.parse_qs(u.query)
        assert [float(x) for x in q["location"][0].split(",")] == [case["lat"], case["lon"]], asked[0]
        assert [float(x) for x in q["depths"][0].split(",")] == [float(x) for x in rng], asked[0]
        if case["status"] not in ("success", "sucess"):
            assert not ok, f"status {case['status']} accepted"
            assert not os.path.exists(fpath), "a failed request wrote a file"
            t.label("failed request")
            return
        assert ok, "request refused"
        raw = Path(fpath).read_bytes()
        zipped = raw[:2] == b"\x1f\x8b"
        assert zipped == (case["gz"] is not False), "compression"
        assert json.loads((gzip.decompress(raw) if zipped else raw).decode()) == data, "saved response"
        simplify = case["tol"] is not None
        kw = {"simplify": True, "simplify_tol": case["tol"]} if simplify else {}
        if case["empty"]:
            try:
                generic.load_ncm_profile(arg, **kw)
            except ValueError:
                t.label("no results")
                return
            raise AssertionError("a response without results was loaded")
        df, wt = generic.load_ncm_profile(arg, **kw)
    assert wt == case["wt"], "water table"
    dep, vs, uw = case["d"], case["vs"], [x * GW / 1000 for x in case["rho"]]
    if simplify:
        groups = runs(vs, case["tol"])
        if groups is None:
            t.reject("velocity at the tolerance")
        h = list(np.diff(dep)) + [0.0]
        d2, v2, u2 = [], [], []
        for g in groups:
            tot = sum(h[i] for i in g)
            d2.append(dep[g[0]])
            v2.append(tot / sum(h[i] / vs[i] for i in g) if tot > 0 else vs[g[0]])
            u2.append(sum(h[i] * uw[i] for i in g) / tot if tot > 0 else uw[g[0]])
        t.nt(1 < len(groups) < len(vs))
        t.label("bottom merged", len(groups[-1]) > 1)
        assert list(df["depth"]) == d2, f"boundaries {list(df['depth'])} expected {d2}"
        gen.close(df["vel_shear"].to_numpy(), np.array(v2), rtol=1e-7, what="velocity (travel time)")
        gen.close(df["unit_wt"].to_numpy(), np.array(u2), rtol=1e-7, what="unit weight (weight)")
        dep, vs, uw = d2, v2, u2
    else:
        assert list(df["depth"]) == dep and list(df["vel_shear"]) == vs
        gen.close(df["unit_wt"].to_numpy(), np.array(uw), rtol=1e-9, what="unit weight")
        t.nt(len(dep) > 2 and 0 < wt < dep[-1])
    want = stress_ref(dep, uw, wt)
    gen.close(df["mean_eff_stress"].to_numpy(), want, rtol=1e-6, atol=1e-6 * max(1.0, np.abs(want).max()), what="mean effective stress")
    gen.close(df["thickness"].to_numpy(), np.append(np.diff(dep), 0.0), rtol=1e-9, atol=1e-12, what="thickness")
    t.label("simplified", simplify)


# ------------------------------------------------------------- velocity model
@st.composite
def kea_case(draw):
    return {
        "d": draw(st.lists(st.sampled_from([0, 0.0, 10]) | gen.logf(0.1, 500.0, 4), min_size=1, max_size=8)),
        "how": draw(st.sampled_from(["scalar", "list", "array"])),
        "vs30": draw(st.sampled_from([250, 850, 760.0]) | gen.fl(150, 1200, 5)),
        "reg": draw(st.sampled_from(["California", "Japan", "california", "japan"])),
        "bad": draw(st.sampled_from(["Taiwan", "", "Cal", "japan "])),
    }


def fn_kea(case, t):
    d = case["d"]
    if case["how"] == "scalar":
        d = d[:1]
    arg = d[0] if case["how"] == "scalar" else d if case["how"] == "list" else np.array(d)
    v = case["vs30"]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        df = generic.kea16_profile(arg, v, case["reg"])
    assert (not 250 <= v <= 850) == any(issubclass(x.category, UserWarning) for x in w), f"warning for {v} m/s"
    if case["reg"].lower() == "california":
        a0, a1, a2, sd = 0.25 * v + 104, 0.22 * v + 166, 53 * math.exp(-0.00388 * v), 0.0002 * v + 0.195
    else:
        a0, a1, a2, sd = 0.2 * v + 40, 0.25 * v + 260, 28 * math.exp(-0.00296 * v), 0.4
    assert len(df) == len(d) and [float(x) for x in df.index] == [float(x) for x in d] and df.index.name == "depth"
    gen.close(df["vs_median"].to_numpy().astype(float), np.array([a0 + a1 * math.log((x + a2) / a2) for x in d]), rtol=1e-9, what="median velocity")
    gen.close(df["std_vs_ln_units"].to_numpy().astype(float), np.full(len(d), sd), rtol=1e-9, what="standard deviation")
    try:
        generic.kea16_profile(arg, v, case["bad"])
    except ValueError:
        pass
    else:
        raise AssertionError(f"region {case['bad']!r} accepted")
    t.nt(max(d) > 0)
    t.label(case["reg"])


SUBS = [
    Sub("stress", stress_case, fn_stress, 500),
    Sub("crustal model", ncm_case, fn_ncm, 1200),
    Sub("long groups", drift_case, fn_ncm, 300),
    Sub("velocity model", kea_case, fn_kea, 300),
]
