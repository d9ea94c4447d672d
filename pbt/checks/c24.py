"""C24: thickness and bedrock-depth randomization."""

import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats

import pystrata as ps
from pystrata import variation

from .. import gen
from ..core import Sub
from .c06 import warmup  # noqa: F401

RULE = (
    "generated seed profiles (shared soil types, layer damping, half-space with thickness, water table), Toro parameters and "
    "random states, several realizations each; sampled half-space depths above, between and below the interfaces; "
    "non-trivial = the realization has at least two soil layers and differs from the seed"
)
ASSUMPTIONS = ["sampled half-space depths are positive and not exactly at an interface", "c_2 differs from -1"]


@st.composite
def params(draw):
    if draw(st.booleans()):
        return {}
    return {"c_1": draw(gen.fl(0.5, 20.0, 4)), "c_2": draw(gen.fl(-0.95, -0.1, 3)), "c_3": draw(gen.fl(0.5, 4.0, 3))}


# Published parameters, used when none are given
TORO = {"c_1": 10.86, "c_2": -0.89, "c_3": 1.98}


def capital_lambda(par, d):
    c1, c2, c3 = (par.get(k, TORO[k]) for k in ("c_1", "c_2", "c_3"))
    return c3 * ((d + c1) ** (c2 + 1) - c1 ** (c2 + 1)) / (c2 + 1)


def material(layer):
    return layer.soil_type, layer.initial_shear_vel, layer.damping_min


def same_material(a, b, what):
    assert a.soil_type is b.soil_type or (a.soil_type.name == b.soil_type.name and a.soil_type.unit_wt == b.soil_type.unit_wt), f"{what}: soil type"
    assert a.initial_shear_vel == b.initial_shear_vel, f"{what}: velocity {a.initial_shear_vel} of {b.initial_shear_vel}"
    assert a.damping_min == b.damping_min, f"{what}: damping {a.damping_min} of {b.damping_min}"


def seed_at(p, prof, z):
    """Seed layer at depth z; None near an interface."""
    tops = gen.depth_tops(p)
    for i in range(len(tops) - 1):
        if abs(z - tops[i + 1]) < 1e-9 * max(1.0, tops[i + 1]):
            return None
        if z < tops[i + 1]:
            return prof[i]
    return prof[-1]


def check_chain(varied):
    """Depths of a profile follow from its thicknesses."""
    d = 0.0
    for la in varied:
        assert abs(la.depth - d) <= 1e-9 * max(d, 1.0), "depth of a layer"
        d += la.thickness


# -------------------------------------------------------------- thickness
@st.composite
def toro_case(draw):
    return {
        "p": draw(gen.with_big(gen.profiles(nonlinear="mixed", max_layers=6, dmin=0.001), nonlinear="mixed")),
        "par": draw(params()),
        "seed": draw(gen.seeds()),
        "n": draw(st.integers(1, 4)),
        "via": draw(st.booleans()),
    }


def fn_toro(case, t):
    p = case["p"]
    prof = gen.build_profile(ps, p)
    model = variation.ToroThicknessVariation(**case["par"])
    for k, v in dict(TORO, **case["par"]).items():
        assert getattr(model, k) == v, f"{k} = {getattr(model, k)}"
    D = gen.total_depth(p)
    np.random.seed(case["seed"])
    if case["via"]:
        got = list(variation.iter_varied_profiles(prof, case["n"], var_thickness=model))
    else:
        got = [model(prof) for _ in range(case["n"])]
    assert len(got) == case["n"]
    for v in got:
        assert len(v) >= 2
        th = [la.thickness for la in v[:-1]]
        # a Poisson process has no layers of rounding-error thickness (1e-8 of a chance)
        assert min(th) > 1e-10 * D, f"thicknesses {th}"
        assert abs(sum(th) - D) <= 1e-9 * D, f"total {sum(th)} of {D}"
        check_chain(v)
        d = 0.0
        for la in v[:-1]:
            ref = seed_at(p, prof, d + la.thickness / 2)
            if ref is not None:
                same_material(la, ref, f"layer at {d + la.thickness / 2} m")
            d += la.thickness
        same_material(v[-1], prof[-1], "half-space")
        assert v.wt_depth == p["wt"], "water table"
        t.nt(len(v) > 2)
        t.label("more layers", len(v) > len(prof))
    assert len({tuple(la.thickness for la in v) for v in got}) == len(got) or all(len(v) == 2 for v in got) or any(
        len(v) == 2 for v in got
    ), "realizations repeat"


@st.composite
def rate_case(draw):
    return {"par": draw(params()), "D": draw(gen.logf(20.0, 400.0)), "seed": draw(gen.seeds()), "cut": draw(gen.fl(0.2, 0.8, 2)), "n": 150}


def fn_rate(case, t):
    """Counts above and below a depth follow Poisson distributions of the stated rate."""
    model = variation.ToroThicknessVariation(**case["par"])
    D, n = case["D"], case["n"]
    cut = case["cut"] * D
    soil = ps.site.SoilType("s", 18.0, None, 0.01)
    prof = ps.site.Profile([ps.site.Layer(soil, D, 300.0), ps.site.Layer(ps.site.SoilType("r", 24.0, None, 0.01), 0, 1000.0)])
    np.random.seed(case["seed"])
    upper, lower = [], []
    for _ in range(n):
        v = model(prof)
        z = np.cumsum([la.thickness for la in v[:-1]])[:-1]
        upper.append(int(np.sum(z < cut)))
        lower.append(int(np.sum(z >= cut)))
    for name, got, mean in (
        ("upper", upper, capital_lambda(case["par"], cut)),
        ("lower", lower, capital_lambda(case["par"], D) - capital_lambda(case["par"], cut)),
    ):
        tot = n * mean
        dev = abs(sum(got) - tot) / math.sqrt(tot)
        assert dev <= 6 + 4 / math.sqrt(tot), f"{name} part: {sum(got)} interfaces in {n} realizations, expected {tot:.1f}"
        # variance of a Poisson count; sd of the sample variance is sqrt((mean + 2 mean^2) / n)
        sd = math.sqrt((mean + 2 * mean**2) / n)
        assert abs(np.var(got) - mean) <= 7 * sd + 10 / n, f"{name} part: variance {np.var(got)} of counts of mean {mean}"
    # independent increments
    if min(np.std(upper), np.std(lower)) > 0.3:
        c = np.corrcoef(upper, lower)[0, 1]
        assert abs(c) <= 7 / math.sqrt(n), f"counts above and below correlate ({c})"
    t.nt(sum(upper) + sum(lower) > 2 * n)


@st.composite
def position_case(draw):
    return {"par": draw(params()), "D": draw(gen.logf(5.0, 400.0)), "seed": draw(gen.seeds()), "n": 600}


def fn_position(case, t):
    """Interfaces are as likely anywhere in the profile, also close to its top and base."""
    model = variation.ToroThicknessVariation(**case["par"])
    D = case["D"]
    np.random.seed(case["seed"])
    z = []
    for _ in range(case["n"]):
        th = np.array([x for x, _ in model.iter_thickness(D)])
        z.append(np.cumsum(th)[:-1])
    z = np.concatenate(z)
    cut = np.sort(np.r_[np.linspace(0, D, 11), D * np.array([0.003, 0.01, 0.03, 0.97, 0.99, 0.997])])
    cum = np.array([capital_lambda(case["par"], x) for x in cut])
    mean = case["n"] * np.diff(cum)
    got = np.histogram(z, cut)[0]
    for k, (g, m) in enumerate(zip(got, mean)):
        p = min(stats.poisson.cdf(g, m), stats.poisson.sf(g - 1, m))
        assert p > 1e-11, f"{g} interfaces between {cut[k]} and {cut[k + 1]} m in {case['n']} realizations, expected {m:.1f}"
    t.nt(mean[-1] > 5)


# -------------------------------------------------------------- half-space depth
class Fixed:
    """A distribution with a single value."""

    def __init__(self, value):
        self.value = value

    def rvs(self, size=None, **kwds):
        return self.value if size is None else np.full(size, self.value)


@st.composite
def depth_case(draw):
    return {
        "p": draw(gen.with_big(gen.profiles(nonlinear="mixed", max_layers=6, dmin=0.001), nonlinear="mixed")),
        "frac": draw(gen.fl(0.01, 0.99, 4) | gen.fl(1.01, 6.0, 4) | gen.fl(0.9, 1.1, 4)),
        "twice": draw(st.booleans()),
    }


def check_depth(p, prof, v, d, t):
    D = gen.total_depth(p)
    hs = prof[-1]
    assert [la.thickness for la in prof] == [la["h"] for la in p["layers"]], "the seed's thickness changed"
    assert not {id(la) for la in v} & {id(la) for la in prof}, "a layer of the seed in the realization"
    same_material(v[-1], hs, "half-space")
    assert v[-1].thickness == hs.thickness, "half-space thickness"
    assert abs(v[-1].depth - d) <= 1e-9 * d, f"half-space at {v[-1].depth}, sampled {d}"
    check_chain(v)
    assert v.wt_depth == p["wt"], "water table"
    assert all(la.thickness > 0 for la in v[:-1]), "positive thickness"
    tops = gen.depth_tops(p)
    got_tops = [la.depth for la in v]
    z = 0.0
    for k, la in enumerate(v[:-1]):
        mid = z + la.thickness / 2
        ref = prof[len(prof) - 2] if mid > D - 1e-9 * D else seed_at(p, prof, mid)
        if ref is not None:
            same_material(la, ref, f"layer at {mid} m of half-space depth {d} m")
        z += la.thickness
    # seed interfaces above the sampled depth are kept and no others are added there
    keep = [x for x in tops[:-1] if x < d]
    for a in keep:
        assert min(abs(a - x) for x in got_tops) <= 1e-9 * max(1.0, a), f"interface at {a} m lost"
    above = [x for x in got_tops[:-1] if x <= tops[-2] * (1 + 1e-9) or x == 0]
    assert len(above) == len(keep), f"interfaces {got_tops[:-1]} expected {keep}"
    deeper = d > D
    extra = len(v) - 1 - len(keep)
    assert extra >= 0 and (deeper or extra == 0), "added layers"
    t.label("deeper", deeper)
    t.label("truncated", not deeper)
    t.label("extended by layers", extra > 0)
    t.nt(len(v) > 2 and abs(d - D) > 1e-3)


def fn_depth(case, t):
    p = case["p"]
    D = gen.total_depth(p)
    d = case["frac"] * D
    if min(abs(d - x) for x in gen.depth_tops(p)) < 1e-6 * D:
        t.reject("at an interface")
    prof = gen.build_profile(ps, p)
    model = variation.HalfSpaceDepthVariation(Fixed(d))
    check_depth(p, prof, model(prof), d, t)
    if case["twice"]:
        check_depth(p, prof, model(prof), d, t)


@st.composite
def dist_case(draw):
    return {
        "p": draw(gen.with_big(gen.profiles(nonlinear="mixed", max_layers=5, dmin=0.001), nonlinear="mixed")),
        "lo": draw(gen.fl(0.05, 1.2, 3)),
        "width": draw(gen.fl(0.05, 2.0, 3)),
        "seed": draw(gen.seeds()),
    }


def fn_dist(case, t):
    """Depths sampled from a distribution of scipy."""

    p = case["p"]
    D = gen.total_depth(p)
    prof = gen.build_profile(ps, p)
    dist = stats.uniform(case["lo"] * D, case["width"] * D)
    np.random.seed(case["seed"])
    want = [float(dist.rvs()) for _ in range(5)]
    np.random.seed(case["seed"])
    model = variation.HalfSpaceDepthVariation(dist)
    for d in want:
        v = model(prof)
        if min(abs(d - x) for x in gen.depth_tops(p)) < 1e-6 * D:
            continue
        check_depth(p, prof, v, d, t)


@st.composite
def iter_case(draw):
    return {"par": draw(params()), "D": draw(gen.logf(3.0, 200.0, 5)), "seed": draw(gen.seeds()), "n": 20}


def fn_iter(case, t):
    """The layering alone: covers the depth exactly, whatever the rounding."""
    model = variation.ToroThicknessVariation(**case["par"])
    D = case["D"]
    np.random.seed(case["seed"])
    for _ in range(case["n"]):
        z = 0.0
        th = []
        for thick, mid in model.iter_thickness(D):
            assert abs(mid - (z + thick / 2)) <= 1e-9 * D, f"middle {mid} of the layer at {z} m"
            th.append(float(thick))
            z += thick
        assert abs(z - D) <= 1e-9 * D, f"layers end at {z} of {D}"
        assert min(th) > 1e-10 * D, f"thicknesses {th}"
        t.nt(len(th) > 1)


SUBS = [
    Sub("thickness", toro_case, fn_toro, 700),
    Sub("layering", iter_case, fn_iter, 400),
    Sub("rate", rate_case, fn_rate, 100),
    Sub("position", position_case, fn_position, 120),
    Sub("depth", depth_case, fn_depth, 800),
    Sub("sampled depth", dist_case, fn_dist, 100),
]
