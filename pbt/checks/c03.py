"""C03: invariances of the linear response."""

import copy
import math

import numpy as np
from hypothesis import strategies as st

import pystrata as ps

from .. import gen
from ..core import Sub
from .c01 import warmup  # noqa: F401

RULE = (
    "random linear profiles re-expressed as physically identical ones (subdivided by hand, "
    "auto-discretized, density-scaled, length/time-scaled); non-trivial = the representation "
    "really changed (more layers, factor != 1) and the response amplifies by more than 1%"
)
ASSUMPTIONS = ["relative tolerance 1e-7 away from poles of the transfer function"]
WFS = ["outcrop", "within", "incoming_only"]


def response(prof, f, din, dout, wfi, wfo):
    calc = ps.propagation.LinearElasticCalculator()
    calc(ps.motion.Motion(np.array(f)), prof, prof.location("outcrop", index=-1))
    return calc.calc_accel_tf(
        prof.location(wfi, depth=din), prof.location(wfo, depth=dout)
    )


def same(a, b, what):
    with np.errstate(all="ignore"):
        ok = (np.abs(a) > 1e6) | (np.abs(b) > 1e6) | (
            np.abs(a - b) <= 1e-7 * (np.abs(a) + np.abs(b)) + 1e-9
        )
    assert np.all(ok), f"{what}: {a} != {b}"


@st.composite
def base_case(draw, nonlinear="no", **kw):
    p = draw(gen.profiles(max_layers=5, dmin=0.005, nonlinear=nonlinear, **kw))
    fr = st.floats(0, 1.125, width=32)
    return {
        "p": p,
        "f": draw(gen.freq_vectors(fmax=40.0, max_size=6)),
        "din": draw(fr),
        "dout": draw(fr),
        "wfi": draw(st.sampled_from(WFS)),
        "wfo": draw(st.sampled_from(WFS)),
    }


@st.composite
def split_case(draw):
    c = draw(base_case())
    c["parts"] = draw(
        st.lists(
            st.lists(st.floats(0.125, 1, width=32), min_size=1, max_size=4),
            min_size=len(c["p"]["layers"]) - 1,
            max_size=len(c["p"]["layers"]) - 1,
        )
    )
    return c


def pick_depths(c, p):
    d = gen.total_depth(p)
    out = []
    tops = gen.depth_tops(p)
    for x in (c["din"], c["dout"]):
        z = x * d
        # stay clear of interfaces, where rounding picks the neighbouring layer
        for top in tops:
            if abs(z - top) < 1e-6 * d:
                z = top + 1e-5 * d
        out.append(z)
    return out


def fn_split(c, t):
    p = c["p"]
    q = copy.deepcopy(p)
    q["layers"] = []
    bounds = []
    depth = 0.0
    for la, parts in zip(p["layers"][:-1], c["parts"]):
        tot = sum(parts)
        for x in parts:
            q["layers"].append(dict(la, h=la["h"] * x / tot))
            depth += la["h"] * x / tot
            bounds.append(depth)
    q["layers"].append(p["layers"][-1])
    din, dout = pick_depths(c, p)
    if any(abs(b - z) < 1e-9 * depth for b in bounds for z in (din, dout)):
        t.reject("depth on a new interface")
    a = response(gen.build_profile(ps, p), c["f"], din, dout, c["wfi"], c["wfo"])
    b = response(gen.build_profile(ps, q), c["f"], din, dout, c["wfi"], c["wfo"])
    same(a, b, "subdivided by hand")
    t.nt(len(q["layers"]) > len(p["layers"]) and np.any(np.abs(a - 1) > 0.01))


@st.composite
def large_case(draw):
    c = draw(base_case())
    del c["p"]
    c["big"] = draw(gen.big_profiles(nmax=60))
    c["seed"] = draw(gen.seeds())
    c["f"] = draw(gen.freq_vectors(fmax=40.0, max_size=6))
    return c


def fn_large(c, t):
    """Many layers, each subdivided."""
    p = gen.expand_profile(c["big"])
    rng = np.random.RandomState(c["seed"])
    parts = [rng.uniform(0.1, 1.0, rng.randint(1, 5)).tolist() for _ in p["layers"][:-1]]
    fn_split(dict(c, p=p, parts=parts), t)


@st.composite
def auto_case(draw):
    c = draw(base_case(nonlinear="mixed", hmax=40.0, vmin=120.0))
    c["max_freq"] = draw(st.sampled_from([50.0, 25.0, 10.0]) | gen.fl(2.0, 60.0, 4))
    c["wave_frac"] = draw(st.sampled_from([0.2, 0.25, 1 / 3]) | gen.fl(0.1, 0.5, 3))
    c["nonlinear_only"] = draw(st.booleans())
    c["defaults"] = draw(st.booleans())
    if draw(st.integers(0, 5)) == 0:
        la = draw(st.sampled_from(c["p"]["layers"][:-1]))
        la["h"] = draw(gen.fl(60.0, 500.0, 4))
    for la in c["p"]["layers"]:
        if draw(st.integers(0, 2)) == 0:
            la["dm"] = draw(st.sampled_from([0.0, 0, 0.02]) | gen.fl(0.0, 0.1, 4))
    return c


def fn_auto(c, t):
    p = c["p"]
    prof = gen.build_profile(ps, p)
    if c["defaults"]:
        mf, wf, nlo = 50.0, 0.2, True
        disc = prof.auto_discretize()
    else:
        mf, wf, nlo = c["max_freq"], c["wave_frac"], c["nonlinear_only"]
        disc = prof.auto_discretize(mf, wf, nonlinear_only=nlo)
    assert disc.wt_depth == prof.wt_depth

    # Same column of material: walk through the new layers
    it = iter(disc)
    n_new = 0
    depth = 0.0
    for k, la in enumerate(p["layers"][:-1]):
        src = prof[k]
        limit = la["vs"] / mf * wf
        nl = src.soil_type.is_nonlinear
        got = 0.0
        pieces = []
        while got < la["h"] * (1 - 1e-9):
            piece = next(it)
            assert abs(piece.depth - depth) < 1e-9 * (1 + depth), ("depth", piece.depth, depth)
            assert piece.soil_type == src.soil_type
            assert math.isclose(piece.initial_shear_vel, la["vs"], rel_tol=1e-12)
            assert math.isclose(piece.damping_min, src.damping_min, rel_tol=1e-12, abs_tol=1e-15)
            pieces.append(piece.thickness)
            got += piece.thickness
            depth += piece.thickness
            n_new += 1
        assert abs(got - la["h"]) <= 1e-9 * la["h"], ("layer thickness", got, la["h"])
        if nlo and not nl:
            assert len(pieces) == 1, "linear layer was subdivided"
        else:
            assert max(pieces) <= limit * (1 + 1e-9), ("too thick", max(pieces), limit)
    hs = next(it)
    assert next(it, None) is None, "extra layers"
    assert hs.soil_type == prof[-1].soil_type
    assert hs.initial_shear_vel == p["layers"][-1]["vs"]
    assert abs(hs.depth - depth) < 1e-9 * (1 + depth)

    din, dout = pick_depths(c, p)
    if any(
        abs(x.depth - z) < 1e-7 * max(1.0, depth) for x in disc for z in (din, dout)
    ):
        din, dout = din + 3.3e-6 * depth, dout + 3.3e-6 * depth
    a = response(gen.build_profile(ps, p), c["f"], din, dout, c["wfi"], c["wfo"])
    b = response(disc, c["f"], din, dout, c["wfi"], c["wfo"])
    same(a, b, "auto-discretized")
    t.nt(n_new > len(p["layers"]) - 1)
    t.label("nonlinear_only" if nlo else "all layers")


@st.composite
def scale_case(draw):
    c = draw(base_case())
    c["dens"] = draw(gen.logf(0.1, 10))
    c["len"] = draw(gen.logf(0.1, 10))
    c["time"] = draw(gen.logf(0.1, 10))
    return c


def fn_scale(c, t):
    p = c["p"]
    din, dout = pick_depths(c, p)
    a = response(gen.build_profile(ps, p), c["f"], din, dout, c["wfi"], c["wfo"])

    q = copy.deepcopy(p)
    for s in q["soils"]:
        s["uw"] *= c["dens"]
    b = response(gen.build_profile(ps, q), c["f"], din, dout, c["wfi"], c["wfo"])
    same(a, b, "density scaling")

    # lengths times L, velocities times L/T, frequencies times 1/T
    L, T = c["len"], c["time"]
    q = copy.deepcopy(p)
    for la in q["layers"]:
        la["h"] *= L
        la["vs"] *= L / T
    b = response(
        gen.build_profile(ps, q), [x / T for x in c["f"]], din * L, dout * L, c["wfi"], c["wfo"]
    )
    same(a, b, "length/time scaling")
    t.nt(len(p["layers"]) > 2 and np.any(np.abs(a - 1) > 0.01))


SUBS = [
    Sub("subdivide", split_case, fn_split, 700),
    Sub("many layers", large_case, fn_large, 100),
    Sub("auto-discretize", auto_case, fn_auto, 500),
    Sub("scaling", scale_case, fn_scale, 600),
]
