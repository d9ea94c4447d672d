"""C28: adjusting damping to a target site attenuation."""

import contextlib
import io
import re

import numpy as np
from hypothesis import strategies as st

import pystrata as ps
from pystrata import tools

from .. import gen, wave
from ..core import Sub
from .c06 import warmup  # noqa: F401
from .c07 import same_snapshot, snapshot

RULE = (
    "generated profiles with repeated soil-type names in any order, exclusion by pattern, list, predicate or none, targets "
    "above and below what is attainable, in place or not, fresh and analysed profiles; non-trivial = an adjusted profile with at "
    "least one excluded soil layer above or between adjusted ones, or a positive scattering attenuation"
)
ASSUMPTIONS = ["names in exclusion lists equal a layer's name or are not part of one", "the half-space has no thickness"]

NAMES = ["sand", "clay", "rock", "till", "sand 2"]


@st.composite
def profile_(draw, uniform=False):
    p = draw(gen.with_big(gen.profiles(nonlinear="mixed", max_layers=6, dmin=0.002, dmax=0.05, hmax=40.0, vmin=120.0, vmax=2000.0, hs_thick=False), nonlinear="mixed", depth=(10.0, 200.0)))
    names = [draw(st.sampled_from(NAMES[:4])) for _ in p["soils"]]
    for s, n in zip(p["soils"], names):
        s["n"] = n
    if draw(st.booleans()):
        # whole numbers
        for la in p["layers"]:
            la["vs"] = int(la["vs"])
    if uniform:
        for s in p["soils"]:
            s["uw"] = p["soils"][0]["uw"]
        d = draw(gen.fl(0.002, 0.05, 3))
        for la in p["layers"]:
            la["vs"] = p["layers"][0]["vs"]
            la["dm"] = d
    return p


@st.composite
def exclude_(draw):
    kind = draw(st.sampled_from(["none", "pattern", "list", "callable"]))
    if kind == "pattern":
        v = draw(st.sampled_from(["sand", "s.*", "clay|rock", ".*k$", "^t", "x", "and", "(sand|clay)$", ".*"]))
    elif kind == "list":
        v = draw(st.lists(st.sampled_from(["sand", "clay", "rock", "till", "gravel"]), max_size=3))
    elif kind == "callable":
        v = draw(st.sampled_from(["fast", "thick", "name", "odd", "halfspace"]))
    else:
        v = None
    return {"kind": kind, "v": v}


def chooser(e, prof):
    if e["kind"] in ("none", "pattern", "list"):
        return e["v"]
    n = len(prof)
    return {
        "fast": lambda la: la.initial_shear_vel > 500,
        "thick": lambda la: la.thickness > 10,
        "name": lambda la: la.soil_type.name in ("sand", "till"),
        "odd": lambda la: round(la.depth) % 2 == 1,
        "halfspace": lambda la: la.thickness == 0,
    }[e["v"]]


def excluded(e, p, i):
    la = p["layers"][i]
    name = p["soils"][la["s"]]["n"]
    if e["kind"] == "none":
        return False
    if e["kind"] == "pattern":
        return re.match(e["v"], name) is not None
    if e["kind"] == "list":
        return name in e["v"]
    return {
        "fast": la["vs"] > 500,
        "thick": la["h"] > 10,
        "name": name in ("sand", "till"),
        "odd": round(gen.depth_tops(p)[i]) % 2 == 1,
        "halfspace": la["h"] == 0,
    }[e["v"]]


def ref_scatter(p, freqs=None):
    f = np.linspace(50, 200, 256) if freqs is None else np.asarray(freqs, dtype=float)
    damp = [gen.layer_damping_min(p, la) for la in p["layers"]]
    ref = wave.from_case(p, 2 * np.pi * f, dampings=damp)
    # the surface motion is one, and so is its outcrop
    n = len(p["layers"])
    rock, _ = ref.field(n - 1, 0.0, "outcrop")
    y = -np.log(np.abs(rock))
    x = f - f.mean()
    slope = np.sum(x * (y - y.mean())) / np.sum(x**2)
    return max(-slope / np.pi - kappa(p, damp), 0.0)


def kappa(p, damp):
    return sum(2 * d * la["h"] / la["vs"] for d, la in zip(damp, p["layers"]))


@st.composite
def case_(draw):
    return {
        "p": draw(profile_()),
        "e": draw(exclude_()),
        "t": draw(gen.logf(0.2, 5.0, 4)),
        "rel": draw(st.sampled_from(["least", "least", "abs"])),
        "inplace": draw(st.booleans()),
        "used": draw(st.booleans()),
        "m": draw(gen.ts_motions(nmin=32, nmax=64, pga=(0.01, 0.3))),
    }


def fn(case, t):
    p, e = case["p"], case["e"]
    prof = gen.build_profile(ps, p)
    n = len(prof)
    exc = [excluded(e, p, i) for i in range(n)]
    damp = [gen.layer_damping_min(p, la) for la in p["layers"]]
    scatter = ref_scatter(p)
    least = scatter + sum(2 * damp[i] * la["h"] / la["vs"] for i, la in enumerate(p["layers"]) if exc[i])
    target = least * (1 + case["t"] - 0.6) if case["rel"] == "least" and least > 0 else 0.01 * case["t"]
    if abs(target - least) < 1e-4 * max(target, least):
        t.reject("target at the least attainable")
    possible = target > least and any(not x and la["h"] > 0 for x, la in zip(exc, p["layers"]))
    if case["used"]:
        calc = ps.propagation.EquivalentLinearCalculator(strain_limit=None, max_iterations=3)
        calc(gen.build_motion(ps, case["m"]), prof, prof.location("outcrop", index=-1))
    before = snapshot(prof)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            got, sc = tools.adjust_damping_values(prof, target, chooser(e, prof), **({"inplace": True} if case["inplace"] else {}))
    except RuntimeError:
        assert not possible, f"target {target} refused, at least {least}"
        assert same_snapshot(snapshot(prof), before), "a refused adjustment changed the profile"
        t.label("refused")
        return
    assert possible, f"target {target} accepted, at least {least}, adjusted layers {[not x for x in exc]}"
    gen.close(sc, scatter, rtol=1e-5, atol=1e-8 + 1e-6 * kappa(p, damp), what="scattering attenuation")
    if case["inplace"]:
        assert got is prof, "adjusted in place"
    else:
        assert got is not prof and not any(a is b for a, b in zip(got, prof)), "a copy is adjusted"
        assert same_snapshot(snapshot(prof), before), "the profile given was changed"
    assert len(got) == n and got.wt_depth == p["wt"]
    total = 0.0
    prod = []
    for i, (la, c) in enumerate(zip(got, p["layers"])):
        assert la.thickness == c["h"] and la.initial_shear_vel == c["vs"] and la.soil_type is prof[i].soil_type, "only damping changes"
        total += 2 * la.damping_min * c["h"] / c["vs"]
        if exc[i]:
            assert la.damping_min == damp[i], f"damping of excluded layer {i}: {la.damping_min}, was {damp[i]}"
        else:
            prod.append(la.damping_min * c["vs"])
        gen.close(la.damping, la.damping_min, rtol=1e-9, what="damping in use")
        gen.close(la.shear_mod, la.initial_shear_mod, rtol=1e-9, what="modulus in use")
    gen.close(total + sc, target, rtol=1e-9, what="site attenuation and scattering")
    gen.close(got.site_attenuation() + sc, target, rtol=1e-9, what="site attenuation and scattering")
    assert max(prod) <= min(prod) * (1 + 1e-9), f"damping times velocity {prod}"
    mixed = any(exc[i] and not all(exc[i:]) for i in range(n - 1))
    t.nt(mixed or sc > 1e-5)
    t.label("excluded layer above an adjusted one", mixed)
    t.label("exclusion by " + e["kind"])
    t.label("in place", case["inplace"])


# ------------------------------------------------------------- scattering
@st.composite
def scatter_case(draw):
    uni = draw(st.booleans())
    return {
        "p": draw(profile_(uniform=uni)),
        "uniform": uni,
        "f": draw(st.none() | st.tuples(gen.fl(10, 60, 3), gen.fl(80, 300, 3), st.integers(8, 100))),
    }


def fn_scatter(case, t):
    p = case["p"]
    prof = gen.build_profile(ps, p)
    before = snapshot(prof)
    f = None if case["f"] is None else np.linspace(*case["f"][:2], case["f"][2])
    got = tools.calc_atten_scatter(prof) if f is None else tools.calc_atten_scatter(prof, f)
    assert same_snapshot(snapshot(prof), before), "the profile changed"
    assert got >= 0, "negative scattering attenuation"
    k = kappa(p, [gen.layer_damping_min(p, la) for la in p["layers"]])
    want = ref_scatter(p, f)
    gen.close(got, want, rtol=1e-5, atol=1e-8 + 1e-6 * k, what="scattering attenuation")
    if case["uniform"]:
        # second-order terms of damping
        assert got <= 0.005 * k + 1e-12, f"scattering attenuation {got} of a uniform profile (damping: {k})"
        t.label("uniform")
    t.nt(got > 1e-5)


SUBS = [
    Sub("adjustment", case_, fn, 700),
    Sub("scattering", scatter_case, fn_scatter, 300),
]
