"""C02: algebraic relations between transfer functions of one response."""

import numpy as np
from hypothesis import strategies as st

import pystrata as ps

from .. import gen
from ..core import Sub
from .c01 import warmup  # noqa: F401

RULE = (
    "random profiles with three random locations and a linear, equivalent-linear or "
    "frequency-dependent calculator; non-trivial = three distinct locations and a "
    "transfer function differing from 1 by more than 1%"
)
ASSUMPTIONS = ["relative tolerance 1e-8 scaled by wave amplitudes"]

CALCS = ["LE", "EQL", "FDM-ka02", "FDM-zr15", "FDM-ko:30"]


def make_calc(ps, name):
    pr = ps.propagation
    if name == "LE":
        return pr.LinearElasticCalculator()
    if name == "EQL":
        return pr.EquivalentLinearCalculator(strain_limit=None, max_iterations=6)
    return pr.FrequencyDependentEqlCalculator(
        name[4:], strain_limit=None, max_iterations=3
    )


@st.composite
def case_(draw):
    calc = draw(st.sampled_from(CALCS + ["LE"] * 4))
    p = draw(
        gen.profiles(
            nonlinear="no" if calc == "LE" else "mixed",
            max_layers=5,
            vmax=1500.0,
            dmin=0.0 if calc == "LE" else 0.005,
        )
    )
    return {
        "calc": calc,
        "p": p,
        "m": {"kind": "freqs", "f": draw(gen.freq_vectors())}
        if calc == "LE"
        else draw(gen.ts_motions(nmin=32, nmax=128, pga=(0.001, 0.3))),
        "locs": draw(st.lists(gen.locations(), min_size=3, max_size=3)),
    }


def rel(a, b, tol, what, freqs):
    with np.errstate(all="ignore"):
        ok = np.isfinite(a) & np.isfinite(b)
        bad = ok & (np.abs(a - b) > tol * (np.abs(a) + np.abs(b)) + 1e-300)
    if bad.any():
        j = int(np.argmax(bad))
        raise AssertionError(f"{what} at f={freqs[j]}: {a[j]} != {b[j]}")


def fn(case, t):
    p = case["p"]
    prof = gen.build_profile(ps, p)
    mot = gen.build_motion(ps, case["m"])
    calc = make_calc(ps, case["calc"])
    calc(mot, prof, prof.location("outcrop", index=-1))
    f = np.asarray(mot.freqs)
    la, lb, lc = [gen.make_location(ps, prof, p, x) for x in case["locs"]]
    tf = calc.calc_accel_tf
    one = np.ones(len(f))

    for loc in (la, lb, lc):
        same = tf(loc, loc)
        rel(same, one + 0j, 1e-12, "tf(a,a)", f)
    ab, ba, bc, ac = tf(la, lb), tf(lb, la), tf(lb, lc), tf(la, lc)
    rel(ab * ba, one + 0j, 1e-9, "tf(a,b) tf(b,a)", f)
    rel(ab * bc, ac, 1e-9, "tf(a,b) tf(b,c) vs tf(a,c)", f)

    # Free surface: within and outcrop coincide; incoming is half of outcrop anywhere
    loc = ps.site.Location
    surf = {w: loc(0, prof[0], w, 0) for w in ("outcrop", "within", "incoming_only")}
    rel(tf(la, surf["outcrop"]), tf(la, surf["within"]), 1e-12, "free surface", f)
    for x in case["locs"]:
        i, z = gen.resolve(x, p)
        out, inc = loc(i, prof[i], "outcrop", z), loc(i, prof[i], "incoming_only", z)
        rel(tf(out, inc), 0.5 * one + 0j, 1e-12, "incoming vs outcrop", f)
        rel(tf(la, out), 2 * tf(la, inc), 1e-12, "incoming vs outcrop", f)

    # by name or member
    for w in ("outcrop", "within", "incoming_only"):
        x = prof.location(w, index=0)
        y = prof.location(ps.motion.WaveField[w], index=0)
        rel(tf(la, x), tf(la, y), 1e-15, "wave field by name", f)

    zero = np.isclose(f, 0)
    if zero.any():
        fact = {"outcrop": 1.0, "within": 1.0, "incoming_only": 0.5}
        want = fact[case["locs"][1]["wf"]] / fact[case["locs"][0]["wf"]]
        assert np.allclose(ab[zero], want, rtol=1e-12), ("zero frequency", ab[zero], want)
        t.label("has zero frequency")
    distinct = len({gen.resolve(x, p) + (x["wf"],) for x in case["locs"]}) == 3
    t.nt(distinct and np.any(np.abs(ab - 1) > 0.01))
    t.label(case["calc"])


@st.composite
def large_case(draw):
    """Many layers and frequencies, linear elastic."""
    return {
        "big": draw(gen.big_profiles()),
        "nf": draw(st.integers(20, 2500)),
        "fmax": draw(gen.logf(5.0, 60.0)),
        "locs": draw(st.lists(gen.locations(), min_size=3, max_size=3)),
    }


def fn_large(case, t):
    f = np.linspace(0, case["fmax"], case["nf"]).tolist()
    fn(dict(calc="LE", p=gen.expand_profile(case["big"]), m={"kind": "freqs", "f": f}, locs=case["locs"]), t)


@st.composite
def low_case(draw):
    p = draw(gen.profiles(max_layers=6, vmin=100.0, vmax=3000.0))
    return {
        "p": p,
        "f": draw(logf_low()),
        "locs": draw(st.lists(gen.locations(wave_fields=("outcrop", "within")), min_size=2, max_size=2)),
    }


def logf_low():
    return gen.logf(1e-7, 1e-5)


def fn_low(case, t):
    """Quasi-static limit: no amplification, strains follow gravity loading."""
    p = case["p"]
    prof = gen.build_profile(ps, p)
    calc = ps.propagation.LinearElasticCalculator()
    calc(ps.motion.Motion(np.array([case["f"]])), prof, prof.location("outcrop", index=-1))
    a, b = [gen.make_location(ps, prof, p, x) for x in case["locs"]]
    tf = calc.calc_accel_tf(a, b)[0]
    # |tf - 1| is bounded by accumulated phase times impedance contrast
    imps = [p["soils"][la["s"]]["uw"] * la["vs"] for la in p["layers"]]
    phase = sum(2 * np.pi * case["f"] * la["h"] / la["vs"] for la in p["layers"]) + 1e-12
    phase += 2 * np.pi * case["f"] * 7.0 / p["layers"][-1]["vs"]
    bound = 20 * phase * (max(imps) / min(imps)) ** 2 + 1e-9
    if bound > 0.02:
        return
    assert abs(tf - 1) < bound, (tf, bound)
    t.nt(len(p["layers"]) > 2 and case["locs"][0] != case["locs"][1])


SUBS = [
    Sub("relations", case_, fn, 700),
    Sub("large", large_case, fn_large, 120),
    Sub("low-frequency", low_case, fn_low, 600),
]
