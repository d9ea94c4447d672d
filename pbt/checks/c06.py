"""C06: equivalent-linear analyses end in a strain-compatible state."""

import numpy as np
from hypothesis import strategies as st

import pystrata as ps

from .. import gen, ref
from ..core import Sub

RULE = (
    "random nonlinear profiles (modulus-only, damping-only, both, linear layers), time-series and "
    "random-vibration motions, strain ratios, tolerances, iteration and strain limits; non-trivial = at least one "
    "nonlinear layer whose modulus or damping moved by more than 1%"
)
ASSUMPTIONS = [
    "the half-space is linear",
    "the reference iteration starts from the library's own initial strain estimate",
]


def warmup():
    prof = ps.site.Profile(
        [
            ps.site.Layer(ps.site.SoilType("a", 18.0, None, 0.02), 10.0, 200.0),
            ps.site.Layer(ps.site.SoilType("b", 22.0, None, 0.01), 0, 800.0),
        ]
    )
    m = ps.motion.TimeSeriesMotion("", "", 0.01, np.sin(np.arange(32.0)))
    c = ps.propagation.EquivalentLinearCalculator()
    c(m, prof, prof.location("outcrop", index=-1))
    c.calc_accel_tf(prof.location("outcrop", index=-1), prof.location("within", index=0))


@st.composite
def case_(draw, rvt=False, limit=False):
    p = draw(gen.profiles(nonlinear="mixed", max_layers=5, dmin=0.005, dmax=0.06, hmax=25.0, vmin=100.0, vmax=900.0))
    if draw(st.integers(0, 3)) == 0:
        # undamped linear layers
        for so in p["soils"]:
            if not isinstance(so["d"], (list, tuple)):
                so["d"] = draw(st.sampled_from([0, 0.0, so["d"]]))
    return {
        "p": p,
        "m": draw(gen.rvt_motions(amp=(1e-3, 0.3)) if rvt else gen.ts_motions(nmin=64, nmax=256, pga=(0.003, 1.0))),
        "ratio": draw(st.sampled_from([0.65, 0.65, 1.0]) | gen.fl(0.3, 1.0, 3)),
        "tol": draw(st.sampled_from([0.01, 0.01, 0.1]) | gen.logf(0.0001, 5.0, 3)),
        "maxit": draw(st.sampled_from([15, 15, 40]) | st.integers(1, 12)),
        "limit": draw(gen.logf(3e-5, 0.02, 3)) if limit else draw(st.sampled_from([None, None, 0.05])),
        "lin": draw(st.sampled_from(["outcrop", "outcrop", "incoming_only", "within"])),
    }


def setup(case):
    prof = gen.build_profile(ps, case["p"])
    return prof, gen.build_motion(ps, case["m"]), prof.location(case["lin"], index=-1)


def eql(case, **kw):
    a = dict(
        strain_ratio=case["ratio"],
        tolerance=case["tol"],
        max_iterations=case["maxit"],
        strain_limit=case["limit"],
    )
    a.update(kw)
    return sparse(ps.propagation.EquivalentLinearCalculator, a)


DEFAULTS = {"strain_ratio": 0.65, "tolerance": 0.01, "max_iterations": 15, "strain_limit": 0.05}


def sparse(cls, a):
    """A calculator made without the arguments that have their documented default."""
    calc = cls(**{k: v for k, v in a.items() if not (k in DEFAULTS and v == DEFAULTS[k])})
    for k in DEFAULTS:
        assert getattr(calc, k) == a[k], f"{k} = {getattr(calc, k)}, expected {a[k]}"
    return calc


def peaks(calc, mot, prof, lin):
    return np.array(
        [
            mot.calc_peak(calc.calc_strain_tf(lin, ps.site.Location(i, la, "within", la.thickness / 2)))
            for i, la in enumerate(prof[:-1])
        ]
    )


def state(prof):
    return np.array([la.shear_mod for la in prof]), np.array([la.damping for la in prof])


def settled(prev, new, tol):
    """Modulus and damping changed by no more than tol percent."""
    big = np.maximum(np.abs(prev), np.abs(new))
    return np.all(np.abs(prev - new) <= tol / 100 * np.maximum(np.abs(new), 1e-300) + 1e-15 * big)


def iterate(case):
    """Reference: iterate LE + strain-compatible update.  -> (outcome, history)"""
    prof, mot, lin = setup(case)
    eql(case, max_iterations=0)(mot, prof, lin)  # initial estimate
    le = ps.propagation.LinearElasticCalculator()
    hist = [state(prof)]
    was_limited = False
    for it in range(case["maxit"]):
        le(mot, prof, lin, reset_layers=False)
        eff = case["ratio"] * peaks(le, mot, prof, lin)
        limited = case["limit"] is not None and bool(np.any(eff > case["limit"]))
        if case["limit"] is not None:
            eff = np.minimum(eff, case["limit"])
        for la, e in zip(prof[:-1], eff):
            la.strain = e
        hist.append(state(prof))
        if settled(hist[-2][0], hist[-1][0], case["tol"]) and settled(hist[-2][1], hist[-1][1], case["tol"]):
            return "converged", hist, limited
        if limited and was_limited:
            return "raise", hist, limited
        was_limited = limited
    return "limit", hist, was_limited


def fn(case, t):
    p = case["p"]
    outcome, hist, limited = iterate(case)
    prof, mot, lin = setup(case)
    calc = eql(case)
    try:
        calc(mot, prof, lin)
    except RuntimeError:
        assert outcome == "raise", ("strain limit error without cause", outcome)
        t.label("strain limit raised")
        t.nt()
        return
    assert outcome != "raise", "strain limit exceeded twice without an error"
    G, D = state(prof)
    # convergence: some iterate equals the final state and moved less than the tolerance
    if outcome == "converged":
        n = len(hist) - 1
        same = [k for k in range(1, len(hist)) if np.allclose(hist[k][0], G, rtol=1e-9) and np.allclose(hist[k][1], D, rtol=1e-9)]
        assert same, ("final state is not an iterate", G, hist[-1][0])
        assert any(
            settled(hist[k - 1][0], hist[k][0], case["tol"] * 1.001)
            and settled(hist[k - 1][1], hist[k][1], case["tol"] * 1.001)
            for k in same
        ), ("stopped before convergence", same, n, hist[same[-1] - 1], (G, D))
    else:
        gen.close(G, hist[-1][0], rtol=1e-9, what="modulus at iteration limit")
        gen.close(D, hist[-1][1], rtol=1e-9, what="damping at iteration limit")

    # properties follow from the effective strains; strains from the response
    pk = peaks(calc, mot, prof, lin)
    moved = False
    for i, la in enumerate(p["layers"]):
        layer, s = prof[i], p["soils"][la["s"]]
        dm = gen.layer_damping_min(p, la)
        g0 = ref.initial_mod(p, la)
        if i < len(p["layers"]) - 1:
            gen.close(layer.strain_max, pk[i], rtol=1e-12, what="peak strain")
            want = case["ratio"] * pk[i]
            if case["limit"] is not None:
                want = min(want, case["limit"])
            gen.close(layer.strain, want, rtol=1e-12, what="effective strain")
        e = layer.strain
        gen.close(layer.shear_mod, g0 * ref.soil_mod_reduc(s, e), rtol=1e-9, what=f"layer {i} modulus")
        gen.close(layer.damping, ref.soil_damping(s, dm, e), rtol=1e-9, atol=1e-15, what=f"layer {i} damping")
        if s["mr"] is None:
            gen.close(layer.shear_mod, g0, rtol=1e-12, what="linear modulus")
        if not isinstance(s["d"], list):
            gen.close(layer.damping, dm, rtol=1e-12, what="linear damping")
        moved |= abs(layer.shear_mod / g0 - 1) > 0.01 or abs(layer.damping - dm) > 0.01 * dm
        if case["limit"] is not None and i < len(p["layers"]) - 1:
            assert e <= case["limit"]
    t.nt(moved)
    t.label(outcome)
    t.label("strain limited", limited)
    t.label(case["m"]["kind"])


@st.composite
def near_case(draw):
    c = draw(case_(rvt=draw(st.integers(0, 5)) == 0))
    c["tol"] = draw(gen.logf(1e-4, 0.5, 3))
    c["maxit"] = draw(st.sampled_from([15, 40, 8]))
    c["q"] = draw(st.floats(0, 1, width=16))
    return c


def fn_near(case, t):
    """A strain limit among the peak strains of the iterations, so that some exceed it and others do not."""
    prof, mot, lin = setup(case)
    calc = eql(case, max_iterations=0, strain_limit=None)
    calc(mot, prof, lin)
    le = ps.propagation.LinearElasticCalculator()
    top = []
    for _ in range(8):
        le(mot, prof, lin, reset_layers=False)
        eff = case["ratio"] * peaks(le, mot, prof, lin)
        for la, e in zip(prof[:-1], eff):
            la.strain = e
        top.append(float(eff.max()))
    top = sorted(top)
    gaps = [k for k in range(len(top) - 1) if top[k + 1] > top[k] * (1 + 1e-5)]
    if not gaps:
        t.reject("strains do not change")
    k = gaps[int(case["q"] * (len(gaps) - 1) + 0.5)]
    fn(dict(case, limit=(top[k] * top[k + 1]) ** 0.5), t)


@st.composite
def linear_case(draw):
    return {
        "p": draw(gen.profiles(nonlinear="no", max_layers=5)),
        "m": draw(st.one_of(gen.ts_motions(nmin=32, nmax=128), gen.rvt_motions())),
        "calc": draw(st.sampled_from(["EQL", "FDM-ka02", "FDM-zr15", "FDM-ko:30"])),
        "lin": draw(st.sampled_from(["outcrop", "incoming_only", "within"])),
        "locs": draw(st.lists(gen.locations(), min_size=2, max_size=2)),
    }


def fn_linear(case, t):
    """Linear profile: every equivalent-linear method is the linear elastic one."""
    from .c02 import make_calc

    p = case["p"]
    prof = gen.build_profile(ps, p)
    mot = gen.build_motion(ps, case["m"])
    lin = prof.location(case["lin"], index=-1)
    tfs = []
    for name in ("LE", case["calc"]):
        calc = make_calc(ps, name)
        calc(mot, prof, lin)
        a, b = [gen.make_location(ps, prof, p, x) for x in case["locs"]]
        tfs.append(calc.calc_accel_tf(a, b))
    gen.close(tfs[1], tfs[0], rtol=1e-12, what=case["calc"] + " vs LE")
    for la, layer in zip(p["layers"], prof):
        gen.close(np.broadcast_to(layer.shear_mod, ()), ref.initial_mod(p, la), rtol=1e-12, what="modulus") if np.ndim(layer.shear_mod) == 0 else None
        assert np.allclose(layer.damping, gen.layer_damping_min(p, la), rtol=1e-12)
    t.nt(len(p["layers"]) > 2)
    t.label(case["calc"])


@st.composite
def continued_case(draw):
    c = draw(case_(rvt=draw(st.booleans())))
    c["kind"] = draw(st.sampled_from(["EQL", "EQL", "zr15", "ka02", "ko:30"]))
    c["parts"] = [draw(st.integers(1, 4)), draw(st.integers(1, 3))]
    c["fresh"] = draw(st.booleans())
    return c


def fn_continued(case, t):
    """Continuing without resetting the layers is the same as not stopping."""

    def calc(n):
        kw = dict(strain_ratio=case["ratio"], tolerance=1e-12, max_iterations=n, strain_limit=None)
        if case["kind"] == "EQL":
            return ps.propagation.EquivalentLinearCalculator(**kw)
        return ps.propagation.FrequencyDependentEqlCalculator(method=case["kind"], **kw)

    prof, mot, lin = setup(case)
    whole = calc(sum(case["parts"]))
    whole(mot, prof, lin)
    prof2, mot2, lin2 = setup(case)
    part = calc(case["parts"][0])
    part(mot2, prof2, lin2)
    was = np.array([np.max(la.shear_mod) for la in prof2])
    part = calc(case["parts"][1])
    part(mot2, prof2, lin2, reset_layers=False)
    surf = lambda c, l, p: c.calc_accel_tf(l, p.location("outcrop", index=0))  # noqa: E731
    gen.close(surf(part, lin2, prof2), surf(whole, lin, prof), rtol=1e-8, what="continued transfer function")
    for a in ("strain", "shear_mod", "damping", "strain_max"):
        for i, (x, y) in enumerate(zip(prof2[:-1], prof[:-1])):
            gen.close(getattr(x, a), getattr(y, a), rtol=1e-8, atol=1e-14, what=f"continued {a} of layer {i}")
    t.nt(any(abs(np.max(la.shear_mod) / w - 1) > 1e-6 for la, w in zip(prof2, was)))
    t.label(case["kind"])


@st.composite
def large_case(draw):
    """Many layers and long motions."""
    rvt = draw(st.integers(0, 3)) == 0
    case = draw(case_(rvt=rvt, limit=draw(st.integers(0, 3)) == 0))
    case["big"] = draw(gen.big_profiles(nmin=8, nmax=40, nonlinear="mixed", depth=(10.0, 150.0)))
    del case["p"]
    if rvt:
        case["m"]["nf"] = draw(st.integers(150, 500))
    else:
        case["m"] = draw(gen.ts_motions(nmin=512, nmax=4096, pga=(0.003, 1.0)))
    case["maxit"] = min(case["maxit"], 15)
    return case


def fn_large(case, t):
    fn(dict(case, p=gen.expand_profile(case["big"])), t)


SUBS = [
    Sub("time series", lambda: case_(), fn, 420),
    Sub("random vibration", lambda: case_(rvt=True), fn, 120),
    Sub("strain limit", lambda: case_(limit=True), fn, 300),
    Sub("near the limit", near_case, fn_near, 200),
    Sub("large", large_case, fn_large, 48),
    Sub("continued", continued_case, fn_continued, 240),
    Sub("linear profiles", linear_case, fn_linear, 240),
]
