"""C08: frequency-dependent equivalent-linear strain spectra."""

import numpy as np
import pykooh
from hypothesis import strategies as st

import pystrata as ps

from .. import gen, ref
from ..core import Sub
from .c06 import settled, sparse, state, warmup  # noqa: F401

RULE = (
    "random nonlinear profiles, time-series and random-vibration motions, three spectral methods and several "
    "bandwidths; non-trivial = the strain spectrum of a nonlinear layer varies by more than a factor of two over "
    "frequency and its modulus moved by more than 1%"
)
ASSUMPTIONS = [
    "the half-space is linear",
    "Konno-Ohmachi smoothing itself (pykooh) is trusted",
    "the reference iteration starts from the library's own initial strain estimate",
]


@st.composite
def large_case(draw):
    """Many layers and long motions."""
    case = draw(case_())
    case["big"] = draw(gen.big_profiles(nmin=6, nmax=25, nonlinear="mixed", depth=(10.0, 120.0)))
    del case["p"]
    if case["m"]["kind"] == "rvt":
        case["m"]["nf"] = draw(st.integers(150, 400))
    else:
        case["m"] = draw(gen.ts_motions(nmin=256, nmax=2048 if case["method"][:2] != "ko" else 600, pga=(0.003, 0.7)))
    case["maxit"] = min(case["maxit"], 6)
    return case


def fn_large(case, t):
    fn(dict(case, p=gen.expand_profile(case["big"])), t)


@st.composite
def case_(draw):
    rvt = draw(st.integers(0, 3)) == 0
    return {
        "p": draw(gen.profiles(nonlinear="mixed", max_layers=4, dmin=0.005, dmax=0.06, hmax=25.0, vmin=100.0, vmax=900.0)),
        "m": draw(gen.rvt_motions(amp=(1e-3, 0.2)) if rvt else gen.ts_motions(nmin=64, nmax=128, pga=(0.003, 0.7))),
        "fas": draw(st.sampled_from([None, None, 0.01, 0.5, 1.0])),
        "method": draw(st.sampled_from(["ka02", "ka02", "zr15", "ko:20", "ko:30", "ko:40", "ko:7.5", "ko:12.5", "ko:100", "ko:150"])),
        "ratio": draw(st.sampled_from([0.65, 1.0]) | gen.fl(0.3, 1.0, 3)),
        "tol": draw(st.sampled_from([0.01, 0.1]) | gen.logf(0.001, 5.0, 3)),
        "maxit": draw(st.sampled_from([15, 8]) | st.integers(1, 6)),
        "limit": draw(st.sampled_from([None, None, None, 0.05, 0.003])),
        "lin": draw(st.sampled_from(["outcrop", "outcrop", "incoming_only", "within"])),
    }


def make(case, **kw):
    a = dict(
        method=case["method"],
        strain_ratio=case["ratio"],
        tolerance=case["tol"],
        max_iterations=case["maxit"],
        strain_limit=case["limit"],
    )
    a.update(kw)
    return sparse(ps.propagation.FrequencyDependentEqlCalculator, a)


def shape(method, f, fas):
    """Strain spectrum relative to the effective strain."""
    f, fas = np.asarray(f, dtype=float), np.asarray(fas, dtype=float)
    if method == "zr15":
        return fas / fas.max()
    if method.startswith("ko:"):
        sm = pykooh.smooth(f, f, fas, float(method[3:]), normalize=True)
        sm = sm / sm.max()
        return np.array([sm[i:].max() for i in range(len(sm))])
    area = lambda y, x: float(np.sum((y[1:] + y[:-1]) / 2 * np.diff(x)))  # noqa: E731
    mean = area(f * fas, f) / area(fas, f)
    low = f < mean
    avg = area(fas[low], f[low]) / mean
    x, y = f / mean, fas / avg
    hi = ~low
    # ln y = -a x - b ln x
    A = np.column_stack([x[hi], np.log(x[hi])])
    (a, b), *_ = np.linalg.lstsq(A, -np.log(y[hi]), rcond=None)
    with np.errstate(all="ignore"):
        s = np.exp(-a * x) / np.maximum(2.0**-52, x**b)
    return np.minimum(1, s)


def mid(prof, i):
    return ps.site.Location(i, prof[i], "within", prof[i].thickness / 2)


def spectra(calc, mot, prof, lin, case):
    """(effective strain spectra, peak strains) of the calculator's response."""
    out, peaks = [], []
    for i in range(len(prof) - 1):
        tf = calc.calc_strain_tf(lin, mid(prof, i))
        pk = mot.calc_peak(tf)
        peaks.append(pk)
        out.append(case["ratio"] * pk * shape(case["method"], mot.freqs, np.abs(tf * mot.fourier_amps)))
    return out, peaks


def motion_of(case):
    m = case["m"]
    if case.get("fas") and m["kind"] == "rvt":
        # spectra that are flat or fall with frequency from the first one on
        f, fas = gen.rvt_fas(m)
        fas = m["amp"] * 0.1 * (f / f[0]) ** -case["fas"] * np.exp(-np.pi * m["kappa"] * f)
        return ps.motion.RvtMotion(f, fas, duration=m["dur"])
    return gen.build_motion(ps, m)


def iterate(case):
    prof = gen.build_profile(ps, case["p"])
    mot = motion_of(case)
    lin = prof.location(case["lin"], index=-1)
    try:
        make(case, max_iterations=0)(mot, prof, lin)
    except RuntimeError:
        assert case["limit"] is not None, "strain limit error without a limit"
        return "raise in the initial estimate", []
    le = ps.propagation.LinearElasticCalculator()
    hist = [state_(prof)]
    was = False
    for _ in range(case["maxit"]):
        le(mot, prof, lin, reset_layers=False)
        eff, _p = spectra(le, mot, prof, lin, case)
        limited = case["limit"] is not None and any(np.any(e > case["limit"]) for e in eff)
        for la, e in zip(prof[:-1], eff):
            la.strain = e if case["limit"] is None else np.minimum(e, case["limit"])
        hist.append(state_(prof))
        if all(settled(a, b, case["tol"]) for a, b in zip(*hist[-2:])):
            return "converged", hist
        if limited and was:
            return "raise", hist
        was = limited
    return "limit", hist


def state_(prof):
    return [np.atleast_1d(x).astype(float) for la in prof for x in (la.shear_mod, la.damping)]


def equal_states(a, b):
    return all(np.allclose(x, y, rtol=1e-6) for x, y in zip(a, b))


def fn(case, t):
    p = case["p"]
    outcome, hist = iterate(case)
    prof = gen.build_profile(ps, p)
    mot = motion_of(case)
    lin = prof.location(case["lin"], index=-1)
    calc = make(case)
    try:
        calc(mot, prof, lin)
    except RuntimeError:
        assert outcome.startswith("raise"), ("strain limit error without cause", outcome)
        t.label("strain limit raised")
        return
    assert not outcome.startswith("raise"), "strain limit exceeded twice without an error"
    final = state_(prof)
    if outcome == "limit":
        assert equal_states(final, hist[-1]), "not the state of the last iteration"
    else:
        same = [k for k in range(1, len(hist)) if equal_states(hist[k], final)]
        assert same, "final state is not an iterate"
        assert any(
            all(settled(x, y, case["tol"] * 1.001) for x, y in zip(hist[k - 1], hist[k])) for k in same
        ), "stopped before convergence"

    eff, peaks = spectra(calc, mot, prof, lin, case)
    varied = moved = False
    for i, la in enumerate(p["layers"]):
        layer, s = prof[i], p["soils"][la["s"]]
        g0, dm = ref.initial_mod(p, la), gen.layer_damping_min(p, la)
        if i < len(eff):
            want = eff[i] if case["limit"] is None else np.minimum(eff[i], case["limit"])
            e = np.asarray(layer.strain)
            assert e.shape == (len(mot.freqs),), ("one strain per frequency", e.shape)
            assert np.all(e >= 0) and np.all(e <= case["ratio"] * peaks[i] * (1 + 1e-12))
            gen.close(layer.strain_max, peaks[i], rtol=1e-9, what="peak strain")
            gen.close(e, want, rtol=1e-6, atol=1e-9 * case["ratio"] * peaks[i], what=f"{case['method']} strain spectrum")
            if case["method"] != "ka02":
                assert np.isclose(e.max(), min(case["ratio"] * peaks[i], case["limit"] or np.inf), rtol=1e-9)
            if case["method"].startswith("ko"):
                assert np.all(np.diff(e) <= 1e-12 * e.max()), "ko spectrum rises with frequency"
            if s["mr"] is not None:
                varied |= np.max(e) > 2 * np.min(e)
                moved |= bool(np.any(np.abs(layer.shear_mod / g0 - 1) > 0.01))
        e = np.asarray(layer.strain)
        gen.close(*np.broadcast_arrays(layer.shear_mod, g0 * ref.soil_mod_reduc(s, e)), rtol=1e-9, what=f"layer {i} modulus")
        gen.close(*np.broadcast_arrays(layer.damping, ref.soil_damping(s, dm, e)), rtol=1e-9, atol=1e-15, what=f"layer {i} damping")
    t.nt(varied and moved)
    t.label(case["method"])
    t.label(outcome)
    t.label(case["m"]["kind"])


@st.composite
def linear_case(draw):
    return {
        "p": draw(gen.profiles(nonlinear="no", max_layers=4)),
        "m": draw(st.one_of(gen.ts_motions(nmin=32, nmax=96), gen.rvt_motions())),
        "method": draw(st.sampled_from(["ka02", "zr15", "ko:20", "ko:30"])),
        "lin": draw(st.sampled_from(["outcrop", "incoming_only", "within"])),
    }


def fn_linear(case, t):
    prof = gen.build_profile(ps, case["p"])
    mot = gen.build_motion(ps, case["m"])
    lin = prof.location(case["lin"], index=-1)
    surf = prof.location("outcrop", index=0)
    le = ps.propagation.LinearElasticCalculator()
    le(mot, prof, lin)
    want = le.calc_accel_tf(lin, surf), le.calc_strain_tf(lin, mid(prof, 0))
    fd = ps.propagation.FrequencyDependentEqlCalculator(case["method"])
    fd(mot, prof, lin)
    gen.close(fd.calc_accel_tf(lin, surf), want[0], rtol=1e-12, what="accel tf")
    gen.close(fd.calc_strain_tf(lin, mid(prof, 0)), want[1], rtol=1e-12, what="strain tf")
    t.nt(len(prof) > 2)
    t.label(case["method"])


@st.composite
def column_case(draw):
    c = draw(case_())
    c["slope"] = draw(st.sampled_from([0.0, 0.05, 0.2]) | gen.fl(-0.2, 0.29, 3))
    return c


def columns(d, slope, f):
    """Damping values with one column per frequency."""
    f = np.maximum(np.asarray(f, dtype=float), 0.05)
    return np.array(d[1])[:, None] + 0.02 * (1 + slope * np.log(f))[None, :]


def fn_columns(case, t):
    """Damping curves given per frequency (as Darendeli soils with an array of
    frequencies have them)."""
    p = case["p"]
    mot = gen.build_motion(ps, case["m"])
    prof = gen.build_profile(ps, p)
    done = {}
    for la in prof:
        k = id(la.soil_type)
        s = la.soil_type
        if k not in done and isinstance(s.damping, ps.site.DampingCurve):
            d = [s.damping.strains, s.damping.values]
            s.damping = ps.site.DampingCurve(s.name, d[0], columns(d, case["slope"], mot.freqs))
            done[k] = True
    if not done:
        t.reject("no damping curve")
    prof = ps.site.Profile([ps.site.Layer(la.soil_type, la.thickness, la.initial_shear_vel) for la in prof], p["wt"])
    lin = prof.location(case["lin"], index=-1)
    try:
        make(case)(mot, prof, lin)
    except RuntimeError:
        assert case["limit"] is not None, "strain limit error without a limit"
        t.label("strain limit raised")
        return
    moved = False
    for i, la in enumerate(p["layers"]):
        s = p["soils"][la["s"]]
        if not isinstance(s["d"], (list, tuple)):
            continue
        cols = columns(s["d"], case["slope"], mot.freqs)
        e = np.broadcast_to(prof[i].strain, cols.shape[1:])
        want = [float(ref.curve(s["d"][0], cols[:, j], ref.D_LIMITS, e[j])) for j in range(cols.shape[1])]
        gen.close(prof[i].damping, np.array(want), rtol=1e-9, atol=1e-12, what=f"layer {i} damping")
        moved |= i < len(p["layers"]) - 1 and float(np.ptp(np.log(np.maximum(e, 1e-6)))) > 0.5
    t.nt(moved)
    if case["slope"] == 0.0:
        # The same column at every frequency: as a single curve
        q = gen.build_profile(ps, p)
        for s in {id(x.soil_type): x.soil_type for x in q}.values():
            if isinstance(s.damping, ps.site.DampingCurve):
                s.damping = ps.site.DampingCurve(s.name, s.damping.strains, s.damping.values + 0.02)
        q = ps.site.Profile([ps.site.Layer(la.soil_type, la.thickness, la.initial_shear_vel) for la in q], p["wt"])
        make(case)(mot, q, q.location(case["lin"], index=-1))
        for a, b in zip(prof, q):
            gen.close(*np.broadcast_arrays(a.damping, b.damping), rtol=1e-9, what="damping as with a single curve")
            gen.close(*np.broadcast_arrays(a.strain, b.strain), rtol=1e-9, what="strain as with a single curve")
        t.label("one column repeated")


SUBS = [
    Sub("spectra", case_, fn, 1200),
    Sub("large", large_case, fn_large, 40),
    Sub("damping per frequency", column_case, fn_columns, 120, 2400),
    Sub("linear profiles", linear_case, fn_linear, 240),
]
