"""C18: random-vibration-theory motions drive the calculators."""

import numpy as np
import pyrvt
from hypothesis import strategies as st

import pystrata as ps

from .. import gen
from ..core import Sub
from . import c06
from .c02 import make_calc

RULE = (
    "random user-specified, response-spectrum-compatible and point-source motions with several peak calculators, transfer "
    "functions and every calculator; non-trivial = a frequency-dependent transfer function or a profile of at least two layers"
)
ASSUMPTIONS = [
    "the peak of a spectrum is what the motion's pyrvt peak calculator returns (pyrvt is a dependency, not the code under test)",
    "spectrum-compatible motions are given target spectra that a random-vibration motion can have",
]

PEAKS = ["V75", "D64", "DK85", "TM87", "CLH56", "BJ84", "LP99", "BT12", "BT15", None]
KWDS = {"region": "cena", "mag": 6.5, "dist": 30.0}


def warmup():
    c06.warmup()
    m = ps.motion.RvtMotion(np.geomspace(0.1, 50, 30), np.ones(30), duration=10.0)
    m.pgv


def peak_kw(name):
    kw = {} if name is None else {"peak_calculator": name}
    if name in ("BT12", "BT15"):
        kw["calc_kwds"] = dict(KWDS)
    return kw


@st.composite
def user_case(draw):
    return {
        "m": draw(gen.rvt_motions()),
        "peak": draw(st.sampled_from(PEAKS)),
        "order": draw(st.sampled_from(["array", "list", "decreasing"])),
        "tfseed": draw(gen.seeds()),
        "scale": draw(gen.logf(1e-3, 1e3)),
        "of": draw(st.lists(gen.logf(0.2, 50.0), min_size=1, max_size=4)),
        "damp": draw(gen.logf(0.01, 0.3, 3)),
    }


def fn_user(case, t):
    f, fas = gen.rvt_fas(case["m"])
    dur = case["m"]["dur"]
    kw = peak_kw(case["peak"])
    a, b = f, fas
    if case["order"] == "list":
        a, b = f.tolist(), fas.tolist()
    elif case["order"] == "decreasing":
        a, b = f[::-1].copy(), fas[::-1].copy()
    m = ps.motion.RvtMotion(a, b, dur, **kw)
    gen.close(m.freqs, f, rtol=1e-12, what="freqs")
    gen.close(m.fourier_amps, fas, rtol=1e-12, what="fourier amplitudes")
    gen.close(m.angular_freqs, 2 * np.pi * f, rtol=1e-12, what="angular frequencies")
    assert m.duration == dur
    pc = pyrvt.peak_calculators.get_peak_calculator(case["peak"] or pyrvt.motions.DEFAULT_CALC, kw.get("calc_kwds"))

    def peak(amps, **k):
        return pc(dur, f, amps, **k)[0]

    plain = case["peak"] not in ("BT12", "BT15")  # those are for oscillators
    if plain:
        pga, pgv = peak(fas), 980.665 * peak(fas / (2 * np.pi * f))
        gen.close(m.pga, pga, rtol=1e-9, what="pga [g]")
        gen.close(m.pgv, pgv, rtol=1e-9, what="pgv [cm/s]")
        gen.close(m.calc_pga(), pga, rtol=1e-9, what="calc_pga")
        gen.close(m.calc_pgv(), pgv, rtol=1e-9, what="calc_pgv")
        # Plausible size: rms times a peak factor
        e = 2 * np.trapezoid(fas**2, f) / dur
        assert 0.5 < pga / np.sqrt(e) < 6.0, "peak factor"
        rng = np.random.RandomState(case["tfseed"])
        tf = np.exp(rng.standard_normal(len(f)) * 0.5) * np.exp(2j * np.pi * rng.rand(len(f)))
        kept = tf.copy()
        gen.close(m.calc_pga(tf), peak(np.abs(tf) * fas), rtol=1e-9, what="pga with transfer function")
        gen.close(m.calc_pgv(tf), 980.665 * peak(np.abs(tf) * fas / (2 * np.pi * f)), rtol=1e-9, what="pgv with transfer function")
        gen.close(m.calc_peak(tf), peak(np.abs(tf) * fas), rtol=1e-9, what="peak with transfer function")
        assert np.array_equal(kept, tf)
    of, d = case["of"], case["damp"]
    want = [
        peak(fas * np.abs(x**2 / (x**2 - f**2 + 2j * d * x * f)), osc_freq=x, osc_damping=d, site_tf=None) for x in of
    ]
    gen.close(np.asarray(m.calc_osc_accels(of, d)), np.array(want), rtol=1e-9, what="oscillator response")
    # Scaling
    s = case["scale"]
    m2 = ps.motion.RvtMotion(a, np.asarray(b) * s, dur, **kw)
    # BT models use the amplitudes only in ratios: same factor
    if plain:
        gen.close(m2.pga, s * pga, rtol=1e-7, what="pga scales")
        gen.close(m2.pgv, s * pgv, rtol=1e-7, what="pgv scales")
    gen.close(np.asarray(m2.calc_osc_accels(of, d)), s * np.array(want), rtol=1e-7, what="oscillator response scales")
    gen.close(m.fourier_amps, fas, rtol=1e-12, what="fourier amplitudes afterwards")
    t.nt(plain or len(of) > 1)
    t.label(f"peak {case['peak']}")


# ------------------------------------------------------------- other motions
@st.composite
def source_case(draw):
    return {
        "mag": draw(gen.fl(4.0, 7.8, 3)),
        "dist": draw(gen.logf(3.0, 200.0, 3)),
        "region": draw(st.sampled_from(["wna", "cena"])),
        "stress": draw(st.none() | gen.logf(30, 400, 3)),
        "depth": draw(st.none() | gen.fl(2.0, 20.0, 3)),
        "peak": draw(st.sampled_from(["V75", "DK85", "LP99", None])),
    }


def build_source(case):
    kw = peak_kw(case["peak"])
    if case["stress"] is not None:
        kw["stress_drop"] = case["stress"]
    if case["depth"] is not None:
        kw["depth"] = case["depth"]
    return ps.motion.SourceTheoryRvtMotion(case["mag"], case["dist"], case["region"], **kw)


def fn_source(case, t):
    m = build_source(case)
    kw = {} if case["stress"] is None else {"stress_drop": case["stress"]}
    if case["depth"] is not None:
        kw["depth"] = case["depth"]
    if case["peak"]:
        kw["peak_calculator"] = case["peak"]
    ref = pyrvt.motions.SourceTheoryMotion(magnitude=case["mag"], distance=case["dist"], region=case["region"], **kw)
    gen.close(m.freqs, ref.freqs, rtol=1e-12, what="freqs")
    gen.close(m.fourier_amps, ref.fourier_amps, rtol=1e-12, what="fourier amplitudes")
    gen.close(m.duration, ref.duration, rtol=1e-12, what="duration")
    gen.close(m.pga, ref.calc_peak(), rtol=1e-12, what="pga")
    gen.close(m.pgv, 980.665 * ref.calc_peak(1 / (2 * np.pi * ref.freqs)), rtol=1e-9, what="pgv")
    # A user-specified motion with the same spectrum and duration is the same motion
    user = ps.motion.RvtMotion(m.freqs, m.fourier_amps, m.duration, **peak_kw(case["peak"]))
    gen.close(user.pgv, m.pgv, rtol=1e-9, what="pgv")
    gen.close(user.calc_osc_accels([1.0, 10.0]), m.calc_osc_accels([1.0, 10.0]), rtol=1e-9, what="oscillator response")
    t.nt(case["stress"] is not None or case["depth"] is not None)
    t.label(case["region"])


@st.composite
def compat_case(draw):
    return {
        "m": draw(gen.rvt_motions(amp=(0.003, 0.3))),
        "lo": draw(st.sampled_from([0.2, 0.5])),
        "hi": draw(st.sampled_from([25.0, 50.0])),
        "n": draw(st.integers(10, 24)),
        "damp": draw(st.sampled_from([None, 0.02, 0.1])),
        "event": draw(st.none() | st.fixed_dictionaries({"magnitude": gen.fl(5, 7.5, 3), "distance": gen.logf(5, 100, 3), "region": st.sampled_from(["wna", "cena"])})),
        "window": draw(st.sampled_from([None, None, 5])),
        "peak": draw(st.sampled_from(["V75", "DK85", None])),
        "rev": draw(st.booleans()),
    }


def build_compat(case):
    """-> motion, oscillator frequencies, target, damping, duration"""
    m0 = dict(case["m"], fmin=0.05, fmax=100.0, nf=200)
    f, fas = gen.rvt_fas(m0)
    of = np.geomspace(case["lo"], case["hi"], case["n"])
    d = 0.05 if case["damp"] is None else case["damp"]
    dur = m0["dur"]
    kw = {}
    if case["event"] is not None:
        dur = pyrvt.motions.SourceTheoryMotion(**case["event"]).duration
        kw["event_kwds"] = dict(case["event"])
    else:
        kw["duration"] = dur
    if case["damp"] is not None:
        kw["osc_damping"] = d
    if case["window"]:
        kw["window_len"] = case["window"]
    kw.update(peak_kw(case["peak"]))
    target = pyrvt.motions.RvtMotion(f, fas, dur, case["peak"]).calc_osc_accels(of, d)
    args = (of[::-1].copy(), target[::-1].copy()) if case["rev"] else (of, target)
    m = ps.motion.CompatibleRvtMotion(*args, **kw)
    ref = pyrvt.motions.CompatibleRvtMotion(*args, **kw)
    return m, of, target, d, dur, ref


def fn_compat(case, t):
    m, of, target, d, dur, ref = build_compat(case)
    gen.close(m.duration, dur, rtol=1e-12, what="duration")
    gen.close(m.freqs, ref.freqs, rtol=1e-12, what="freqs")
    gen.close(m.fourier_amps, ref.fourier_amps, rtol=1e-9, what="fourier amplitudes")
    got = m.calc_osc_accels(of, d)
    # Approximate match away from the ends of the range, on average
    err = np.abs(np.log(got / target))
    tol = 0.05 if case["window"] is None else 0.25
    assert np.median(err) < tol, ("target spectrum", err)
    gen.close(m.pga, ref.calc_peak(), rtol=1e-9, what="pga")
    gen.close(m.pgv, 980.665 * ref.calc_peak(1 / (2 * np.pi * ref.freqs)), rtol=1e-9, what="pgv")
    t.nt()
    t.label("event", case["event"] is not None)


# ------------------------------------------------------------- calculators
@st.composite
def calc_case(draw):
    return {
        "kind": draw(st.sampled_from(["user", "user", "source", "compat"])),
        "m": draw(gen.rvt_motions(amp=(1e-3, 0.2))),
        "src": draw(source_case()),
        "com": draw(compat_case()),
        "p": draw(gen.profiles(nonlinear="mixed", max_layers=4, dmin=0.005, dmax=0.06, hmax=25.0, vmin=100.0, vmax=900.0)),
        "calc": draw(st.sampled_from(["LE", "EQL", "EQL", "FDM-ka02", "FDM-zr15"])),
        "lin": draw(st.sampled_from(["outcrop", "incoming_only", "within"])),
        "locs": draw(st.lists(gen.locations(), min_size=2, max_size=2)),
    }


def results(calc_name, prof, mot, case):
    calc = make_calc(ps, calc_name)
    lin = prof.location(case["lin"], index=-1)
    calc(mot, prof, lin)
    a, b = [gen.make_location(ps, prof, case["p"], x) for x in case["locs"]]
    return calc, lin, calc.calc_accel_tf(a, b)


def fn_calc(case, t):
    kind = case["kind"]
    if kind == "user":
        m, peak = gen.build_motion(ps, case["m"]), None
    elif kind == "source":
        m, peak = build_source(case["src"]), case["src"]["peak"]
    else:
        m, peak = build_compat(case["com"])[0], case["com"]["peak"]
    prof = gen.build_profile(ps, case["p"])
    calc, lin, tf = results(case["calc"], prof, m, case)
    assert tf.shape == m.freqs.shape and np.all(np.isfinite(tf))
    # The result depends only on spectrum, duration and peak calculator
    same = ps.motion.RvtMotion(m.freqs, m.fourier_amps, m.duration, **peak_kw(peak))
    prof2 = gen.build_profile(ps, case["p"])
    _, _, tf2 = results(case["calc"], prof2, same, case)
    gen.close(tf2, tf, rtol=1e-6, atol=1e-9 * np.abs(tf).max(), what="same spectrum, same result")
    if case["calc"] == "LE":
        # the linear response does not depend on the motion
        prof3 = gen.build_profile(ps, case["p"])
        _, _, tf3 = results("LE", prof3, ps.motion.Motion(m.freqs), case)
        gen.close(tf3, tf, rtol=1e-9, what="linear response")
    if case["calc"] == "EQL":
        pk = c06.peaks(calc, m, prof, lin)
        got = np.array([la.strain_max for la in prof[:-1]])
        gen.close(got, pk, rtol=1e-9, what="peak strains from random vibration theory")
    # Tiny motions give the small-strain state
    if case["calc"] != "LE":
        tiny = ps.motion.RvtMotion(m.freqs, m.fourier_amps * 1e-7, m.duration, **peak_kw(peak))
        prof4 = gen.build_profile(ps, case["p"])
        results(case["calc"], prof4, tiny, case)
        for la in prof4:
            x = 1e-6
            red = 1.0 if la.soil_type.mod_reduc is None else la.soil_type.mod_reduc(x)
            assert np.allclose(la.shear_mod, la.initial_shear_mod * red, rtol=0.02), "small-strain modulus"
    t.nt(len(case["p"]["layers"]) > 2)
    t.label(f"{kind} {case['calc']}")


@st.composite
def qwl_case(draw):
    return {
        "m": draw(gen.rvt_motions()),
        "p": draw(gen.profiles(nonlinear="no", smooth=True, max_layers=4, hmax=60.0)),
    }


def fn_qwl(case, t):
    prof = gen.build_profile(ps, case["p"])
    m = gen.build_motion(ps, case["m"])
    out = []
    for mot in (m, ps.motion.Motion(m.freqs)):
        calc = ps.propagation.QuarterWaveLenCalculator(site_atten=0.02)
        try:
            calc(mot, prof, prof.location("outcrop", index=-1))
        except RuntimeError:
            t.reject("depth iteration refused")
        out.append((calc.crustal_amp, calc.site_term))
    gen.close(out[0][0], out[1][0], rtol=1e-9, what="quarter-wavelength amplification")
    gen.close(out[0][1], out[1][1], rtol=1e-9, what="site term")
    t.nt(len(case["p"]["layers"]) > 2)


SUBS = [
    Sub("user spectrum", user_case, fn_user, 1200),
    Sub("point source", source_case, fn_source, 240),
    Sub("spectrum compatible", compat_case, fn_compat, 120, 2000),
    Sub("calculators", calc_case, fn_calc, 500, 6000),
    Sub("quarter wavelength", qwl_case, fn_qwl, 200),
]
