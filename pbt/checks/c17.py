"""C17: response spectra of time-series motions."""

import math

import numpy as np
from hypothesis import strategies as st

import pystrata as ps

from .. import gen
from ..core import Sub
from .c16 import dft, expand, idft, record

RULE = (
    "random records, Fourier lengths, oscillator frequencies (any order, repeated, beyond Nyquist), damping ratios and "
    "transfer functions against an explicit DFT sum; smooth quiet-padded records against exact time-domain integration of "
    "the oscillator; non-trivial = at least two distinct oscillator frequencies and a non-zero record"
)
ASSUMPTIONS = [
    "oscillator frequencies and damping are positive",
    "time-domain comparison to 1.5% for records that are smooth at the time step and padded with zeros until the oscillator is at rest",
]


def warmup():
    pass


@st.composite
def case_(draw):
    rec = draw(record())
    n = len(rec["a"]) if "a" in rec else rec["n"]
    dt = draw(st.sampled_from([0.005, 0.01, 0.02]))
    return {
        "rec": rec,
        "dt": dt,
        "fa": draw(st.none() | st.integers(n, n + 3) | st.integers(n, 2 * n + 40)),
        "of": draw(st.lists(gen.logf(0.05, 200.0), min_size=1, max_size=6)),
        "damp": draw(st.none() | gen.logf(0.003, 2.0, 3)),
        "tfseed": draw(st.none() | gen.seeds()),
        "tfreal": draw(st.sampled_from([False, False, True])),
        "scale": draw(gen.logf(1e-3, 1e3)),
        "list": draw(st.booleans()),
        # Further requests of the same motion
        "more": draw(
            st.lists(
                st.fixed_dictionaries(
                    {"damp": gen.logf(0.003, 0.6, 3), "tfseed": st.none() | gen.seeds(), "of": st.lists(gen.logf(0.05, 200.0), max_size=2)}
                ),
                max_size=3,
            )
        ),
    }


def sdof(f, fn, d):
    return fn**2 / (fn**2 - f**2 + 2j * d * fn * f)


def fn(case, t):
    a = expand(case["rec"]).astype(float)
    n, dt = len(a), case["dt"]
    kw = {} if case["fa"] is None else {"fa_length": case["fa"]}
    m = ps.motion.TimeSeriesMotion("", "", dt, a, **kw)
    N = case["fa"] or 1 << (n - 1).bit_length()
    nf = N // 2 + 1
    f = np.arange(nf) / (N * dt)
    F = dft(a, N)
    amax = np.abs(a).max()
    tol = 1e-9 * max(amax, 1e-12) * N
    d = 0.05 if case["damp"] is None else case["damp"]
    dkw = {} if case["damp"] is None else {"osc_damping": d}
    tf = None
    if case["tfseed"] is not None:
        rng = np.random.RandomState(case["tfseed"])
        tf = rng.standard_normal(nf) + 1j * rng.standard_normal(nf)
        if case.get("tfreal"):
            tf = tf.real
        dkw["tf"] = tf.tolist() if case["list"] else tf
    of = case["of"] if case["list"] else np.array(case["of"])
    got = m.calc_osc_accels(of, **dkw)
    want = np.array([np.abs(idft((1 if tf is None else tf) * sdof(f, x, d) * F, N)).max() for x in case["of"]])
    gen.close(np.asarray(got), want, rtol=1e-7, atol=tol / d, what="spectral acceleration")
    # One value per frequency, in the order requested
    perm = np.random.RandomState(len(case["of"])).permutation(len(case["of"]))
    gen.close(m.calc_osc_accels(np.array(case["of"])[perm], **dkw), want[perm], rtol=1e-7, atol=tol / d, what="order")
    # Linear in the motion
    s = case["scale"]
    m2 = ps.motion.TimeSeriesMotion("", "", dt, a * s, **kw)
    gen.close(m2.calc_osc_accels(of, **dkw), s * want, rtol=1e-7, atol=s * tol / d, what="scaling")
    # Positional arguments mean the same
    gen.close(m.calc_osc_accels(of, d, tf), want, rtol=1e-7, atol=tol / d, what="positional")
    # Whatever was requested before
    for i, q in enumerate(case.get("more", [])):
        tf2 = None
        if q["tfseed"] is not None:
            rng = np.random.RandomState(q["tfseed"])
            tf2 = rng.standard_normal(nf) + 1j * rng.standard_normal(nf)
        of2 = case["of"][: 1 + i] + q["of"]
        want2 = [np.abs(idft((1 if tf2 is None else tf2) * sdof(f, x, q["damp"]) * F, N)).max() for x in of2]
        gen.close(m.calc_osc_accels(of2, q["damp"], tf2), np.array(want2), rtol=1e-7, atol=tol / q["damp"], what="later request")
        t.label("later request")
    gen.close(m.calc_osc_accels(of, **dkw), want, rtol=1e-7, atol=tol / d, what="repeated")
    # Very stiff oscillator
    stiff = m.calc_osc_accels([1e5 / dt], d)
    gen.close(stiff, [amax], rtol=1e-3, atol=tol, what="stiff oscillator")
    t.nt(len(set(case["of"])) > 1 and amax > 0)
    t.label("transfer function", tf is not None)
    t.label("default damping", case["damp"] is None)
    t.label("beyond Nyquist", max(case["of"]) > 0.5 / dt)


# ---------------------------------------------------------------- time domain
@st.composite
def td_case(draw):
    return {
        "dt": draw(st.sampled_from([0.005, 0.01])),
        "waves": draw(
            st.lists(
                st.fixed_dictionaries(
                    {"f": gen.logf(0.3, 3.0), "amp": gen.fl(0.1, 1.0, 3), "ph": gen.fl(0, 6.28, 3)}
                ),
                min_size=1,
                max_size=4,
            )
        ),
        "dur": draw(gen.fl(2.0, 8.0, 3)),
        "of": draw(st.lists(gen.logf(0.8, 12.0), min_size=1, max_size=4)),
        "damp": draw(gen.logf(0.04, 0.3, 3)),
        "pow2": draw(st.booleans()),
    }


def oscillator(a, dt, fn, d):
    """Exact response to piecewise-linear excitation; returns peak pseudo acceleration."""
    from scipy.linalg import expm

    w = 2 * math.pi * fn
    # State [u, v, p, q]: u'' + 2dw u' + w^2 u = -p, p' = q
    A = np.array([[0, 1, 0, 0], [-w * w, -2 * d * w, -1, 0], [0, 0, 0, 1], [0, 0, 0, 0]])
    E = expm(A * dt)
    u = v = 0.0
    best = 0.0
    for p, q in zip(a[:-1], np.diff(a) / dt):
        u, v = (E[0, 0] * u + E[0, 1] * v + E[0, 2] * p + E[0, 3] * q, E[1, 0] * u + E[1, 1] * v + E[1, 2] * p + E[1, 3] * q)
        best = max(best, abs(u))
    return best * w * w


def fn_td(case, t):
    dt = case["dt"]
    n = int(case["dur"] / dt)
    x = np.arange(n) * dt
    a = sum(w["amp"] * np.sin(2 * np.pi * w["f"] * x + w["ph"]) for w in case["waves"])
    a = a * np.sin(np.pi * np.arange(n) / (n - 1)) ** 4
    # Quiet until the slowest oscillator is at rest again.
    quiet = math.log(2000) / (2 * math.pi * min(case["of"]) * case["damp"])
    n_all = n + int(quiet / dt) + 10
    rec = np.r_[a, np.zeros(n_all - n)]
    kw = {} if case["pow2"] else {"fa_length": n_all}
    m = ps.motion.TimeSeriesMotion("", "", dt, rec, **kw)
    got = m.calc_osc_accels(case["of"], case["damp"])
    want = [oscillator(rec, dt, x, case["damp"]) for x in case["of"]]
    scale = max(want)
    if np.abs(a).max() < 1e-3:
        t.reject("waves cancel")
    gen.close(np.asarray(got), np.array(want), rtol=0.015, atol=0.002 * scale, what="time-domain oscillator")
    t.nt(len(set(case["of"])) > 1)


@st.composite
def long_case(draw):
    """Records of a realistic length and many oscillators."""
    case = draw(case_())
    n = draw(st.integers(300, 20000) | st.sampled_from([1024, 4096, 8192, 16384]))
    case["rec"] = {"n": n, "seed": draw(gen.seeds()), "amp": draw(gen.logf(1e-4, 3.0))}
    case["fa"] = draw(st.none() | st.integers(n, n + 3) | st.integers(n, 2 * n + 40))
    k = draw(st.integers(1, 300 if n < 3000 else 60))
    case["of"] = gen_freqs(k, draw(gen.seeds()))
    case["more"] = []
    return case


def gen_freqs(k, seed):
    return [gen.r(x) for x in np.exp(np.random.RandomState(seed).uniform(np.log(0.05), np.log(200), k))]


SUBS = [
    Sub("DFT reference", case_, fn, 3000),
    Sub("long records", long_case, fn, 160),
    Sub("time domain", td_case, fn_td, 400),
]
