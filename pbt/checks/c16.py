"""C16: spectra and intensity measures of time-series motions."""

import numpy as np
from hypothesis import strategies as st

import pystrata as ps

from .. import gen
from ..core import Sub

RULE = (
    "random records (1-200 values, explicit values or random series, list or array, integer or float), time steps, Fourier "
    "lengths (default, equal, longer, odd, even) and complex transfer functions, against an explicit DFT sum; non-trivial = "
    "a record of at least 3 values whose length is not a power of two, or an odd Fourier length"
)
ASSUMPTIONS = [
    "the Fourier length is at least the record length",
    "intensity integrals may be taken by the trapezoidal rule over the record or over the zero-padded record",
]


def warmup():
    pass


@st.composite
def record(draw):
    kind = draw(st.sampled_from(["values", "series", "series", "ints"]))
    if kind == "values":
        return {"a": draw(st.lists(gen.fl(-1.0, 1.0, 4), min_size=1, max_size=20))}
    if kind == "ints":
        return {"a": draw(st.lists(st.integers(-3, 3), min_size=1, max_size=20))}
    return {"n": draw(st.integers(1, 200)), "seed": draw(gen.seeds()), "amp": draw(gen.logf(1e-4, 3.0))}


@st.composite
def case_(draw):
    rec = draw(record())
    n = len(rec["a"]) if "a" in rec else rec["n"]
    return {
        "rec": rec,
        "list": draw(st.booleans()),
        "dt": draw(st.sampled_from([0.005, 0.01, 0.02]) | gen.logf(1e-3, 0.5)),
        "fa": draw(st.none() | st.integers(n, n + 3) | st.integers(n, 2 * n + 40)),
        "tfseed": draw(gen.seeds()),
        "coef": draw(st.tuples(gen.fl(-2, 2, 4), gen.fl(-2, 2, 4))),
        "shift": draw(st.integers(0, 50)),
        "scale": draw(gen.logf(1e-3, 1e3)),
    }


def expand(rec):
    if "a" in rec:
        a = np.array(rec["a"])
        # the energy of smaller values is not representable
        return np.where(np.abs(a) < 1e-60, 0, a)
    return rec["amp"] * np.random.RandomState(rec["seed"]).standard_normal(rec["n"])


def dft(a, n):
    if n > 600:
        from scipy.fft import rfft

        return rfft(a, n)
    k = np.arange(n // 2 + 1)[:, None]
    j = np.arange(len(a))[None, :]
    return (np.exp(-2j * np.pi * ((k * j) % n) / n) * a).sum(axis=1)


def idft(f, n):
    """Real series of length n with one-sided spectrum f (real part at 0 and Nyquist)."""
    if n > 600:
        from scipy.fft import ifft

        f = np.r_[f, np.zeros(n // 2 + 1 - len(f))]
        full = np.r_[f, np.conj(f[1 : (n + 1) // 2][::-1])]
        full[0] = full[0].real
        if n % 2 == 0:
            full[n // 2] = full[n // 2].real
        return ifft(full).real
    t = np.arange(n)[:, None]
    k = np.arange(n // 2 + 1)[None, :]
    w = np.full(n // 2 + 1, 2.0)
    w[0] = 1.0
    if n % 2 == 0:
        w[-1] = 1.0
    ph = 2 * np.pi * ((t * k) % n) / n
    return ((f.real * np.cos(ph) - f.imag * np.sin(ph)) * w).sum(axis=1) / n


def make(rec, case, scale=None):
    a = expand(rec)
    if scale is not None:
        a = a * scale
    acc = a.tolist() if case["list"] else a.copy()
    kw = {} if case["fa"] is None else {"fa_length": case["fa"]}
    return ps.motion.TimeSeriesMotion("file.x", "some event", case["dt"], acc, **kw), a


def integral_ok(got, series, n_rec, dt, fac, what):
    """Trapezoidal rule over the padded or the unpadded record."""
    alts = [fac * dt * (v.sum() - 0.5 * (v[0] + v[-1])) for v in (series, series[:n_rec])]
    tol = 1e-8 * fac * dt * series.sum() + 1e-300
    assert min(abs(got - x) for x in alts) <= tol, f"{what}: {got!r} not in {alts}"


def fn(case, t):
    dt = case["dt"]
    m, a = make(case["rec"], case)
    n = len(a)
    N = case["fa"] or 1 << (n - 1).bit_length()
    amax = np.abs(a).max()
    tol = 1e-10 * max(amax, 1e-12) * N

    assert m.filename == "file.x" and m.description == "some event" and m.time_step == dt
    gen.close(m.accels, a, rtol=0, what="accels")
    gen.close(m.times, dt * np.arange(n), rtol=1e-12, what="times")
    # Spectrum
    nf = N // 2 + 1
    gen.close(m.freqs, np.arange(nf) / (N * dt), rtol=1e-10, what="freqs")
    gen.close(m.angular_freqs, 2 * np.pi * np.arange(nf) / (N * dt), rtol=1e-10, what="angular freqs")
    F = dft(a, N)
    assert m.fourier_amps.shape == (nf,)
    gen.close(m.fourier_amps, dt * F, rtol=1e-8, atol=tol * dt, what="fourier amplitudes")
    padded = np.zeros(N)
    padded[:n] = a
    gen.close(m.calc_time_series(), padded, rtol=1e-8, atol=tol, what="inverse")
    # Energy
    w = np.full(nf, 2.0)
    w[0] = 1
    if N % 2 == 0:
        w[-1] = 1
    e = (w * np.abs(m.fourier_amps) ** 2).sum() / (N * dt)
    gen.close(e, dt * (a.astype(float) ** 2).sum(), rtol=1e-8, atol=1e-12 * dt * amax**2, what="Parseval")
    # Intensity measures
    gen.close(m.pga, amax, rtol=1e-8, atol=tol, what="pga")
    om = 2 * np.pi * np.arange(nf) / (N * dt)
    vtf = np.zeros(nf, complex)
    vtf[1:] = 1 / (1j * om[1:])
    pgv = 980.665 * np.abs(idft(vtf * F, N)).max()
    gen.close(m.pgv, pgv, rtol=1e-7, atol=980.665 * tol * dt * N, what="pgv")
    integral_ok(m.arias_intensity, padded**2, n, dt, np.pi * gen.GRAV / 2, "Arias intensity")
    integral_ok(m.cav, np.abs(padded), n, dt, gen.GRAV, "CAV")

    # Transfer functions
    rng = np.random.RandomState(case["tfseed"])
    tf1 = rng.standard_normal(nf) + 1j * rng.standard_normal(nf)
    tf2 = rng.standard_normal(nf) + 1j * rng.standard_normal(nf)
    c1, c2 = case["coef"]
    kept = tf1.copy()
    ts1 = m.calc_time_series(tf1)
    ref1 = idft(tf1 * F, N)
    gen.close(ts1, ref1, rtol=1e-7, atol=10 * tol, what="series with transfer function")
    comb = m.calc_time_series(c1 * tf1 + c2 * tf2)
    gen.close(comb, c1 * ts1 + c2 * m.calc_time_series(tf2), rtol=1e-7, atol=50 * tol, what="linearity")
    gen.close(m.calc_peak(tf1), np.abs(ref1).max(), rtol=1e-7, atol=10 * tol, what="peak with transfer function")
    gen.close(m.calc_pga(tf1), np.abs(ref1).max(), rtol=1e-7, atol=10 * tol, what="pga with transfer function")
    gen.close(
        m.calc_pgv(tf1), 980.665 * np.abs(idft(vtf * tf1 * F, N)).max(), rtol=1e-7, atol=980.665 * 10 * tol * dt * N,
        what="pgv with transfer function",
    )
    gen.close(m.calc_pgv(), pgv, rtol=1e-7, atol=980.665 * tol * dt * N, what="calc_pgv")
    integral_ok(m.calc_arias_intensity(tf1), ref1**2, N, dt, np.pi * gen.GRAV / 2, "Arias intensity with transfer function")
    integral_ok(m.calc_cav(tf1), np.abs(ref1), N, dt, gen.GRAV, "CAV with transfer function")
    assert np.array_equal(kept, tf1), "transfer function modified"
    # A pure delay shifts the series circularly
    k = case["shift"] % N
    delay = np.exp(-2j * np.pi * ((np.arange(nf) * k) % N) / N)
    gen.close(m.calc_time_series(delay), np.roll(padded, k), rtol=1e-7, atol=10 * tol, what="delay")

    # Measures of the record, first asked for after those of a filtered motion
    m3, _ = make(case["rec"], case)
    ops = ["calc_pga", "calc_pgv", "calc_arias_intensity", "calc_cav", "calc_peak", "calc_time_series"]
    for name in np.random.RandomState(case["tfseed"]).permutation(ops):
        getattr(m3, name)(tf1)
    for name in np.random.RandomState(case["tfseed"] ^ 1).permutation(["pga", "pgv", "arias_intensity", "cav"]):
        gen.close(getattr(m3, name), getattr(m, name), rtol=1e-12, what=f"{name} after filtering")
    gen.close(m3.calc_time_series(), m.calc_time_series(), rtol=1e-12, what="series after filtering")

    # Scaling of the record
    s = case["scale"]
    m2, _ = make(case["rec"], case, s)
    big = s * tol * 10
    gen.close(m2.pga, s * m.pga, rtol=1e-7, atol=big, what="pga scales")
    gen.close(m2.pgv, s * m.pgv, rtol=1e-7, atol=980.665 * big * dt * N, what="pgv scales")
    gen.close(m2.cav, s * m.cav, rtol=1e-7, atol=big, what="cav scales")
    gen.close(m2.arias_intensity, s**2 * m.arias_intensity, rtol=1e-6, atol=1e-12 * s**2 * amax**2, what="Arias scales")
    # Nothing above changed the motion
    gen.close(m.accels, a, rtol=0, what="accels")
    gen.close(m.fourier_amps, dt * F, rtol=1e-8, atol=tol * dt, what="fourier amplitudes afterwards")
    t.nt(n > 2 and amax > 0 and (N % 2 == 1 or n & (n - 1)))
    t.label("odd Fourier length", N % 2 == 1)
    t.label("one value", n == 1)


@st.composite
def long_case(draw):
    """Records of a realistic length."""
    case = draw(case_())
    n = draw(st.integers(300, 20000) | st.sampled_from([1024, 4096, 8192, 16384]))
    case["rec"] = {"n": n, "seed": draw(gen.seeds()), "amp": draw(gen.logf(1e-4, 3.0))}
    case["fa"] = draw(st.none() | st.integers(n, n + 3) | st.integers(n, 2 * n + 40))
    return case


SUBS = [Sub("records", case_, fn, 4000), Sub("long records", long_case, fn, 250)]
