"""C04: strain and stress transfer functions."""

import numpy as np
from hypothesis import strategies as st

import pystrata as ps

from .. import gen, wave
from ..core import Sub
from .c01 import warmup  # noqa: F401

RULE = (
    "random profiles, within output depths and input locations of every wave field; "
    "non-trivial = several layers, output below the surface and non-zero frequency"
)
ASSUMPTIONS = ["tolerance 1e-7 relative to up- plus down-going amplitude"]
GRAV = gen.GRAV


@st.composite
def case_(draw, hard=False):
    p = draw(
        gen.profiles(
            max_layers=9 if hard else 5,
            dmax=0.49 if hard else 0.15,
            vmin=50.0 if hard else 100.0,
            vmax=4000.0,
            hmax=150.0 if hard else 60.0,
        )
    )
    return {
        "p": p,
        "f": draw(gen.freq_vectors(fmin=0.01, fmax=60.0)),
        "li": draw(gen.locations()),
        "lo": draw(gen.locations(wave_fields=("within",))),
    }


def fn(case, t):
    p = case["p"]
    prof = gen.build_profile(ps, p)
    f = np.array(case["f"])
    w = 2 * np.pi * f
    ref = wave.from_case(p, w)
    if ref.max_growth() > 300:
        return
    calc = ps.propagation.LinearElasticCalculator()
    calc(ps.motion.Motion(f), prof, prof.location("outcrop", index=-1))
    ii, zi = gen.resolve(case["li"], p)
    io, zo = gen.resolve(case["lo"], p)
    lin = gen.make_location(ps, prof, p, case["li"])
    lout = gen.make_location(ps, prof, p, case["lo"])
    win, sin = ref.field(ii, zi, case["li"]["wf"])
    eps, seps = ref.strain(io, zo)
    nz = f > 0
    pole = np.abs(win) < 1e-6 * sin

    tf = calc.calc_strain_tf(lin, lout)
    assert tf.shape == f.shape
    assert np.all(tf[~nz] == 0), ("zero frequency strain", tf[~nz])
    want = np.zeros(len(f), dtype=complex)
    with np.errstate(all="ignore"):
        # acceleration in g: u = -g a / w^2
        lhs = tf * win * (-(w**2)) / GRAV
        bound = 1e-7 * (seps + np.abs(tf) * w**2 / GRAV * sin)
        bad = nz & ~pole & ~(np.abs(lhs - eps) <= bound)
        want[nz] = -GRAV * eps[nz] / w[nz] ** 2 / win[nz]
    assert not bad.any(), ("strain", f[bad][0], tf[bad][0], want[bad][0])

    lay = p["layers"][io]
    rho, G = wave.comp_mod(p["soils"][lay["s"]]["uw"], lay["vs"], gen.layer_damping_min(p, lay))
    g0 = rho * lay["vs"] ** 2
    und = calc.calc_stress_tf(lin, lout, False)
    dam = calc.calc_stress_tf(lin, lout, True)
    again = calc.calc_strain_tf(lin, lout)
    assert np.array_equal(tf, again, equal_nan=True), "strain tf changed by stress tf"
    fin = np.isfinite(tf)
    assert np.allclose(und[fin], tf[fin] * g0, rtol=1e-9), ("undamped stress", und, tf * g0)
    assert np.allclose(dam[fin], tf[fin] * G, rtol=1e-9), ("damped stress", dam, tf * G)

    # surface strain vanishes
    surf = ps.site.Location(0, prof[0], "within", 0)
    s0 = calc.calc_strain_tf(lin, surf)
    amp = np.abs(np.where(nz, w, 1)) / p["layers"][0]["vs"]
    with np.errstate(all="ignore"):
        ok = ~nz | pole | (np.abs(s0) <= 1e-9 * GRAV * amp / np.where(nz, w, 1) ** 2 / np.abs(win))
    assert np.all(ok), ("surface strain", s0)
    t.nt(len(p["layers"]) > 2 and (io > 0 or zo > 0) and nz.any())
    t.label("in " + case["li"]["wf"])


@st.composite
def cont_case(draw):
    return {
        "p": draw(gen.profiles(max_layers=6, dmin=0.0, hs_thick=False)),
        "f": draw(gen.freq_vectors(fmin=0.05, fmax=10.0, max_size=4, zero=False)),
        "li": draw(gen.locations()),
    }


def fn_cont(case, t):
    """Continuity across interfaces and equilibrium with the column above."""
    p = case["p"]
    prof = gen.build_profile(ps, p)
    f = np.array(case["f"])
    calc = ps.propagation.LinearElasticCalculator()
    calc(ps.motion.Motion(f), prof, prof.location("outcrop", index=-1))
    lin = gen.make_location(ps, prof, p, case["li"])
    ref = wave.from_case(p, 2 * np.pi * f)
    ii, zi = gen.resolve(case["li"], p)
    win, sin = ref.field(ii, zi, case["li"]["wf"])
    if np.any(np.abs(win) < 1e-4 * sin) or ref.max_growth() > 50:
        t.reject("input near a node")
    nodes, weights = np.polynomial.legendre.leggauss(8)
    acc = np.zeros(len(f), dtype=complex)
    mag = np.zeros(len(f))
    for k, la in enumerate(p["layers"][:-1]):
        uw = p["soils"][la["s"]]["uw"]
        # composite quadrature: at most a quarter wavelength per panel
        n = max(1, int(np.ceil(la["h"] * 4 * f.max() / la["vs"])))
        dz = la["h"] / n
        for m in range(n):
            for x, wt in zip(nodes, weights):
                z = (m + 0.5 * (x + 1)) * dz
                tf = calc.calc_accel_tf(lin, ps.site.Location(k, prof[k], "within", z))
                acc += 0.5 * dz * wt * uw * tf
                mag += 0.5 * dz * wt * uw * np.abs(tf)
        base = calc.calc_stress_tf(lin, ps.site.Location(k, prof[k], "within", la["h"]), True)
        top = calc.calc_stress_tf(lin, ps.site.Location(k + 1, prof[k + 1], "within", 0), True)
        tol = 1e-6 * mag + 1e-12
        assert np.all(np.abs(base - top) <= tol), ("discontinuous stress", k, base, top)
        assert np.all(np.abs(base - acc) <= tol), ("equilibrium", k, base, acc)
    t.nt(len(p["layers"]) > 2)


@st.composite
def large_case(draw):
    return {
        "big": draw(gen.big_profiles()),
        "nf": draw(st.integers(20, 2500)),
        "fmax": draw(gen.logf(5.0, 60.0)),
        "li": draw(gen.locations()),
        "lo": draw(gen.locations(wave_fields=("within",))),
    }


def fn_large(case, t):
    """Many layers and many frequencies."""
    f = np.linspace(0, case["fmax"], case["nf"])
    fn(dict(p=gen.expand_profile(case["big"]), f=f.tolist(), li=case["li"], lo=case["lo"]), t)
    t.label("more than 64 layers", case["big"]["n"] > 64)
    t.label("more than 1024 frequencies", case["nf"] > 1024)


SUBS = [
    Sub("typical", lambda: case_(False), fn, 1000),
    Sub("extreme", lambda: case_(True), fn, 800),
    Sub("equilibrium", cont_case, fn_cont, 240, 4000),
    Sub("large", large_case, fn_large, 200),
]
