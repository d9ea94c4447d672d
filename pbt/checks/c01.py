"""C01: accel transfer functions solve the layered 1-D shear-wave equation."""

import numpy as np
from hypothesis import strategies as st

import pystrata as ps

from .. import gen, wave
from ..core import Sub

RULE = (
    "random profiles (1-10 layers, velocities 50-4000 m/s incl. inversions, damping 0-49%), "
    "frequency vectors, and pairs of locations; non-trivial = at least 2 layers above the half-space, "
    "different locations, and a transfer function differing from 1 by more than 1%"
)
ASSUMPTIONS = [
    "double precision; tolerance 1e-7 relative to up- plus down-going amplitude",
    "total attenuation exponent below 300 so that exponentials do not overflow",
]
TOL = 1e-7


def tf_matches(tf, ref, p, li, lo, what=""):
    ii, zi = gen.resolve(li, p)
    io, zo = gen.resolve(lo, p)
    win, sin = ref.field(ii, zi, li["wf"])
    wout, sout = ref.field(io, zo, lo["wf"])
    assert tf.shape == win.shape, (tf.shape, win.shape)
    with np.errstate(all="ignore"):
        # a vanishing input field is a true pole of the transfer function
        pole = np.abs(win) < 1e-6 * sin
        err = np.abs(tf * win - wout)
        bound = TOL * (sout + np.abs(tf) * sin)
        bad = ~(err <= bound) & ~pole
    if np.any(bad):
        j = int(np.argmax(bad))
        raise AssertionError(
            f"{what} omega={ref.omega[j]}: tf={tf[j]} expected {wout[j] / win[j]}"
        )
    return np.abs(tf - 1)


@st.composite
def case_(draw, hard=False):
    p = draw(
        gen.profiles(
            max_layers=10 if hard else 6,
            dmax=0.49 if hard else 0.15,
            vmin=50.0 if hard else 100.0,
            vmax=4000.0,
            hmin=0.05 if hard else 0.5,
            hmax=200.0 if hard else 60.0,
        )
    )
    if draw(st.integers(0, 4)) == 0:
        # layers of a few millimetres
        for la in p["layers"][:-1]:
            if draw(st.booleans()):
                la["h"] = draw(gen.logf(0.002, 0.1))
    return {
        "p": p,
        "f": draw(gen.freq_vectors(fmin=0.01, fmax=100.0)),
        "locs": draw(st.lists(st.tuples(gen.locations(), gen.locations()).map(list), min_size=1, max_size=3)),
    }


def fn(case, t):
    p = case["p"]
    prof = gen.build_profile(ps, p)
    mot = ps.motion.Motion(np.array(case["f"]))
    ref = wave.from_case(p, 2 * np.pi * np.array(case["f"]))
    if ref.max_growth() > 300:
        t.label("skipped: overflow regime")
        return
    calc = ps.propagation.LinearElasticCalculator()
    calc(mot, prof, prof.location("outcrop", index=-1))
    for li, lo in case["locs"]:
        tf = calc.calc_accel_tf(
            gen.make_location(ps, prof, p, li), gen.make_location(ps, prof, p, lo)
        )
        dev = tf_matches(tf, ref, p, li, lo)
        t.nt(len(p["layers"]) > 2 and np.any(dev > 0.01))
        t.label(f"in:{li['wf']} out:{lo['wf']}")


@st.composite
def depth_case(draw):
    p = draw(gen.profiles(max_layers=6, hs_thick=False))
    fr = st.floats(0, 1.25, width=32)
    return {
        "p": p,
        "f": draw(gen.freq_vectors(fmax=50.0, zero=False)),
        "din": draw(fr | st.integers(0, len(p["layers"]) - 1)),
        "dout": draw(fr | st.integers(0, len(p["layers"]) - 1)),
        "wfi": draw(st.sampled_from(["outcrop", "within", "incoming_only"])),
        "wfo": draw(st.sampled_from(["outcrop", "within", "incoming_only"])),
    }


def fn_depth(case, t):
    """Locations addressed by physical depth, incl. exactly at interfaces."""
    p = case["p"]
    tops = gen.depth_tops(p)
    prof = gen.build_profile(ps, p)
    mot = ps.motion.Motion(np.array(case["f"]))
    ref = wave.from_case(p, 2 * np.pi * np.array(case["f"]))
    if ref.max_growth() > 300:
        return

    def where(d):
        depth = tops[d] if isinstance(d, int) else d * tops[-1]
        i = max(k for k, top in enumerate(tops) if top <= depth)
        return depth, i, depth - tops[i]

    calc = ps.propagation.LinearElasticCalculator()
    calc(mot, prof, prof.location("outcrop", index=-1))
    di, ii, zi = where(case["din"])
    do, io, zo = where(case["dout"])
    win, sin = ref.field(ii, zi, case["wfi"])
    wout, sout = ref.field(io, zo, case["wfo"])
    tf = calc.calc_accel_tf(
        prof.location(case["wfi"], depth=di), prof.location(case["wfo"], depth=do)
    )
    pole = np.abs(win) < 1e-6 * sin
    err = np.abs(tf * win - wout)
    bound = 1e-6 * (sout + np.abs(tf) * sin)
    ok = (err <= bound) | pole
    assert np.all(ok), (tf, wout / win)
    t.nt(len(p["layers"]) > 2 and ii != io)
    t.label("interface depth", isinstance(case["din"], int) or isinstance(case["dout"], int))


@st.composite
def large_case(draw):
    return {
        "big": draw(gen.big_profiles()),
        "nf": draw(st.integers(20, 2500)),
        "fmax": draw(gen.logf(5.0, 100.0)),
        "log": draw(st.booleans()),
        "locs": draw(st.lists(st.tuples(gen.locations(), gen.locations()).map(list), min_size=1, max_size=3)),
    }


def fn_large(case, t):
    """Many layers and many frequencies."""
    p = gen.expand_profile(case["big"])
    n = case["nf"]
    f = np.geomspace(0.01, case["fmax"], n) if case["log"] else np.linspace(0, case["fmax"], n)
    fn(dict(p=p, f=f.tolist(), locs=case["locs"]), t)
    t.label("more than 64 layers", len(p["layers"]) > 65)
    t.label("more than 1024 frequencies", n > 1024)


SUBS = [
    Sub("typical", lambda: case_(False), fn, 1500),
    Sub("extreme", lambda: case_(True), fn, 1500),
    Sub("by-depth", depth_case, fn_depth, 900),
    Sub("large", large_case, fn_large, 240),
]


def warmup():
    p = {
        "soils": [{"n": "a", "uw": 18.0, "mr": None, "d": 0.02}],
        "layers": [{"s": 0, "h": 5.0, "vs": 200.0, "dm": None}, {"s": 0, "h": 0, "vs": 500.0, "dm": None}],
        "wt": 0.0,
    }
    prof = gen.build_profile(ps, p)
    calc = ps.propagation.LinearElasticCalculator()
    calc(ps.motion.Motion(np.array([1.0, 2.0])), prof, prof.location("outcrop", index=-1))
    lo = prof.location("outcrop", index=-1)
    calc.calc_accel_tf(lo, prof.location("within", depth=1.0))
    calc.calc_strain_tf(lo, prof.location("within", depth=1.0))
