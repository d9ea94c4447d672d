"""C05: same results with and without numba.

A second copy of the package is imported in the same process with numba
blocked; both copies run every generated case.
"""

import importlib
import sys

import numpy as np
from hypothesis import strategies as st

import pystrata as ps

from .. import gen
from ..core import Sub
from .c02 import CALCS, make_calc

RULE = (
    "random profile, motion, calculator and locations run through both copies; "
    "non-trivial = a nonlinear or multi-layer case with finite, non-constant response"
)
ASSUMPTIONS = [
    "numba is blocked only for pystrata; its dependencies keep their own copy",
    "agreement to 1e-9 relative to the amplitude of the waves involved (1e-6 after iterations)",
]


def load_without_numba():
    saved = {k: m for k, m in sys.modules.items() if k == "pystrata" or k.startswith("pystrata.")}
    had = sys.modules.get("numba")
    for k in saved:
        del sys.modules[k]
    sys.modules["numba"] = None
    try:
        mod = importlib.import_module("pystrata")
        for sub in ("propagation", "site", "motion", "output", "tools", "variation", "generic"):
            importlib.import_module("pystrata." + sub)
        return mod
    finally:
        for k in [k for k in sys.modules if k == "pystrata" or k.startswith("pystrata.")]:
            del sys.modules[k]
        sys.modules.update(saved)
        if had is not None:
            sys.modules["numba"] = had
        else:
            del sys.modules["numba"]


IMPORT_ERROR = None
try:
    PS2 = load_without_numba()
except Exception as e:  # reported as a violation by every case
    PS2, IMPORT_ERROR = None, e


def warmup():
    run(
        ps,
        {
            "calc": "EQL",
            "p": {
                "soils": [{"n": "a", "uw": 18.0, "mr": None, "d": 0.02}, {"n": "b", "uw": 22.0, "mr": None, "d": 0.01}],
                "layers": [{"s": 0, "h": 10.0, "vs": 200.0, "dm": None}, {"s": 1, "h": 0, "vs": 800.0, "dm": None}],
                "wt": 0.0,
            },
            "m": {"kind": "ts", "n": 32, "dt": 0.01, "seed": 1, "f0": 2.0, "pga": 0.1, "fa": None},
            "lin": {"li": 1.0, "z": 0.0, "wf": "outcrop"},
            "locs": [{"li": 0.0, "z": 0.0, "wf": "within"}],
        },
    )


def run(ps, case):
    p = case["p"]
    prof = gen.build_profile(ps, p)
    mot = gen.build_motion(ps, case["m"])
    out = {}
    lin = gen.make_location(ps, prof, p, case["lin"])
    calc = make_calc(ps, case["calc"])
    try:
        calc(mot, prof, lin)
    except RuntimeError as e:
        return {"error": str(e)}
    for i, x in enumerate(case["locs"]):
        loc = gen.make_location(ps, prof, p, x)
        out[f"wave{i}"] = calc.wave_at_location(loc)
        out[f"atf{i}"] = calc.calc_accel_tf(lin, loc)
        if x["wf"] == "within":
            out[f"etf{i}"] = calc.calc_strain_tf(lin, loc)
            out[f"stf{i}"] = calc.calc_stress_tf(lin, loc, True)
    out["strain"] = np.array([np.max(la.strain) for la in prof])
    out["mod"] = np.array([np.min(la.shear_mod) for la in prof])
    out["damp"] = np.array([np.max(la.damping) for la in prof])
    return out


@st.composite
def case_(draw):
    calc = draw(st.sampled_from(["LE"] * 3 + CALCS))
    return {
        "calc": calc,
        "p": draw(
            gen.profiles(
                nonlinear="no" if calc == "LE" else "mixed",
                max_layers=6,
                dmin=0.0 if calc == "LE" else 0.005,
            )
        ),
        "m": {"kind": "freqs", "f": draw(gen.freq_vectors())}
        if calc == "LE"
        else draw(gen.ts_motions(nmin=32, nmax=128, pga=(0.001, 0.3))),
        "lin": draw(gen.locations(wave_fields=("outcrop", "incoming_only", "within")))
        if calc == "LE"
        else {"li": 1.0, "z": 0.0, "wf": draw(st.sampled_from(["outcrop", "incoming_only", "within"]))},
        "locs": draw(st.lists(gen.locations(), min_size=1, max_size=3)),
    }


def fn(case, t):
    if PS2 is None:
        raise AssertionError(f"import without numba fails: {IMPORT_ERROR!r}")
    a, b = run(ps, case), run(PS2, case)
    assert a.keys() == b.keys(), (a.get("error"), b.get("error"))
    if "error" in a:
        t.label("strain limit in both")
        return
    tol = 1e-9 if case["calc"] == "LE" else 1e-6
    for k in a:
        x, y = np.asarray(a[k]), np.asarray(b[k])
        assert x.shape == y.shape, (k, x.shape, y.shape)
        fin = np.isfinite(x) & np.isfinite(y) & (np.abs(x) < 1e140)
        assert np.array_equal(np.isnan(x), np.isnan(y)) or case["calc"] == "LE", k
        scale = np.abs(x) + np.abs(y)
        if x.ndim and x.size and k[:3] in ("atf", "etf", "stf", "wav"):
            # cancellation near nodes: compare with the typical amplitude too
            scale = scale + 1e-3 * np.median(scale[fin]) if fin.any() else scale
        bad = fin & (np.abs(x - y) > tol * scale + 1e-300)
        if bad.any():
            j = int(np.argmax(bad))
            raise AssertionError(f"{k}[{j}]: with numba {x[j]!r}, without {y[j]!r}")
    t.nt(len(case["p"]["layers"]) > 2 or case["calc"] != "LE")
    t.label(case["calc"])


@st.composite
def large_case(draw):
    """Many layers and frequencies."""
    calc = draw(st.sampled_from(["LE"] * 3 + CALCS))
    case = {"calc": calc, "lin": {"li": 1.0, "z": 0.0, "wf": draw(st.sampled_from(["outcrop", "incoming_only", "within"]))}}
    case["locs"] = draw(st.lists(gen.locations(), min_size=1, max_size=2))
    if calc == "LE":
        case["big"] = draw(gen.big_profiles(nmax=100))
        case["nf"] = draw(st.integers(20, 1500))
    else:
        case["big"] = draw(gen.big_profiles(nmax=20, nonlinear="mixed", depth=(10.0, 120.0)))
        case["m"] = draw(gen.ts_motions(nmin=128, nmax=512, pga=(0.001, 0.3)))
    return case


def fn_large(case, t):
    case = dict(case, p=gen.expand_profile(case["big"]))
    if case["calc"] == "LE":
        case["m"] = {"kind": "freqs", "f": np.linspace(0, 40.0, case["nf"]).tolist()}
    fn(case, t)


# ---- quarter-wavelength
@st.composite
def qwl_case(draw):
    return {
        "p": draw(gen.profiles(max_layers=8)),
        "f": draw(gen.freq_vectors(fmin=0.05, zero=False)),
        "kappa": draw(st.none() | gen.fl(0.001, 0.08)),
        "method": draw(st.sampled_from(["standard", "standard", "ba23"])),
        "trapz": draw(gen.logf(0.01, 500.0)),
    }


def run_qwl(ps, case):
    prof = gen.build_profile(ps, case["p"])
    calc = ps.propagation.QuarterWaveLenCalculator(case["kappa"], case["method"])
    try:
        calc(ps.motion.Motion(np.array(case["f"])), prof, prof.location("outcrop", index=-1))
    except RuntimeError as e:
        return {"error": str(e)}
    th, sl = prof.thickness.astype(float), prof.slowness
    return {
        "amp": calc.crustal_amp,
        "site": calc.site_term,
        "trapz": np.array(ps.propagation.my_trapz(th, sl, case["trapz"])),
    }


def fn_qwl(case, t):
    if PS2 is None:
        raise AssertionError(f"import without numba fails: {IMPORT_ERROR!r}")
    a, b = run_qwl(ps, case), run_qwl(PS2, case)
    assert a.keys() == b.keys(), (a, b)
    if "error" in a:
        return
    for k in a:
        gen.close(a[k], b[k], rtol=1e-9, what=k)
    t.nt(len(case["p"]["layers"]) > 2)


# ---- the kernels themselves, on raw arrays
@st.composite
def kern_case(draw):
    n = draw(st.integers(1, 6))
    return {
        "f": draw(gen.freq_vectors(fmin=1e-6)),
        "vs": draw(st.lists(gen.logf(50.0, 4000.0), min_size=n, max_size=n)),
        "rho": draw(st.lists(gen.fl(1.2, 2.8, 3), min_size=n, max_size=n)),
        "d": draw(st.lists(gen.fl(0.0, 0.3, 3), min_size=n, max_size=n)),
        "h": draw(st.lists(gen.logf(0.1, 50.0), min_size=n, max_size=n)),
        "vary": draw(gen.fl(0.0, 0.5, 3)),
        "wf": draw(st.sampled_from(["within", "outcrop", "incoming_only"])),
    }


def fn_kern(case, t):
    """Frequency-dependent properties in every layer."""
    if PS2 is None:
        raise AssertionError(f"import without numba fails: {IMPORT_ERROR!r}")
    outs = []
    f = np.array(case["f"])
    for mod in (ps, PS2):
        layers = []
        for i, h in enumerate(case["h"]):
            mr = mod.site.ModulusReductionCurve("c", [1e-5, 1e-2], [1.0, 1.0 - case["vary"]])
            dc = mod.site.DampingCurve("c", [1e-5, 1e-2], [case["d"][i], case["d"][i] + 0.1])
            st_ = mod.site.SoilType("s", case["rho"][i] * 9.80665, mr, dc)
            layers.append(mod.site.Layer(st_, h, case["vs"][i]))
        prof = mod.site.Profile(layers)
        # vector-valued properties as left by a frequency-dependent analysis
        calc = mod.propagation.LinearElasticCalculator()
        for la in layers:
            la.reset()
            la.strain = np.geomspace(1e-2, 1e-5, len(f))
        calc(mod.motion.Motion(f), prof, prof.location("outcrop", index=-1), reset_layers=False)
        locs = [mod.site.Location(i, la, "within", 0.3 * la.thickness) for i, la in enumerate(layers)]
        lin = mod.site.Location(len(layers) - 1, layers[-1], case["wf"], 0.2 * layers[-1].thickness)
        outs.append([calc.wave_at_location(loc) for loc in locs] + [calc.calc_strain_tf(lin, loc) for loc in locs])
        amp = max(float(np.max(np.abs(w)[np.isfinite(w)], initial=1.0)) for w in outs[-1][: len(locs)])
        ref = np.abs(calc.wave_at_location(lin))
    with np.errstate(all="ignore"):
        # strains are differences of nearly equal waves at low frequencies
        canc = 1e-13 * 9.81 * amp / (2 * np.pi * f * min(case["vs"]) * ref)
    for k, (x, y) in enumerate(zip(*outs)):
        sc = np.abs(x) + np.abs(y)
        fin = np.isfinite(x) & np.isfinite(y)
        lim = 1e-8 * sc + 1e-6 * np.median(sc[fin])
        if k >= len(case["h"]):
            lim = lim + np.where(np.isfinite(canc), canc, 0)
        assert np.all((np.abs(x - y) <= lim)[fin]), (k, x, y)
    t.nt(len(case["h"]) > 1)


SUBS = [
    Sub("calculators", case_, fn, 900),
    Sub("large", large_case, fn_large, 60),
    Sub("quarter-wavelength", qwl_case, fn_qwl, 600),
    Sub("kernels", kern_case, fn_kern, 600),
]
