"""C14: empirical soil models."""

import math

import numpy as np
from hypothesis import strategies as st

import pystrata as ps

from .. import gen, ref
from ..core import Sub

RULE = (
    "random index properties, stresses, strain grids (default or supplied, array or list), supplied or modelled minimum "
    "damping, every model, every Wang soil group with random subsets of the index properties; non-trivial = non-default "
    "inputs with both curves finite and physical"
)
ASSUMPTIONS = [
    "coefficients transcribed from the pinned commit and cited equations; the papers are not available offline",
    "Wang and Stokoe: fines content, plasticity index and water content are given in percent, and inputs for which the "
    "published expressions are not finite or exceed the large-strain damping are outside the model",
]

ATM = 101.325  # kPa


def warmup():
    pass


def opt(s):
    return st.none() | s


STRESS = gen.logf(5.0, 3000.0, 4)


@st.composite
def grid(draw):
    n = draw(st.integers(2, 14))
    lo = draw(gen.logf(1e-6, 1e-4, 3))
    hi = draw(gen.logf(1e-3, 5e-2, 3))
    return [float(v) for v in np.geomspace(lo, hi, n)]


COMMON = {
    "uw": gen.fl(12.0, 24.0, 4),
    "name": st.sampled_from(["", "clay A"]),
    "x": opt(grid()),
    "list": st.booleans(),
}


def strains_kw(case):
    if case["x"] is None:
        return np.logspace(-6, -1.5, 20), {}
    return np.array(case["x"]), {"strains": case["x"] if case["list"] else np.array(case["x"])}


def check(soil, case, x, mr, d, dmin, masing=True):
    assert soil.unit_wt == case["uw"]
    gen.close(soil.density, case["uw"] / gen.GRAV, rtol=1e-12, what="density")
    if case["name"]:
        assert soil.name == case["name"]
    assert soil.is_nonlinear
    for c in (soil.mod_reduc, soil.damping):
        gen.close(np.asarray(c.strains, dtype=float), x, rtol=1e-12, what="strains")
    gen.close(np.asarray(soil.mod_reduc.values), mr, rtol=1e-8, what="modulus reduction")
    gen.close(np.asarray(soil.damping.values), d, rtol=1e-8, atol=1e-7, what="damping")
    # Physical form
    v = np.asarray(soil.mod_reduc.values)
    assert np.all(v > 0) and np.all(v <= 1 + 1e-12) and np.all(np.diff(v) < 0), "modulus reduction decreases in (0, 1]"
    w = np.asarray(soil.damping.values)
    assert np.all(w >= dmin * (1 - 1e-9) - 1e-7), "damping below small-strain damping"
    gen.close(soil.damping_min, w[0], rtol=1e-12, what="damping_min is that at the first strain")
    # Evaluated curves
    q = np.sqrt(x[:-1] * x[1:])
    gen.close(soil.mod_reduc(q), ref.curve(x, mr, ref.MR_LIMITS, q), rtol=1e-8, what="evaluated modulus reduction")
    gen.close(soil.damping(q), ref.curve(x, d, ref.D_LIMITS, q), rtol=1e-8, atol=1e-7, what="evaluated damping")


# ------------------------------------------------------- modified hyperbolic
def hyperbolic(x, xref, a, scale, dmin):
    mr, d = [], []
    best = -math.inf
    for s in x:
        g = 1 / (1 + (s / xref) ** a)
        u = s / xref
        # Masing damping of the hyperbolic model [%]
        m1 = 100 / math.pi * (4 * (u - math.log1p(u)) * (1 + u) / u**2 - 2)
        c1 = 0.2523 + 1.8618 * a - 1.1143 * a * a
        c2 = -0.0095 - 0.0710 * a + 0.0805 * a * a
        c3 = 0.0003 + 0.0002 * a - 0.0005 * a * a
        m = m1 * (c1 + m1 * (c2 + m1 * c3))
        best = max(best, scale * g**0.1 * m / 100)
        mr.append(g)
        d.append(best + dmin)
    return np.array(mr), np.array(d)


DAR = st.fixed_dictionaries(
    dict(
        COMMON,
        pi=opt(gen.fl(0, 120, 4)),
        ocr=opt(gen.fl(1, 20, 4)),
        s=opt(STRESS),
        f=opt(gen.logf(0.1, 100, 4)),
        n=opt(gen.logf(1, 100, 4)),
        dm=opt(gen.fl(0.0, 0.08, 4)),
    )
)


def kw(**k):
    return {a: b for a, b in k.items() if b is not None}


def dflt(v, d):
    return d if v is None else v


def darendeli_ref(case):
    pi, ocr, s = dflt(case["pi"], 0), dflt(case["ocr"], 1), dflt(case["s"], 101.3) / ATM
    f, n = dflt(case["f"], 1), dflt(case["n"], 10)
    dmin = (0.8005 + 0.0129 * pi * ocr**-0.1069) * s**-0.2889 * (1 + 0.2919 * math.log(f)) / 100
    xref = (0.0352 + 0.0010 * pi * ocr**0.3246) * s**0.3483 / 100
    return xref, 0.9190, 0.6329 - 0.0057 * math.log(n) + (0.0057 - 0.00566) * math.log(n), dmin


def fn_darendeli(case, t):
    x, k = strains_kw(case)
    soil = ps.site.DarendeliSoilType(
        case["uw"], case["name"],
        **kw(plas_index=case["pi"], ocr=case["ocr"], stress_mean=case["s"], freq=case["f"], num_cycles=case["n"], damping_min=case["dm"]), **k,
    )
    xref, a, scale, dmin = darendeli_ref(case)
    dmin = dflt(case["dm"], dmin)
    gen.close(soil.strain_ref, xref, rtol=1e-10, what="reference strain")
    gen.close(soil.curvature, a, rtol=1e-10, what="curvature")
    gen.close(soil.masing_scaling, scale, rtol=1e-10, what="masing scaling")
    check(soil, case, x, *hyperbolic(x, xref, a, scale, dmin), dmin)
    t.nt(case["s"] is not None and case["pi"] is not None)
    t.label("given minimum damping", case["dm"] is not None)


DAR_F = st.fixed_dictionaries(
    {
        "pi": gen.fl(0, 120, 4),
        "ocr": gen.fl(1, 20, 4),
        "s": STRESS,
        "f": st.lists(gen.logf(0.1, 100, 4), min_size=1, max_size=6),
        "dm": opt(gen.fl(0.0, 0.08, 4)),
        "at": gen.logf(1e-7, 0.1, 4),
    }
)


def fn_darendeli_freqs(case, t):
    """Several frequencies: one damping column each, as for each one alone."""
    args = dict(plas_index=case["pi"], ocr=case["ocr"], stress_mean=case["s"], **kw(damping_min=case["dm"]))
    soil = ps.site.DarendeliSoilType(18.0, freq=np.array(case["f"]), **args)
    if case["dm"] is not None:
        # The given value replaces the only frequency-dependent term
        soils = [ps.site.DarendeliSoilType(18.0, freq=f, **args) for f in case["f"]]
        for s in soils:
            gen.close(soil.damping.values, s.damping.values, rtol=1e-12, what="damping")
        return
    for j, f in enumerate(case["f"]):
        s = ps.site.DarendeliSoilType(18.0, freq=f, **args)
        gen.close(soil.damping.values[:, j], s.damping.values, rtol=1e-12, what="damping column")
        gen.close(soil.mod_reduc.values, s.mod_reduc.values, rtol=1e-12, what="modulus reduction")
        gen.close(np.atleast_1d(soil.damping(case["at"]))[j], s.damping(case["at"]), rtol=1e-9, what="damping at a strain")
        gen.close(np.atleast_1d(soil.damping_min)[j], s.damping_min, rtol=1e-12, what="minimum damping")
    t.nt(len(set(case["f"])) > 1)


MENQ = st.fixed_dictionaries(
    dict(
        COMMON,
        cu=opt(gen.logf(1.1, 60, 4)),
        d50=opt(gen.logf(0.1, 50, 4)),
        s=opt(STRESS),
        n=opt(gen.logf(1, 100, 4)),
        dm=opt(gen.fl(0.0, 0.08, 4)),
    )
)


def fn_menq(case, t):
    x, k = strains_kw(case)
    soil = ps.site.MenqSoilType(
        case["name"], case["uw"],
        **kw(coef_unif=case["cu"], diam_mean=case["d50"], stress_mean=case["s"], num_cycles=case["n"], damping_min=case["dm"]), **k,
    )
    cu, d50, s, n = dflt(case["cu"], 10), dflt(case["d50"], 5), dflt(case["s"], 101.3) / ATM, dflt(case["n"], 10)
    dmin = dflt(case["dm"], 0.55 * cu**0.1 * d50**-0.3 * s**-0.08 / 100)
    xref = 0.12 * cu**-0.6 * s ** (0.5 * cu**-0.15) / 100
    a = 0.86 + 0.1 * math.log10(s)
    scale = 0.6329 - 0.00566 * math.log(n)
    gen.close(soil.strain_ref, xref, rtol=1e-10, what="reference strain")
    gen.close(soil.curvature, a, rtol=1e-10, what="curvature")
    gen.close(soil.masing_scaling, scale, rtol=1e-10, what="masing scaling")
    check(soil, case, x, *hyperbolic(x, xref, a, scale, dmin), dmin)
    t.nt(case["s"] is not None and case["cu"] is not None)
    t.label("given minimum damping", case["dm"] is not None)


ROLLINS = st.fixed_dictionaries(
    dict(
        COMMON,
        cu=opt(gen.logf(1.1, 100, 4)),
        s=opt(STRESS),
        n=opt(gen.logf(1, 100, 4)),
        dm=opt(gen.fl(0.0, 0.08, 4)),
    )
)


def fn_rollins(case, t):
    x, k = strains_kw(case)
    soil = ps.site.RollinsEtAlSoilType(
        case["uw"], case["name"],
        **kw(coef_unif=case["cu"], stress_mean=case["s"], num_cycles=case["n"], damping_min=case["dm"]), **k,
    )
    s, n = dflt(case["s"], 101.3), dflt(case["n"], 10)
    if case["cu"] is None:
        xref = 0.0039e-2 * s**0.42
    else:
        xref = 0.0046e-2 * case["cu"] ** -0.197 * s**0.52
    dmin = dflt(case["dm"], 0.01)
    scale = 0.53 - 0.0057 * math.log(n)
    gen.close(soil.strain_ref, xref, rtol=1e-10, what="reference strain")
    check(soil, case, x, *hyperbolic(x, xref, 0.84, scale, dmin), dmin)
    t.nt(case["s"] is not None)
    t.label("Cu given", case["cu"] is not None)


# ------------------------------------------------------- two parameter
TWO = st.fixed_dictionaries(
    dict(
        COMMON,
        s=opt(STRESS),
        coeffs=opt(
            st.fixed_dictionaries(
                {
                    "a": gen.fl(0.7, 1.4, 4), "b1": gen.fl(0.3, 1.2, 4), "b2": gen.fl(-0.008, 0.01, 3),
                    "g1": gen.fl(0.005, 0.1, 4), "g2": gen.fl(0.1, 0.6, 4), "d0": gen.fl(0.3, 3.0, 4),
                    "d1": gen.fl(-0.4, 0.0, 4), "d": gen.fl(11, 25, 4), "c": gen.fl(0.8, 1.4, 4),
                    "gd1": gen.fl(0.02, 0.3, 4), "gd2": gen.fl(0.1, 0.5, 4),
                }
            )
        ),
    )
)
TWO_DEFAULT = {
    "a": 1.04, "b1": 0.438, "b2": -0.007, "g1": 0.011, "g2": 0.318, "d0": 1.47, "d1": -0.2, "d": 13.125, "c": 1.187,
    "gd1": 0.11, "gd2": 0.23,
}


def fn_two(case, t):
    x, k = strains_kw(case)
    co = case["coeffs"]
    if co is not None:
        k["coeffs"] = ps.site.TwoParamModifiedHyperbolicCoeffs(**co)
    soil = ps.site.TwoParamModifiedHyperbolicSoilType(case["name"], case["uw"], **kw(stress_mean=case["s"]), **k)
    c = co or TWO_DEFAULT
    s = dflt(case["s"], 101.3) / ATM
    mr = (1 + (100 * x / (c["g1"] * s ** c["g2"])) ** c["a"]) ** -(c["b1"] + c["b2"] * s)
    dmin = c["d0"] * s ** c["d1"] / 100
    u = (100 * x / (c["gd1"] * s ** c["gd2"])) ** c["c"]
    d = dmin + (c["d"] / 100 - dmin) * u / (1 + u)
    check(soil, case, x, mr, d, dmin)
    t.nt(case["s"] is not None)
    t.label("coefficients given", co is not None)


# ------------------------------------------------------- Wang and Stokoe
# s: mean stress/atm, e: void ratio, fc, w, pi: decimal fractions
WANG = {
    "clean_sand_and_gravel": {
        "gmax": (
            ["stress_mean", "void_ratio", "diam_50", "coef_unif", "fines_cont"],
            [
                lambda p: 108.4 * p.s**0.51,
                lambda p: 67.5 * p.e**-0.86 * p.s**0.5,
                lambda p: 66.5 * p.e ** (-0.75 - (0.009 * p.d50) ** 1.58) * p.s**0.51,
                lambda p: 64.3 * p.cu**-0.21 * p.e ** (-1.08 - (0.09 * p.d50) ** 0.51) * p.s ** (0.47 * p.cu**0.06),
                lambda p: 63.9 * p.cu**-0.21 * p.e ** (-1.12 - (0.09 * p.d50) ** 0.54) * p.s ** (0.48 * p.cu**0.08 - 1.03 * p.fc),
            ],
        ),
        "mr": (
            ["stress_mean", "void_ratio", "coef_unif", "fines_cont"],
            [
                lambda p: (0.729, 0.985, 0.068 * p.s**0.4),
                lambda p: (0.804, 0.882, (0.13 * p.e**0.545 - 0.043) * p.s**0.45),
                lambda p: (0.834, 0.839, (0.05 * p.e ** (0.1 * p.cu) + 0.011) * p.s**0.45),
                lambda p: (0.834 + p.fc, 0.844 - 1.897 * p.fc, (0.048 * p.e ** (0.089 * p.cu) + 0.008) * p.s**0.4),
            ],
        ),
        "dmin": (
            ["stress_mean", "fines_cont", "water_cont", "void_ratio", "diam_50"],
            [
                lambda p: 0.77 * p.s**-0.03,
                lambda p: 0.55 * (1 + 29.03 * p.fc) * p.s**-0.13,
                lambda p: 0.64 * (0.26 - p.w) ** 0.11 * (1 + 32.8 * p.fc) * p.s**-0.12,
                lambda p: 0.55 * (1 - p.w) ** (-12.49 + 19.45 * p.e) * (1 + 23.44 * p.fc) * p.s**-0.14,
                lambda p: 0.6 * (0.99 + p.w) ** (7.45 - 15.23 * p.e + 4.29 * p.d50) * (1 + 21.17 * p.fc) * p.s**-0.14,
            ],
        ),
        "d": (
            ["stress_mean", "void_ratio", "fines_cont", "coef_unif"],
            [
                lambda p: (0.93, 15.64, 0.09 * p.s**0.32),
                lambda p: (1.08 * math.exp(0.62 - 0.73 * p.e), 16.39, 0.09 * p.s**0.39),
                lambda p: (1.02 * math.exp(0.56 - 0.72 * p.e), 21.17, 0.13 * (p.s + 17.94 * p.fc) ** (0.45 - p.fc)),
                lambda p: (0.93 * math.exp(0.34 - 0.8 * p.e), 18.13, 0.13 * p.cu**-0.31 * (p.s + 22.04 * p.fc) ** (0.47 - p.fc)),
            ],
        ),
    },
    "nonplastic_silty_sand": {
        "gmax": (
            ["stress_mean", "void_ratio", "water_cont"],
            [
                lambda p: 89.1 * p.s**0.51,
                lambda p: 59.2 * p.e**-0.74 * p.s**0.51,
                lambda p: 84.8 * p.e**-0.53 * (1 - 1.32 * p.w) * p.s**0.52,
            ],
        ),
        "mr": (
            ["stress_mean", "void_ratio", "fines_cont"],
            [
                lambda p: (1.04, 0.438 - 0.007 * p.s, 0.011 * p.s**0.318),
                lambda p: (1.139 * math.exp(0.093 * p.e), 0.475 - 0.007 * p.s, (0.029 * p.e - 0.003) * p.s**0.335),
                lambda p: (
                    (1.495 * p.e + 3.079 * p.fc) ** 0.121,
                    0.486 - 0.006 * p.s,
                    (0.031 * p.e - 0.003) * p.s ** (0.405 - 0.193 * p.fc),
                ),
            ],
        ),
        "dmin": (
            ["stress_mean", "void_ratio", "fines_cont"],
            [
                lambda p: 1.47 * p.s**-0.2,
                lambda p: 39.11 * (0.44 * p.e) ** (4.32 * p.e) * p.s**-0.19,
                lambda p: 52.16 * (0.41 * p.e) ** (0.81 * p.fc + 5.2 * p.e) * (1 + 5.35 * p.fc) * p.s**-0.19,
            ],
        ),
        "d": (
            ["stress_mean", "void_ratio", "fines_cont"],
            [
                lambda p: (1.187, 13.125, 0.045 * p.s**0.293),
                lambda p: (1.38 * math.exp(0.25 * p.e), 12.09, 0.0066 * (p.s + 5.79 * p.e) ** 1.01),
                lambda p: (1.39 * math.exp(0.27 * p.e), 12.13, 0.0025 * (p.s + 5.73 * p.e + 9.17 * p.fc) ** (1.47 - 0.52 * p.fc)),
            ],
        ),
    },
    "clayey_soil": {
        "gmax": (
            ["stress_mean", "void_ratio", "ocr", "fines_cont", "plas_index"],
            [
                lambda p: 77.2 * p.s**0.48,
                lambda p: 52.3 * p.e**-1.08 * p.s**0.4,
                lambda p: 18.9 * p.e**-0.97 * (4.5 + p.ocr) ** 0.54 * p.s**0.48,
                lambda p: 34.0 * p.e**-0.8 * (3.13 + p.ocr) ** 0.53 * (1 - 0.46 * p.fc) * p.s**0.51,
                lambda p: 232.9 * (1 + 0.96 * p.e) ** -2.42 * (1.92 + p.ocr) ** (0.27 + 0.46 * p.pi) * (1 - 0.44 * p.fc) * p.s**0.49,
            ],
        ),
        "mr": (
            ["stress_mean", "void_ratio", "fines_cont", "ocr", "plas_index"],
            [
                lambda p: (1.364, 0.28, 0.015 * p.s**0.205),
                lambda p: (1.185, 0.475, 0.035 * p.e * p.s**0.276),
                lambda p: (0.966 + 0.378 * p.fc, 0.596 - 0.207 * p.fc, (0.031 * p.e + 0.004 * p.fc) * p.s**0.25),
                lambda p: (0.972 + 0.419 * p.fc, 0.571 - 0.2 * p.fc, (0.025 * p.e + 0.0015 * p.fc) * (p.s + 0.375 * p.ocr) ** 0.358),
                lambda p: (
                    0.896 + 0.412 * p.fc + 0.534 * p.pi,
                    0.586 - 0.098 * p.e - 0.135 * p.fc,
                    (0.02 * p.e + 0.004 * p.fc) * (p.s + 0.42 * p.ocr) ** (0.447 - 0.27 * p.pi),
                ),
            ],
        ),
        "dmin": (
            ["stress_mean", "void_ratio", "plas_index", "fines_cont"],
            [
                lambda p: 2.55 * p.s**-0.11,
                lambda p: 7.62 * 13.48**-p.e * p.s**-0.29 + 0.72**-p.e,
                lambda p: 7.29 * 8 ** (-p.e - 3.31 * p.pi) * (1 + 148 * p.pi**1.95) * p.s**-0.2 + (0.5 * p.pi) ** (2.54 - 1.8 * p.e),
                lambda p: 4.86 * (1.99 + p.fc) ** (-1.91 * p.e - 6.5 * p.pi) * (1 + 106.75 * p.pi**1.64) * p.s**-0.19
                + (0.46 * p.pi) ** (1.73 - 1.34 * p.e),
            ],
        ),
        "d": (
            ["stress_mean", "water_cont", "plas_index", "fines_cont"],
            [
                lambda p: (1.12, 19.47, 0.11 * p.s**0.23),
                lambda p: (1.36, 15.16, 0.29 * (0.017 * p.s + p.w) ** (1.15 + p.w)),
                lambda p: (1.48 ** (0.53 + p.pi), 15.61, 0.07 * (0.06 * p.s + 2.69 * p.w) ** (1.06 + p.w - p.pi)),
                lambda p: (
                    (1.91 * p.fc) ** (1.62 * p.pi),
                    21.7,
                    0.11 * (0.12 * p.s + 5.29 * p.w - p.fc) ** (1.45 - p.pi + p.w - 1.09 * p.fc),
                ),
            ],
        ),
    },
}


class P:
    def __init__(self, k):
        self.s = k["stress_mean"] / ATM
        self.e = k.get("void_ratio")
        self.d50 = k.get("diam_50")
        self.cu = k.get("coef_unif")
        self.ocr = k.get("ocr")
        for a, b in (("fc", "fines_cont"), ("w", "water_cont"), ("pi", "plas_index")):
            setattr(self, a, k[b] / 100 if b in k else None)


RANGES = {
    "clean_sand_and_gravel": {
        "stress_mean": gen.logf(10, 1500, 4), "fines_cont": gen.fl(0, 12, 3), "coef_unif": gen.logf(1.1, 60, 3),
        "diam_50": gen.logf(0.1, 8, 3), "water_cont": gen.fl(0, 25, 3), "void_ratio": gen.fl(0.25, 1.1, 3),
    },
    "nonplastic_silty_sand": {
        "stress_mean": gen.logf(10, 1500, 4), "void_ratio": gen.fl(0.25, 1.5, 3), "fines_cont": gen.fl(12, 90, 3),
        "water_cont": gen.fl(2, 60, 3),
    },
    "clayey_soil": {
        "stress_mean": gen.logf(10, 1500, 4), "void_ratio": gen.fl(0.25, 2.5, 3), "plas_index": gen.fl(1, 80, 3),
        "fines_cont": gen.fl(12, 100, 3), "ocr": gen.fl(1, 12, 3), "water_cont": gen.fl(5, 90, 3),
    },
}


@st.composite
def wang_case(draw):
    group = draw(st.sampled_from(sorted(WANG)))
    pars = {k: draw(s) for k, s in RANGES[group].items()}
    # Properties given to the models: everything, the first few of one of the models, or a random subset.
    how = draw(st.sampled_from(["all", "prefix", "prefix", "subset"]))
    if how == "prefix":
        names = WANG[group][draw(st.sampled_from(["gmax", "mr", "dmin", "d"]))][0]
        keep = names[: draw(st.integers(1, len(names)))]
    elif how == "subset":
        keep = ["stress_mean"] + [k for k in sorted(pars) if draw(st.booleans())]
    else:
        keep = list(pars)
    case = {k: draw(s) for k, s in COMMON.items()}
    case.update(group=group, pars={k: pars[k] for k in pars if k in keep}, dm=draw(opt(gen.fl(0.0, 0.06, 4))))
    return case


def wang_eval(group, model, pars):
    names, eqs = WANG[group][model]
    level = -1
    for name in names:
        if name not in pars:
            break
        level += 1
    return level, eqs[level](P(pars))


def real(*v):
    return all(isinstance(x, (int, float)) and math.isfinite(x) for x in v)


def fn_wang(case, t):
    group, pars = case["group"], case["pars"]
    try:
        l0, gmax = wang_eval(group, "gmax", pars)
        l1, (a, b, g) = wang_eval(group, "mr", pars)
        l2, dmin = wang_eval(group, "dmin", pars)
        l3, (c, dmax, gd) = wang_eval(group, "d", pars)
    except (OverflowError, ZeroDivisionError):
        t.reject("not finite")
    if not real(gmax, a, b, g, dmin, c, dmax, gd) or min(a, b, g, c, gd, gmax) <= 1e-4 or not 0 < dmin < 0.8 * dmax:
        t.reject("outside the physical range of the equations")
    cls = ps.site.WangSoilType
    gen.close(cls.calc_shear_mod(group, **pars), gmax, rtol=1e-9, what="Gmax")
    gen.close(cls.calc_damping_min(group, **pars), dmin / 100, rtol=1e-9, what="Dmin")
    x, k = strains_kw(case)
    mr = (1 + (100 * x / g) ** a) ** -b
    dm = dmin / 100 if case["dm"] is None else case["dm"]
    u = (100 * x / gd) ** c
    d = (dmax / 100 * u + dm) / (1 + u)
    gen.close(cls.calc_mod_reduc(x, group, **pars), mr, rtol=1e-9, what="calc_mod_reduc")
    gen.close(cls.calc_damping(x, group, case["dm"], **pars), d, rtol=1e-9, what="calc_damping")
    for model, level in (("gmax_model", l0), ("ggmax_model", l1), ("dmin_model", l2), ("damping_model", l3)):
        assert cls.get_level(model, group, **pars) == level, "model level"
    if case["dm"] is not None:
        k["damping_min"] = case["dm"]
    if mr[0] == 1.0 or np.any(np.diff(mr) >= 0):
        t.reject("curve saturates")
    soil = cls(group, case["name"], case["uw"], **k, **pars)
    check(soil, case, x, mr, d, dm)
    assert soil.soil_group == group
    t.nt(len(pars) > 1)
    t.label(group)
    t.label(f"{group} levels mr{l1} d{l3} dmin{l2}", l1 > 0)


def fn_wang_refuse(case, t):
    """Stress is required, and an unknown group is refused."""
    pars = {k: v for k, v in case["pars"].items() if k != "stress_mean"}
    for group, p in ((case["group"], pars), ("peat", case["pars"])):
        try:
            ps.site.WangSoilType(group, **p)
        except (ValueError, KeyError):
            pass
        else:
            raise AssertionError(f"accepted {group} {p}")
    t.nt()


# ------------------------------------------------------- Alemu
ALEMU = st.fixed_dictionaries(
    dict(
        COMMON,
        pi=opt(gen.fl(0, 32, 4)),
        ocr=opt(gen.fl(1, 9.1, 3)),
        s=opt(gen.logf(10, 125, 4)),
        fc=opt(gen.fl(0.3, 1.0, 3)),
    )
)


def fn_alemu(case, t):
    x, k = strains_kw(case)
    soil = ps.site.AlemuEtAlSoilType(
        case["uw"], case["name"], **kw(plas_index=case["pi"], ocr=case["ocr"], stress_mean=case["s"], fines_cont=case["fc"]), **k
    )
    pi, ocr, s, fc = dflt(case["pi"], 0), dflt(case["ocr"], 1), dflt(case["s"], 101.3) / ATM, dflt(case["fc"], 1.0)
    g = 0.166 * ocr**-1.678 * s**0.196 + 0.025 * (pi + 1) ** 0.675  # percent
    mr = (1 + (100 * x / g) ** 0.905) ** -1.373
    dmin = (3.64e-4 * ocr * (1 + pi) + 0.012 * fc) / s
    gd = (ocr**-0.381 * s**0.853 + 0.021 * pi) ** 1.249  # percent
    u = 100 * x / gd
    d = dmin + 0.29805 * u / (1 + u) ** 0.680
    check(soil, case, x, mr, d, dmin)
    t.nt(case["s"] is not None)


# ------------------------------------------------------- Kishida
KISHIDA = st.fixed_dictionaries(
    dict(
        COMMON,
        s=opt(gen.logf(5, 400, 4)),
        oc=opt(gen.fl(5, 90, 4)),
        lcr=opt(gen.fl(1, 8, 3)),
        no_uw=st.booleans(),
    )
)


def fn_kishida(case, t):
    if case["x"] is not None and case["x"][0] > 1e-5:
        t.reject("the first strain should be small")
    x, k = strains_kw(case)
    args = kw(stress_vert=case["s"], organic_content=case["oc"], lab_consol_ratio=case["lcr"], unit_wt=None if case["no_uw"] else case["uw"])
    soil = ps.site.KishidaSoilType(case["name"], **args, **k)
    s, oc, lcr = dflt(case["s"], 101.3), dflt(case["oc"], 10), dflt(case["lcr"], 1)
    ls, h = math.log(s), 2 / (1 + math.exp(oc / 23))
    gr = math.exp(-1.41 - 0.950 * (h - 0.5))  # reference strain, percent
    ln_g = []
    for e in 100 * x:
        x1 = math.log(e + gr)
        den = math.log((1 + e) / gr)
        ratio = (math.log(gr) + 2.5) / den
        b2 = 1 - 0.37 * 0.5 * (1 + ratio)
        v = 5.11 - 0.729 * x1 + b2 * ls - 0.693 * h + (0.8 - 0.4 * h) * math.log(lcr)
        v += 0.37 * 0.5 / den * (x1 + 2.5) * (ls - 4)
        v += -0.37 * (1 + ratio) * (ls - 4) * (h - 0.5)
        v += 0.37 / den * (x1 + 2.5) * (ls - 4) * (h - 0.5)
        ln_g.append(v)
    mr = np.exp(np.array(ln_g) - ln_g[0])
    if np.any(np.diff(mr) >= -1e-12):
        t.reject("not decreasing")
    z = np.log(np.log(1 / mr) + 0.103)
    d = np.exp(2.86 + 0.571 * z - 0.103 * ls - 0.141 * h + 0.0419 * (z + 1) * (ls - 4) - 0.240 * (ls - 4) * (h - 0.5)) / 100
    if case["no_uw"]:
        case = dict(case, uw=float(soil.unit_wt))
        gen.close(case["uw"], math.exp(-0.112 + 0.038 * ls + 0.360 * h) * gen.GRAV, rtol=1e-9, what="modelled unit weight")
    check(soil, dict(case, name=""), x, mr, d, 0.0)
    t.nt(case["s"] is not None and case["oc"] is not None)
    t.label("modelled unit weight", case["no_uw"])


# ------------------------------------------------------- trends
def fn_trend(case, t):
    """Higher confining stress or plasticity makes soils more linear."""
    x = np.logspace(-6, -1.5, 20)
    a, b = sorted(case["s"])
    if b < 1.05 * a:
        t.reject("equal")
    pairs = [
        (lambda s: ps.site.DarendeliSoilType(18, plas_index=case["pi"], ocr=case["ocr"], stress_mean=s), "Darendeli"),
        (lambda s: ps.site.RollinsEtAlSoilType(18, stress_mean=s), "Rollins"),
    ]
    for make, name in pairs:
        lo, hi = make(a), make(b)
        assert np.all(np.diff(np.c_[lo.mod_reduc(x), hi.mod_reduc(x)], axis=1) > 0), name
    lo = ps.site.DarendeliSoilType(18, plas_index=case["pi"], ocr=case["ocr"], stress_mean=a)
    hi = ps.site.DarendeliSoilType(18, plas_index=case["pi"] + 10, ocr=case["ocr"], stress_mean=a)
    assert np.all(hi.mod_reduc(x) > lo.mod_reduc(x)) and hi.damping_min > lo.damping_min
    # An override shifts only the small-strain part of the modified Masing damping
    other = ps.site.DarendeliSoilType(18, plas_index=case["pi"], ocr=case["ocr"], stress_mean=a, damping_min=0.05)
    gen.close(other.damping.values - 0.05, lo.damping.values - darendeli_ref(
        {"pi": case["pi"], "ocr": case["ocr"], "s": a, "f": None, "n": None})[3], rtol=1e-7, atol=1e-7, what="shift")
    gen.close(other.mod_reduc.values, lo.mod_reduc.values, rtol=1e-12, what="modulus unaffected by damping_min")
    t.nt()


TREND = st.fixed_dictionaries(
    {"s": st.lists(STRESS, min_size=2, max_size=2), "pi": gen.fl(0, 80, 3), "ocr": gen.fl(1, 12, 3)}
)

SUBS = [
    Sub("darendeli", DAR, fn_darendeli, 900),
    Sub("darendeli frequencies", DAR_F, fn_darendeli_freqs, 300),
    Sub("menq", MENQ, fn_menq, 600),
    Sub("rollins", ROLLINS, fn_rollins, 600),
    Sub("two-parameter", TWO, fn_two, 600),
    Sub("wang", wang_case(), fn_wang, 4000),
    Sub("wang refusals", wang_case(), fn_wang_refuse, 60),
    Sub("alemu", ALEMU, fn_alemu, 600),
    Sub("kishida", KISHIDA, fn_kishida, 600),
    Sub("trends", TREND, fn_trend, 200),
]
