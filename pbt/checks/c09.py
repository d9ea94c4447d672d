"""C09: quarter-wavelength amplification."""

import copy
import math

import numpy as np
from hypothesis import strategies as st

import pystrata as ps

from .. import gen, ref
from ..core import Sub
from .c06 import warmup  # noqa: F401

RULE = (
    "random profiles, frequencies, attenuations and exponent methods; non-trivial = at least two materials and an "
    "amplification differing from one by more than 1%"
)
ASSUMPTIONS = [
    "quarter-wavelength depth known to the documented 1% convergence of the depth (travel time within 2.1%)",
    "profiles with strong velocity inversions may be refused with a convergence error",
]


@st.composite
def case_(draw):
    return {
        "p": draw(gen.profiles(max_layers=8, smooth=draw(st.booleans()), vmax=2500.0, hmax=200.0, nonlinear=draw(st.sampled_from(["no", "mixed"])))),
        "f": draw(gen.freq_vectors(fmin=0.03, fmax=50.0, zero=False)),
        "atten": draw(st.none() | gen.fl(0.001, 0.1, 3) | gen.logf(1e-5, 0.5, 3)),
        "method": draw(st.sampled_from(["standard", "standard", "ba23"])),
        "dens": draw(gen.logf(0.2, 5.0)),
        "parts": draw(st.lists(st.integers(1, 4), min_size=8, max_size=8)),
    }


class Column:
    def __init__(self, p):
        self.h = [la["h"] for la in p["layers"]]
        self.top = gen.depth_tops(p)
        self.s = [1 / la["vs"] for la in p["layers"]]
        self.rho = [p["soils"][la["s"]]["uw"] / gen.GRAV for la in p["layers"]]
        self.n = len(self.h)

    def integral(self, prop, z):
        tot = 0.0
        for i in range(self.n):
            base = self.top[i + 1] if i + 1 < self.n else math.inf
            if z <= self.top[i]:
                break
            tot += (min(z, base) - self.top[i]) * prop[i]
        return tot

    def depth_at(self, time):
        """Depth with a given travel time."""
        for i in range(self.n):
            last = i == self.n - 1
            dt = math.inf if last else (self.top[i + 1] - self.top[i]) * self.s[i]
            if time <= dt:
                return self.top[i] + time / self.s[i]
            time -= dt
        raise AssertionError

    def mean(self, prop, z):
        return self.integral(prop, z) / z

    def mean_range(self, prop, z0, z1):
        # the running mean is monotone between interfaces
        zs = [z0, z1] + [t for t in self.top if z0 < t < z1]
        v = [self.mean(prop, z) for z in zs]
        return min(v), max(v)


def eta(p, f, method):
    if method == "standard":
        return 0.5
    c = Column(p)
    depth = c.top[-1]
    f_bot = 1 / (4 * c.integral(c.s, depth))
    x = (math.log10(f / f_bot) + 1.301) / 1.398
    if x < 0.02:
        return None
    return 0.56 * x**4 / ((1 - x**6) ** 2 + 0.76 * x**3) ** 0.333


def bounds(p, f, method):
    """Range of amplification allowed by the depth convergence."""
    c = Column(p)
    target = 1 / (4 * f)
    z0, z1 = c.depth_at(target / 1.021), c.depth_at(target * 1.021)
    s0, s1 = c.mean_range(c.s, z0, z1)
    r0, r1 = c.mean_range(c.rho, z0 * 0.98, z1 * 1.02)
    top = c.rho[-1] / c.s[-1]
    e = eta(p, f, method)
    if e is None:
        return None
    lo, hi = top * s0 / r1, top * s1 / r0
    return min(lo**e, hi**e), max(lo**e, hi**e)


def inversion(p):
    """Largest ratio of local to average slowness below a layer top."""
    c = Column(p)
    return max(c.s[i] * c.top[i] / c.integral(c.s, c.top[i]) for i in range(1, c.n))


def run(p, case, atten=None):
    prof = gen.build_profile(ps, p)
    calc = ps.propagation.QuarterWaveLenCalculator(atten, method=case["method"])
    calc(ps.motion.Motion(np.array(case["f"])), prof, prof.location("outcrop", index=-1))
    return calc


def fn(case, t):
    p = case["p"]
    try:
        calc = run(p, case, case["atten"])
    except RuntimeError:
        assert inversion(p) > 2.5, ("did not converge", inversion(p))
        t.label("strong inversion refused")
        return
    f = np.array(case["f"])
    amp = calc.crustal_amp
    assert amp.shape == f.shape == calc.site_term.shape

    def within(a, q, what):
        for fi, ai in zip(f, a):
            b = bounds(q, fi, case["method"])
            if b is not None:
                assert b[0] * (1 - 1e-9) <= ai <= b[1] * (1 + 1e-9), (what, fi, ai, b)

    within(amp, p, "amplification")
    loss = 1.0 if case["atten"] is None else np.exp(-np.pi * case["atten"] * f)
    gen.close(calc.site_term, amp * loss, rtol=1e-12, what="site term")
    assert calc.site_atten == case["atten"] and calc.method == case["method"]

    # scaled densities
    q = copy.deepcopy(p)
    for s in q["soils"]:
        s["uw"] *= case["dens"]
    gen.close(run(q, case).crustal_amp, amp, rtol=1e-9, what="density scaling")

    # refined layers
    q = copy.deepcopy(p)
    q["layers"] = []
    for i, la in enumerate(p["layers"][:-1]):
        k = case["parts"][i % len(case["parts"])]
        q["layers"] += [dict(la, h=la["h"] / k) for _ in range(k)]
    q["layers"].append(p["layers"][-1])
    try:
        within(run(q, case).crustal_amp, p, "refined layers")
    except RuntimeError:
        assert inversion(q) > 2.5, "did not converge after refinement"

    # one material
    q = copy.deepcopy(p)
    for la in q["layers"]:
        la.update(s=0, vs=p["layers"][0]["vs"])
    one = run(q, case).crustal_amp
    ok = np.isfinite(one)
    assert case["method"] == "ba23" or ok.all()
    assert np.allclose(one[ok], 1.0, rtol=1e-9), ("uniform profile", one)
    t.nt(np.any(np.abs(amp - 1) > 0.01))
    t.label(case["method"])


@st.composite
def large_case(draw):
    """Many layers and frequencies."""
    case = draw(case_())
    case["big"] = draw(gen.big_profiles(nonlinear=draw(st.sampled_from(["no", "mixed"]))))
    case["big"]["scatter"] = min(case["big"]["scatter"], 0.1)
    del case["p"]
    case["nf"] = draw(st.integers(15, 300))
    return case


def fn_large(case, t):
    f = np.geomspace(0.03, 50.0, case["nf"]).tolist()
    fn(dict(case, p=gen.expand_profile(case["big"]), f=f), t)


@st.composite
def fit_case(draw):
    return {
        "p": draw(gen.profiles(max_layers=4, smooth=True, vmin=150.0, vmax=2500.0, hmax=100.0)),
        "f": sorted(draw(st.lists(gen.logf(0.3, 30.0), min_size=5, max_size=12, unique=True))),
        "atten": draw(gen.fl(0.005, 0.08, 3) | st.sampled_from([2e-4, 5e-4, 0.001, 0.15])),
        "method": "standard",
        "type": draw(st.sampled_from(["crustal_amp", "site_term"])),
        "noise": draw(st.lists(gen.fl(0.8, 1.25, 4), min_size=12, max_size=12)),
        "thick": draw(st.booleans()),
        "fit_atten": draw(st.booleans()),
        "source": draw(st.booleans()),
        "exact": draw(st.integers(0, 2)) == 0,
        # target from a profile with all soil velocities scaled
        "scaled": draw(st.none() | st.sampled_from([0.8, 1.25])),
    }


def fn_fit(case, t):
    p = case["p"]
    try:
        calc = run(p, case, case["atten"])
    except RuntimeError:
        t.reject("inversion")
    get = lambda: np.array(getattr(calc, case["type"]))  # noqa: E731
    start = get()
    target = start * (1.0 if case["exact"] else np.array(case["noise"][: len(start)]))
    if case["scaled"]:
        q = copy.deepcopy(p)
        for la in q["layers"][:-1]:
            la["vs"] *= case["scaled"]
        try:
            target = np.array(getattr(run(q, case, case["atten"]), case["type"]))
        except RuntimeError:
            t.reject("inversion")
    orig = calc.profile
    before = [(la.thickness, la.initial_shear_vel, la.damping_min) for la in orig]
    misfit = lambda x: float(np.mean(((target - x) / x) ** 2))  # noqa: E731
    try:
        calc.fit(
            case["type"],
            target,
            adjust_thickness=case["thick"],
            adjust_site_atten=case["fit_atten"],
            adjust_source_vel=case["source"],
        )
    except RuntimeError:
        # a trial profile with a strong velocity inversion
        t.label("trial profile refused")
        return
    after = [(la.thickness, la.initial_shear_vel, la.damping_min) for la in orig]
    assert before == after, "original profile changed by the fit"
    m0, m1 = misfit(start), misfit(get())
    assert m1 <= m0 * (1 + 1e-6) + 1e-12, ("misfit grew", m0, m1)
    new = calc.profile
    assert len(new) == len(orig) and new.wt_depth == orig.wt_depth
    for i, (a, b) in enumerate(zip(orig, new)):
        assert a.soil_type is b.soil_type or a.soil_type == b.soil_type
        assert math.isclose(a.damping_min, b.damping_min, rel_tol=1e-12, abs_tol=1e-15), ("damping", i)
        if case["thick"]:
            assert a.thickness / 2 * (1 - 1e-9) <= b.thickness <= a.thickness * 2 * (1 + 1e-9)
        else:
            assert math.isclose(a.thickness, b.thickness, rel_tol=1e-12), ("thickness", i)
        assert 100 * (1 - 1e-9) <= b.initial_shear_vel <= 4000 * (1 + 1e-9)
    if not case["source"]:
        assert math.isclose(new[-1].initial_shear_vel, orig[-1].initial_shear_vel, rel_tol=1e-12), "source velocity"
    if not case["fit_atten"]:
        assert calc.site_atten == case["atten"], "site attenuation"
    else:
        assert 0.0001 <= calc.site_atten <= 0.2000001
    # the reported amplification is that of the fitted profile
    q = ps.propagation.QuarterWaveLenCalculator(calc.site_atten)
    q(ps.motion.Motion(np.array(case["f"])), new, new.location("outcrop", index=-1))
    gen.close(q.site_term, calc.site_term, rtol=1e-9, what="site term after fit")
    gen.close(q.crustal_amp, calc.crustal_amp, rtol=1e-9, what="amplification after fit")
    if case["scaled"] and m0 > 1e-3:
        assert m1 < m0 * (1 - 1e-3), ("fit did nothing", m0, m1)
    t.nt(m0 > 1e-4)
    t.label("thickness adjusted", case["thick"])
    t.label("exact target", case["exact"])


def fn_batch(case, t):
    """Single trials may be refused (velocity inversions); not every fit of the thickness."""
    rng = np.random.default_rng(case["seed"])
    done = 0
    n = 12
    for _ in range(n):
        m = int(rng.integers(1, 4))
        vs = np.cumprod(np.r_[rng.uniform(180, 350), rng.uniform(1.2, 1.7, m)])
        soil = {"mr": None, "d": 0.01, "n": "s", "uw": 19.0}
        p = {"soils": [soil], "wt": 0.0, "layers": [{"s": 0, "h": float(rng.uniform(8, 40)) if i < m else 0, "vs": float(v), "dm": None} for i, v in enumerate(vs)]}
        calc = run(p, {"method": "standard", "f": np.geomspace(0.5, 20, 8)}, 0.03)
        start = np.array(calc.crustal_amp)
        target = start * rng.uniform(0.9, 1.1, 8)
        try:
            calc.fit("crustal_amp", target, adjust_thickness=True)
        except RuntimeError:
            continue
        done += 1
        got = np.array(calc.crustal_amp)
        assert np.all(np.isfinite(got)), "amplification after the fit"
        assert np.mean(((target - got) / got) ** 2) <= np.mean(((target - start) / start) ** 2) * (1 + 1e-6), "misfit grew"
    t.label(f"fitted {done} of {n}")
    t.nt(done > 1)
    assert done > 0, f"all {n} fits of the thickness of normally dispersive profiles are refused"


SUBS = [
    Sub("amplification", case_, fn, 2500),
    Sub("many layers", large_case, fn_large, 100),
    Sub("fit", fit_case, fn_fit, 300),
    Sub("thickness fits", st.fixed_dictionaries({"seed": gen.seeds()}), fn_batch, 16),
]
