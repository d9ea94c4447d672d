"""C26: soil-type randomization."""

import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats

import pystrata as ps
from pystrata import variation

from .. import gen
from ..core import Sub
from .c06 import warmup  # noqa: F401

RULE = (
    "generated curves (hyperbolic, published, Darendeli, Menq; constant damping or no reduction), limits, correlations, percentiles and "
    "random states for both models; the pair of variates recovered from the unclipped points must explain every point; "
    "non-trivial = at least four unclipped points and a variate above 0.05"
)
ASSUMPTIONS = ["modulus-reduction values lie in [0, 1]", "statistical relations have bands of at least six standard errors"]

LIMIT = 2.0
SCALE = float(1 / np.sqrt(stats.truncnorm.stats(-2, 2, moments="v")))


@st.composite
def soil_case(draw):
    kind = draw(st.sampled_from(["gen", "gen", "gen", "darendeli", "menq", "published"]))
    s = {"kind": kind}
    if kind == "gen":
        s.update(draw(gen.soil(nonlinear="mixed", dmin=0.001)))
    elif kind == "darendeli":
        s.update(uw=draw(gen.fl(12, 22, 3)), pi=draw(st.integers(0, 60)), sig=draw(gen.logf(20.0, 500.0, 3)))
    elif kind == "menq":
        s.update(uw=draw(gen.fl(12, 22, 3)), cu=draw(gen.fl(1, 20, 3)), d=draw(gen.fl(0.1, 5, 3)), sig=draw(gen.logf(20.0, 500.0, 3)))
    else:
        s.update(uw=draw(gen.fl(12, 22, 3)), i=draw(st.integers(0, 200)))
    return s


NAMES = []


def published():
    """Published models with both curves."""
    if not NAMES:
        for name in ps.site.known_published_curves():
            try:
                soil = ps.site.SoilType.from_published("published", 18.0, name)
            except KeyError:
                continue
            m = np.asarray(soil.mod_reduc.values)
            if m.min() >= 0 and m.max() <= 1:
                NAMES.append(name)
    return NAMES


def build_soil(s):
    if s["kind"] == "gen":
        return gen.build_soil(ps, s)
    if s["kind"] == "darendeli":
        return ps.site.DarendeliSoilType(s["uw"], plas_index=s["pi"], stress_mean=s["sig"])
    if s["kind"] == "menq":
        return ps.site.MenqSoilType(s["uw"], coef_unif=s["cu"], diam_mean=s["d"], stress_mean=s["sig"])
    names = published()
    return ps.site.SoilType.from_published("published", s["uw"], names[s["i"] % len(names)])


@st.composite
def var_case(draw, fixed=None):
    kind = draw(st.sampled_from(["darendeli", "spid"]))
    v = {"kind": kind, "c": draw(st.sampled_from([-0.5, 0.0, -1.0, 1.0]) | gen.fl(-1.0, 1.0, 3)), "bed": False}
    if draw(st.booleans()):
        v["lm"] = [draw(st.just(0) | gen.fl(0.0, 0.2, 3)), draw(st.just(1) | gen.fl(0.8, 1.0, 3))]
    if draw(st.booleans()):
        v["ld"] = [draw(st.just(0) | gen.fl(0.0, 0.02, 3)), draw(gen.fl(0.08, 0.3, 3))]
    if draw(st.integers(0, 5)) == 0:
        # limits that are never or hardly ever reached
        v["lm"], v["ld"] = [draw(gen.fl(-0.3, 0.0, 2)), draw(gen.fl(1.0, 1.5, 2))], [draw(gen.fl(-0.1, 0.0, 2)), draw(gen.fl(0.3, 0.9, 2))]
    if kind == "spid":
        if draw(st.booleans()):
            v["sm"] = draw(gen.fl(0.02, 0.4, 3) | st.sampled_from([0.0, 0.004]))
            v["sd"] = draw(gen.fl(0.02, 0.6, 3) | st.sampled_from([0.0, 0.004]))
    else:
        v["bed"] = draw(st.booleans())
    if fixed if fixed is not None else draw(st.booleans()):
        v["pct"] = draw(st.lists(gen.fl(0.001, 0.999, 4) | st.just(0.5), min_size=1, max_size=5))
    return v


def build_var(v, **over):
    kw = {}
    if "lm" in v:
        kw["limits_mod_reduc"] = v["lm"]
    if "ld" in v:
        kw["limits_damping"] = v["ld"]
    if "sm" in v:
        kw["std_mod_reduc"] = v["sm"]
        kw["std_damping"] = v["sd"]
    if v["bed"]:
        kw["vary_bedrock"] = True
    if "pct" in v:
        kw["sample_mode"] = "fixed_percentiles"
        kw["percentiles"] = v["pct"]
    kw.update(over)
    cls = variation.DarendeliVariation if v["kind"] == "darendeli" else variation.SpidVariation
    return cls(v["c"], **kw)


def limits(v):
    return (
        v.get("lm", [0.05, 1] if v["kind"] == "darendeli" else [0, 1]),
        v.get("ld", [0, 0.15]),
    )


def curve_values(x):
    if x is None:
        return None
    return np.atleast_1d(np.asarray(getattr(x, "values", x), dtype=float))


def std_mr(m):
    return math.exp(-4.23) + math.sqrt(max(0.25 - (m - 0.5) ** 2, 0.0) / math.exp(3.62))


def std_d(d):
    return (math.exp(-5) + math.exp(-0.25) * math.sqrt(100 * d)) / 100


def shifted(v, m, z, what):
    """The seed values shifted by z standard deviations, before clipping."""
    if v["kind"] == "darendeli":
        f = std_mr if what == "mr" else std_d
        return np.array([x + z * f(x) for x in m])
    if what == "mr":
        s = 2 * v.get("sm", 0.15)
        out = []
        for x in m:
            # at one, the odds are infinite
            out.append(1.0 if x >= 1 else x * math.exp(z * s) / (1 - x + x * math.exp(z * s)))
        return np.array(out)
    return np.asarray(m) * math.exp(z * v.get("sd", 0.3))


def recover(v, m, got, lim, what):
    """The variate that explains the values, from the least sensitive unclipped point."""
    best, z = 0.0, None
    for x, y in zip(m, got):
        if not lim[0] + 1e-9 < y < lim[1] - 1e-9:
            continue
        if v["kind"] == "darendeli":
            s = (std_mr if what == "mr" else std_d)(x)
            cand, weight = (y - x) / s, s / max(x, 1e-6)
        elif what == "mr":
            if not 1e-6 < x < 1 - 1e-6:
                continue
            cand, weight = (math.log(y / (1 - y)) - math.log(x / (1 - x))) / (2 * v.get("sm", 0.15)), x * (1 - x)
        else:
            if x <= 0:
                continue
            cand, weight = math.log(y / x) / v.get("sd", 0.3), 1.0
        if weight > best:
            best, z = weight, cand
    return z


def explain(v, seed, got, lim, what):
    """Recover the variate and check every point; None if all points are clipped."""
    assert got.shape == seed.shape, f"{what}: shape {got.shape} of {seed.shape}"
    assert np.all(got >= lim[0] - 1e-12) and np.all(got <= lim[1] + 1e-12), f"{what}: limits {lim}, values {got}"
    if v["kind"] == "spid" and v.get("sm" if what == "mr" else "sd") == 0:
        gen.close(got, np.clip(seed, *lim), rtol=1e-6, atol=1e-8, what=f"{what} without variation")
        return None
    z = recover(v, seed, got, lim, what)
    if z is None:
        return None
    assert abs(z) <= LIMIT + 1e-5, f"{what}: variate {z}"
    gen.close(got, np.clip(shifted(v, seed, z, what), *lim), rtol=1e-6, atol=1e-8, what=f"{what} with variate {z}")
    return z


def snap(soil):
    return (
        soil.name,
        soil.unit_wt,
        None if soil.mod_reduc is None else np.array(curve_values(soil.mod_reduc)),
        np.array(curve_values(soil.damping)),
    )


def same_snap(a, b):
    assert a[:2] == b[:2], "seed soil type changed"
    for x, y in zip(a[2:], b[2:]):
        assert (x is None) == (y is None) and (x is None or np.array_equal(x, y)), "seed curves changed"


def check_soil(v, soil, real, idx=None):
    """A realization of a soil type; returns the variates found."""
    lm, ld = limits(v)
    assert real is not soil, "realization is the seed"
    assert type(real) is type(soil) and real.name == soil.name and real.unit_wt == soil.unit_wt, "type, name, unit weight"
    for a in ("mod_reduc", "damping"):
        x, y = getattr(soil, a), getattr(real, a)
        if hasattr(x, "strains"):
            assert type(y) is type(x) and y is not x, f"{a}: curve"
            assert np.array_equal(x.strains, y.strains), f"{a}: strains"
    assert real.is_nonlinear == soil.is_nonlinear
    assert (real.mod_reduc is None) == (soil.mod_reduc is None), f"modulus reduction {real.mod_reduc} of {soil.mod_reduc}"
    z1 = z2 = None
    if soil.mod_reduc is not None:
        z1 = explain(v, curve_values(soil.mod_reduc), curve_values(real.mod_reduc), lm, "mr")
    z2 = explain(v, curve_values(soil.damping), curve_values(real.damping), ld, "d")
    # the realization is what layers see
    la = ps.site.Layer(real, 5.0, 200.0)
    G0 = la.unit_wt / gen.GRAV * 200.0**2
    for x in (1e-5, 1e-3):
        la.strain = x
        if hasattr(real.mod_reduc, "strains"):
            gen.close(la.shear_mod, G0 * np.interp(np.log(x), np.log(real.mod_reduc.strains), curve_values(real.mod_reduc)), rtol=1e-6, atol=0.06 * G0, what="modulus")
        else:
            gen.close(la.shear_mod, G0, rtol=1e-9, what="modulus of a soil without reduction")
        assert np.isfinite(la.damping)
    if idx is not None:
        p = v["pct"][idx]
        z = SCALE * stats.norm.ppf(stats.norm.cdf(-LIMIT / SCALE) + p * (stats.norm.cdf(LIMIT / SCALE) - stats.norm.cdf(-LIMIT / SCALE)))
        if z1 is not None:
            assert abs(z1 - z) < 1e-4, f"variate {z1} at percentile {p}, expected {z}"
        zz = min(max((v["c"] + math.sqrt(1 - v["c"] ** 2)) * z, -LIMIT), LIMIT)
        if z2 is not None:
            assert abs(z2 - zz) < 1e-4, f"second variate {z2} at percentile {p}, expected {zz}"
    return z1, z2


@st.composite
def case_(draw):
    return {"s": draw(soil_case()), "v": draw(var_case()), "seed": draw(gen.seeds()), "n": draw(st.integers(1, 4))}


def fn(case, t):
    v = case["v"]
    soil = build_soil(case["s"])
    before = snap(soil)
    model = build_var(v)
    assert model.correlation == v["c"] and model.vary_bedrock == v["bed"]
    lm, ld = limits(v)
    assert list(model.limits_mod_reduc) == list(lm) and list(model.limits_damping) == list(ld)
    assert model.sample_mode == ("fixed_percentiles" if "pct" in v else "random")
    assert (model.percentiles == v["pct"]) if "pct" in v else model.percentiles is None
    np.random.seed(case["seed"])
    for k in range(case["n"]):
        if "pct" in v:
            idx = k % len(v["pct"])
            real = model(soil, sample_index=idx)
            again = model(soil, sample_index=idx)
            same_snap(snap(real), snap(again))
        else:
            idx = None
            real = model(soil)
        z1, z2 = check_soil(v, soil, real, idx)
        same_snap(snap(soil), before)
        t.nt(soil.is_nonlinear and max(abs(z1 or 0), abs(z2 or 0)) > 0.05)
        t.label("all modulus points clipped", soil.mod_reduc is not None and z1 is None)
    if "pct" in v:
        try:
            model(soil)
        except ValueError:
            pass
        else:
            raise AssertionError("a missing sample index is refused")
        # order of the percentiles; the median
        full = build_var(v, percentiles=[0.05, 0.2, 0.5, 0.8, 0.95])
        reals = [full(soil, sample_index=i) for i in range(5)]
        m0, d0 = curve_values(soil.mod_reduc), curve_values(soil.damping)
        gen.close(curve_values(reals[2].damping), np.clip(d0, *ld), rtol=1e-9, atol=1e-12, what="damping at the median")
        if m0 is not None:
            gen.close(curve_values(reals[2].mod_reduc), np.clip(m0, *lm), rtol=1e-9, atol=1e-12, what="modulus reduction at the median")
            for a, b in zip(reals, reals[1:]):
                assert np.all(curve_values(a.mod_reduc) <= curve_values(b.mod_reduc) + 1e-12), "higher percentile, lower modulus reduction"
    t.label(v["kind"])
    t.label(case["s"]["kind"])
    t.label("percentiles", "pct" in v)


# ------------------------------------------------------------- profiles
@st.composite
def profile_case(draw):
    v = draw(var_case())
    return {
        "p": draw(gen.with_big(gen.profiles(nonlinear="mixed", max_layers=6, dmin=0.001), nonlinear="mixed")),
        "v": v,
        "share": draw(st.booleans()),
        "undamped": draw(st.integers(0, 4)) == 0,
        "same_name": draw(st.booleans()),
        "mult": draw(st.integers(1, 3)),
        "off": draw(st.integers(1, 4)),
        "seed": draw(gen.seeds()),
    }


def fn_profile(case, t):
    p, v = case["p"], case["v"]
    if case["undamped"]:
        p["layers"][case["seed"] % len(p["layers"])]["dm"] = 0.0
    if case["share"]:
        p["layers"][-1]["s"] = p["layers"][0]["s"]
    if case["same_name"]:
        for s in p["soils"]:
            s["n"] = ""
    prof = gen.build_profile(ps, p)
    before = [snap(la.soil_type) for la in prof]
    model = build_var(v)
    npct = len(v["pct"]) if "pct" in v else None
    count = case["mult"] * (npct or 1)
    np.random.seed(case["seed"])
    got = list(variation.iter_varied_profiles(prof, count, var_soiltypes=model))
    assert len(got) == count, "number of realizations"
    n = len(prof)
    for k, w in enumerate(got):
        idx = k % npct if npct else None
        assert len(w) == n and w.wt_depth == p["wt"], "layers and water table"
        for i in range(n):
            assert w[i].thickness == prof[i].thickness and w[i].initial_shear_vel == prof[i].initial_shear_vel, "thickness and velocity"
            assert w[i].damping_min == prof[i].damping_min, "minimum damping"
            if i == n - 1 and not v["bed"]:
                same_snap(snap(w[i].soil_type), before[i])
            else:
                check_soil(v, prof[i].soil_type, w[i].soil_type, idx)
        end = n if v["bed"] else n - 1
        for i in range(end):
            for j in range(i):
                if prof[i].soil_type is prof[j].soil_type:
                    assert w[i].soil_type is w[j].soil_type or not np.any(
                        curve_values(w[i].soil_type.damping) != curve_values(w[j].soil_type.damping)
                    ), "layers of the same soil type"
                    t.label("shared soil type")
                    t.nt()
    for la, b in zip(prof, before):
        same_snap(snap(la.soil_type), b)
    if npct:
        for k in range(count - npct):
            for a, b in zip(got[k], got[k + npct]):
                same_snap(snap(a.soil_type), snap(b.soil_type))
        if npct > 1:
            bad = case["mult"] * npct + 1 + case["off"] % (npct - 1)
            try:
                list(variation.iter_varied_profiles(prof, bad, var_soiltypes=model))
            except ValueError:
                t.label("count refused")
            else:
                raise AssertionError(f"{bad} profiles of {npct} percentiles")


# ------------------------------------------------------------- refusals
refuse_case = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(["darendeli", "spid"]),
        "what": st.sampled_from(["mode", "none", "empty", "value"]),
        "bad": st.sampled_from([0.0, 1.0, -0.1, 1.5, 100, 50.0]),
        "pos": st.integers(0, 3),
        "pct": st.lists(gen.fl(0.01, 0.99, 2), min_size=0, max_size=3),
        "mode": st.sampled_from(["fixed", "Random", "", "percentiles", "fixed_percentile"]),
        "array": st.booleans(),
    }
)


def fn_refuse(case, t):
    v = {"kind": case["kind"], "c": -0.5, "bed": False}
    pct = list(case["pct"])
    if case["what"] == "mode":
        kw = {"sample_mode": case["mode"], "percentiles": pct or None}
    elif case["what"] == "none":
        kw = {"sample_mode": "fixed_percentiles"}
    elif case["what"] == "empty":
        kw = {"sample_mode": "fixed_percentiles", "percentiles": []}
    else:
        pct.insert(case["pos"] % (len(pct) + 1), case["bad"])
        kw = {"sample_mode": "fixed_percentiles", "percentiles": np.array(pct) if case["array"] else pct}
    try:
        build_var(v, **kw)
    except ValueError:
        pass
    else:
        raise AssertionError(f"{kw} accepted")
    if case["pct"]:
        build_var(v, sample_mode="fixed_percentiles", percentiles=np.array(case["pct"]) if case["array"] else case["pct"])
    t.nt()


# ------------------------------------------------------------- statistics
stat_case = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(["darendeli", "spid"]),
        "c": st.sampled_from([-0.9, -0.5, 0.0, 0.5, 0.9]) | gen.fl(-0.95, 0.95, 2),
        "seed": gen.seeds(),
    }
)


def fn_stat(case, t):
    """Variates are centred, truncated at two and correlated as requested."""
    n = 300
    v = {"kind": case["kind"], "c": case["c"], "bed": False, "lm": [0, 1], "ld": [0, 1]}
    x = gen.STRAIN_GRID
    soil = ps.site.SoilType(
        "s",
        18.0,
        ps.site.ModulusReductionCurve("", np.array(x), 1 / (1 + np.array(x) / 1e-3)),
        ps.site.DampingCurve("", np.array(x), 0.03 + 0.12 * (1 - 1 / (1 + np.array(x) / 1e-3))),
    )
    model = build_var(v)
    np.random.seed(case["seed"])
    z = np.array([check_soil(v, soil, model(soil)) for _ in range(n)], dtype=float)
    assert np.all(np.isfinite(z))
    for k in (0, 1):
        assert abs(z[:, k].mean()) < 6.5 / math.sqrt(n), f"variate {k} has mean {z[:, k].mean()}"
        # 0.88 for a normal truncated at two
        assert 0.66 < z[:, k].std() < 1.1, f"variate {k} has standard deviation {z[:, k].std()}"
    c = np.corrcoef(z.T)[0, 1]
    # truncation weakens the correlation
    lo, hi = sorted([case["c"], 0.55 * case["c"]])
    assert lo - 0.36 < c < hi + 0.36, f"correlation {c}, requested {case['c']}"
    if abs(case["c"]) > 0.85:
        assert abs(c) > 0.6, f"correlation {c}, requested {case['c']}"
    t.nt()


SUBS = [
    Sub("soil types", case_, fn, 1200),
    Sub("profiles", profile_case, fn_profile, 500),
    Sub("refusals", refuse_case, fn_refuse, 200),
    Sub("statistics", stat_case, fn_stat, 40),
]
