"""C25: velocity randomization."""

import math

import numpy as np
from hypothesis import strategies as st

import pystrata as ps
from pystrata import variation

from .. import gen
from ..core import Sub
from .c06 import warmup  # noqa: F401

RULE = (
    "generated seed profiles, model parameters (direct, generic site classes with and without overrides, depth-dependent "
    "with soil-type overrides), bedrock variation and random states, several realizations each; non-trivial = a varied "
    "velocity differs from its seed by more than 1% and no layer property but velocity differs"
)
ASSUMPTIONS = [
    "statistical relations (centring, spread, correlation) have bands of at least six standard errors",
    "correlation of neighbouring layers is checked for profiles of one layer over the half-space, and its sign otherwise",
    "site classes are looked up away from the boundary velocities",
]

LIMIT = 2.0
# standard deviation of a normal distribution truncated at two is 1 / 1.136847
SCALE = 1.136847

CLASSES = {
    "Geomatrix AB": (0.46, 0.96, 13.1, 0.96, 0.0, 0.095),
    "Geomatrix CD": (0.38, 0.99, 8.0, 1.00, 0.0, 0.160),
    "USGS AB": (0.35, 0.95, 4.2, 1.00, 0.0, 0.138),
    "USGS CD": (0.36, 0.99, 3.9, 1.00, 0.0, 0.293),
    "USGS A": (0.36, 0.95, 3.4, 0.42, 0.0, 0.063),
    "USGS B": (0.27, 0.97, 3.8, 1.00, 0.0, 0.293),
    "USGS C": (0.31, 0.99, 3.9, 0.98, 0.0, 0.344),
    "USGS D": (0.37, 0.00, 5.0, 0.50, 0.0, 0.744),
}
NAMES = ("ln_std", "rho_0", "delta", "rho_200", "h_0", "b")


@st.composite
def model_case(draw):
    kind = draw(st.sampled_from(["toro", "generic", "depth", "depth generic"]))
    m = {"kind": kind, "bedrock": draw(st.booleans()), "cls": draw(st.sampled_from(sorted(CLASSES)))}
    if kind in ("toro", "depth"):
        m["par"] = {
            "rho_0": draw(gen.fl(0.0, 0.99, 3)),
            "delta": draw(gen.fl(1.0, 15.0, 3)),
            "rho_200": draw(gen.fl(0.1, 1.0, 3)),
            "h_0": draw(st.just(0.0) | gen.fl(0.0, 5.0, 3)),
            "b": draw(gen.fl(0.05, 0.8, 3)),
        }
    if kind == "toro":
        m["std"] = draw(st.just(0.0) | gen.fl(0.01, 0.6, 3) | gen.fl(0.6, 1.2, 3))
    if kind == "generic":
        m["std"] = draw(st.none() | gen.fl(0.01, 0.6, 3))
    if kind == "depth" or (kind == "depth generic" and draw(st.booleans())):
        n = draw(st.integers(1, 4))
        z = sorted(draw(st.lists(gen.fl(0.0, 100.0, 3), min_size=n, max_size=n, unique=True)))
        m["depth"] = z
        m["stds"] = [draw(st.just(0.0) | gen.fl(1e-4, 0.5, 3)) for _ in z]
    if kind[:5] == "depth":
        m["map"] = draw(
            st.none() | st.dictionaries(st.sampled_from(["soil-0", "soil-1", "bed", "soil", "other", "1", "oil-", "-0"]), st.just(0) | gen.fl(1e-4, 0.6, 3), max_size=2)
        )
    return m


def build_model(m):
    kw = {"vary_bedrock": m["bedrock"]}
    V = variation
    if m["kind"] == "toro":
        return V.ToroVelocityVariation(ln_std=m["std"], **m["par"], **kw)
    if m["kind"] == "generic":
        if m["std"] is not None:
            kw["ln_std"] = m["std"]
        return V.ToroVelocityVariation.generic_model(m["cls"], **kw)
    if m["kind"] == "depth":
        return V.DepthDependToroVelVariation(m["depth"], m["stds"], **m["par"], ln_std_map=m["map"], **kw)
    if "depth" in m:
        kw.update(depth=m["depth"], ln_std=m["stds"])
    if m["map"] is not None:
        kw["ln_std_map"] = m["map"]
    return V.DepthDependToroVelVariation.generic_model(m["cls"], **kw)


def interp(x, xs, ys):
    if x <= xs[0]:
        return ys[0]
    for a, b, c, d in zip(xs, xs[1:], ys, ys[1:]):
        if x <= b:
            return c + (d - c) * (x - a) / (b - a)
    return ys[-1]


def stds(m, p):
    """Logarithmic standard deviation of every layer."""
    n = len(p["layers"])
    if m["kind"] == "toro":
        return [m["std"]] * n
    if m["kind"] == "generic":
        return [CLASSES[m["cls"]][0] if m["std"] is None else m["std"]] * n
    xs, ys = m.get("depth", [0, 15]), m.get("stds", [0.25, 0.15])
    out = []
    for la, top in zip(p["layers"], gen.depth_tops(p)):
        s = interp(top + la["h"] / 2, xs, ys)
        for name, value in (m["map"] or {}).items():
            if name in p["soils"][la["s"]]["n"]:
                s = value
        out.append(s)
    return out


@st.composite
def case_(draw):
    return {
        "p": draw(gen.with_big(gen.profiles(nonlinear="mixed", max_layers=6, dmin=0.001), nonlinear="mixed")),
        "m": draw(model_case()),
        "seed": draw(gen.seeds()),
        "n": draw(st.integers(1, 4)),
        "via": draw(st.booleans()),
        "limit": draw(st.sampled_from([None, None, None, 1, 0.4, 3.0])),
        "used": draw(st.sampled_from([None] * 5 + [0.02, 0.3])),
    }


def scale_of(L):
    """One over the standard deviation of a normal truncated at the limit."""
    return 1 / math.sqrt(1 - 2 * L * math.exp(-L * L / 2) / math.sqrt(2 * math.pi) / math.erf(L / math.sqrt(2)))


def fn(case, t):
    if case["limit"] is None:
        return realize(case, t, LIMIT, SCALE)
    # the limit of the generator is the user's to set
    old = variation.randnorm.limit
    try:
        variation.randnorm.limit = case["limit"]
        t.label("limit set")
        return realize(case, t, case["limit"], scale_of(case["limit"]))
    finally:
        variation.randnorm.limit = old


def realize(case, t, limit, scale):
    p, m = case["p"], case["m"]
    prof = gen.build_profile(ps, p)
    model = build_model(m)
    if case["used"]:
        # the seed has been analysed: its modulus is no longer the initial one
        dt = 0.02
        x = np.sin(2 * np.pi * 1.5 * dt * np.arange(64)) * case["used"]
        mot = ps.motion.TimeSeriesMotion("", "", dt, x)
        ps.propagation.EquivalentLinearCalculator(strain_limit=None, max_iterations=3)(mot, prof, prof.location("outcrop", index=-1))
        t.label("strained seed", any(la.shear_vel < 0.9 * la.initial_shear_vel for la in prof))
    assert model.vary_bedrock == m["bedrock"]
    np.random.seed(case["seed"])
    if case["via"]:
        got = list(variation.iter_varied_profiles(prof, case["n"], var_velocity=model))
    else:
        got = [model(prof) for _ in range(case["n"])]
    assert len(got) == case["n"]
    sd = stds(m, p)
    n = len(p["layers"])
    moved = False
    for v in got:
        assert len(v) == n, "number of layers"
        assert v.wt_depth == p["wt"], "water table"
        for i, (a, b, la) in enumerate(zip(v, prof, p["layers"])):
            assert a.thickness == b.thickness == la["h"], "thickness"
            assert a.soil_type is b.soil_type or a.soil_type == b.soil_type, "soil type"
            assert a.damping_min == b.damping_min, "damping"
            assert abs(a.depth - b.depth) <= 1e-9 * max(1.0, b.depth), "depth"
            x = abs(math.log(a.initial_shear_vel / la["vs"]))
            if i == n - 1 and not m["bedrock"]:
                assert a.initial_shear_vel == la["vs"], "half-space velocity"
            else:
                bound = limit * scale * sd[i]
                assert sd[i] < 1e-6 or x > 0, f"layer {i}: velocity as in the seed"
                assert x <= bound * (1 + 1e-5) + 1e-12, f"layer {i}: velocity off by {x} in ln, bound {bound}"
                moved = moved or x > 0.01
    t.nt(moved)
    t.label(m["kind"])
    t.label("bedrock varied", m["bedrock"])
    t.label("some layers without variation", any(s == 0 for s in sd) and any(s > 0 for s in sd))
    # realizations differ unless nothing varies
    end = n if m["bedrock"] else n - 1
    if any(s > 0.01 for s in sd[:end]) and len(got) > 1:
        first = [la.initial_shear_vel for la in got[0]]
        inside = any(
            sd[i] > 0.01 and abs(math.log(first[i] / p["layers"][i]["vs"])) < 0.999 * limit * scale * sd[i] for i in range(end)
        )  # values beyond the limit are moved to it
        assert not inside or any([la.initial_shear_vel for la in v] != first for v in got[1:]), "realizations repeat"


# ------------------------------------------------------- statistics
@st.composite
def stat_case(draw):
    return {
        "p": draw(gen.profiles(nonlinear="no", min_layers=draw(st.sampled_from([1, 1, 2, 3])), max_layers=3, dmin=0.001)),
        "m": draw(model_case()),
        "seed": draw(gen.seeds()),
        "n": 500,
    }


def fn_stat(case, t):
    """Median at the seed; standard deviation as requested for one layer over the half-space."""
    p, m, n = case["p"], case["m"], case["n"]
    prof = gen.build_profile(ps, p)
    model = build_model(m)
    sd = stds(m, p)
    np.random.seed(case["seed"])
    nl = len(p["layers"])
    if nl == 2:
        n = 1200
    x = np.array([[math.log(la.initial_shear_vel / c["vs"]) for la, c in zip(model(prof), p["layers"])] for _ in range(n)])
    for i in range(nl):
        bound = LIMIT * SCALE * sd[i]
        assert abs(x[:, i].mean()) <= 6.5 * (0.75 * bound) / math.sqrt(n) + 1e-12, f"layer {i}: mean of ln velocity off by {x[:, i].mean()}"
        pos, neg = np.sum(x[:, i] > 1e-9), np.sum(x[:, i] < -1e-9)
        assert abs(pos - neg) <= 6.5 * math.sqrt(n), f"layer {i}: {pos} above and {neg} below the seed"
    if nl == 2:
        # the covariance of two fully correlated layers is a valid one: standard deviation within 15%
        s = sd[0]
        got = x[:, 0].std()
        # scaled normal clipped (not truncated) at two: 0.9594 * 1.1368 = 1.0907
        assert s * 0.85 <= got <= s * 1.3 + 1e-12, f"standard deviation {got}, requested {s}"
        # both ends of the range are reached
        for i in range(2 if m["bedrock"] else 1):
            bound = LIMIT * SCALE * sd[i]
            assert x[:, i].max() >= 0.93 * bound - 1e-9 and -x[:, i].min() >= 0.93 * bound - 1e-9, f"layer {i}: from {x[:, i].min()} to {x[:, i].max()}, bound {bound}"
        t.label("spread")
        if m["bedrock"] and min(sd) > 0.02:
            c = np.corrcoef(x.T)[0, 1]
            assert c > 0.97, f"bedrock moves with the layer above it, correlation {c}"
            t.label("bedrock correlation")
    t.nt(max(sd) > 0.02)


@st.composite
def corr_case(draw):
    """Layers of one thickness: what "thickness" and "depth" mean is then (nearly) settled."""
    case = {"h": draw(gen.fl(0.5, 40.0, 3)), "cls": draw(st.sampled_from(sorted(CLASSES))), "seed": draw(gen.seeds()), "std": draw(gen.fl(0.1, 0.4, 2))}
    case["n"] = draw(st.integers(2, 5) | st.integers(2, 5) | st.integers(2, 5) | st.integers(20, 70))
    if draw(st.booleans()):
        case["params"] = {
            "rho_0": draw(gen.fl(0.0, 0.99, 2)),
            "delta": draw(gen.logf(0.5, 60.0)),
            "rho_200": draw(gen.fl(0.0, 0.99, 2)),
            "h_0": draw(st.just(0.0) | gen.fl(0.0, 60.0, 1)),
            "b": draw(gen.logf(0.05, 2.0)),
        }
        kind = draw(st.sampled_from([None, "deep", "thick"]))
        if kind == "deep":
            # beyond the reference depth of 200 m
            case.update(h=draw(gen.fl(60.0, 90.0, 3)), n=draw(st.integers(4, 6)))
            case["params"].update(rho_200=draw(gen.fl(0.0, 0.4, 2)), rho_0=draw(gen.fl(0.0, 0.3, 2)))
        elif kind == "thick":
            case["h"] = draw(gen.fl(25.0, 60.0, 3))
            case["params"].update(rho_200=draw(gen.fl(0.0, 0.2, 2)), rho_0=draw(gen.fl(0.8, 0.99, 2)), delta=draw(gen.fl(6.0, 18.0, 3)), b=draw(gen.fl(0.5, 2.0, 2)))
    return case


def stated_corr(q, d, th):
    cd = q["rho_200"] * (1.0 if d > 200 else ((d + q["h_0"]) / (200 + q["h_0"])) ** q["b"])
    return (1 - cd) * q["rho_0"] * math.exp(-th / q["delta"]) + cd


def drawn_corr(cs):
    """Correlation of a normal draw with the tridiagonal matrix stated, the last entry tied to the layer above."""
    a = np.eye(len(cs) + 2)
    for i, c in enumerate(list(cs) + [1.0]):
        a[i, i + 1] = a[i + 1, i] = c
    w, v = np.linalg.eigh(a)
    cov = v @ np.diag(np.abs(w)) @ v.T  # the drawing turns a matrix without positive definiteness into this one
    sd = np.sqrt(np.diag(cov))
    return cov / sd / sd[:, None]


def fn_corr(case, t):
    """Neighbouring layers correlate as the model states, within what its wording leaves open and the sample's own spread."""
    h, n = case["h"], case.get("n", 2)
    soil = ps.site.SoilType("s", 18.0, None, 0.01)
    prof = ps.site.Profile([ps.site.Layer(soil, h, 300.0 + 100 * i) for i in range(n)] + [ps.site.Layer(soil, 0, 1200.0)])
    if case.get("params"):
        q = case["params"]
        model = variation.ToroVelocityVariation(case["std"], q["rho_0"], q["delta"], q["rho_200"], q["h_0"], q["b"])
    else:
        model = variation.ToroVelocityVariation.generic_model(case["cls"], ln_std=case["std"])
        q = dict(zip(NAMES, CLASSES[case["cls"]]))
    np.random.seed(case["seed"])
    x = np.array([[math.log(la.initial_shear_vel) for la in model(prof)][:n] for _ in range(500)])
    t.label("many layers", n >= 20)
    got = np.corrcoef(x.T)
    # readings: the depth of a pair anywhere between its mid-depths, the distance between 0.7 and 1 thickness
    lo, hi = np.full((n, n), 2.0), np.full((n, n), -2.0)
    widest = 0.0
    for fd in (-0.5, 0.0, 0.5):
        for ft in (0.7, 0.85, 1.0):
            for last in (ft, 0.75):
                cs = [stated_corr(q, h * (i + 1 + fd), h * (last if i == n - 2 else ft)) for i in range(n - 1)]
                e = drawn_corr(cs)[:n, :n]
                lo, hi = np.minimum(lo, e), np.maximum(hi, e)
    for i in range(n - 1):
        widest = max(widest, hi[i, i + 1] - lo[i, i + 1])
        assert lo[i, i + 1] - 0.27 <= got[i, i + 1] <= hi[i, i + 1] + 0.27, (
            f"layers {i} and {i + 1} correlate by {got[i, i + 1]:.3f}, the model implies {lo[i, i + 1]:.3f} to {hi[i, i + 1]:.3f}"
        )
    t.nt(widest < 0.6)
    t.label("custom" if case.get("params") else "generic")
    if hi.min() < 0.3:
        t.label("weak")
    if lo.max() > 0.6:
        t.label("strong")


@st.composite
def matrix_case(draw):
    n = draw(st.integers(4, 12))
    return {
        "h": draw(gen.fl(1.0, 60.0, 3)),
        "n": n,
        "std": draw(gen.fl(0.05, 0.6, 3)),
        "seed": draw(gen.seeds()),
        "params": {
            "rho_0": draw(gen.fl(0.0, 1.0, 3)),
            "delta": draw(gen.logf(0.5, 60.0)),
            "rho_200": draw(gen.fl(0.0, 1.0, 3)),
            "h_0": draw(st.just(0.0) | gen.fl(0.0, 60.0, 1)),
            "b": draw(gen.logf(0.05, 2.0)),
        },
        "cls": draw(st.none() | st.sampled_from(sorted(CLASSES))),
    }


def fn_matrix(case, t):
    """The covariance that is sampled, where it can be seen, for layers of one thickness (the model's terms are then settled)."""
    h, n = case["h"], case["n"]
    if case["cls"]:
        model = variation.ToroVelocityVariation.generic_model(case["cls"], ln_std=case["std"])
        q = dict(zip(NAMES, CLASSES[case["cls"]]))
    else:
        q = case["params"]
        model = variation.ToroVelocityVariation(case["std"], q["rho_0"], q["delta"], q["rho_200"], q["h_0"], q["b"])
    soil = ps.site.SoilType("s", 18.0, None, 0.01)
    prof = ps.site.Profile([ps.site.Layer(soil, h, 300.0 + 10 * i) for i in range(n)] + [ps.site.Layer(soil, 0, 1200.0)])
    seen = []
    real = np.random.multivariate_normal

    def record(mean, cov, *a, **k):
        out = real(mean, cov, *a, **k)
        seen.append((np.array(cov, dtype=float), np.array(out)))
        return out

    np.random.seed(case["seed"])
    np.random.multivariate_normal = record
    try:
        varied = model(prof)
    finally:
        np.random.multivariate_normal = real
    if len(seen) != 1 or seen[0][0].shape not in ((n, n), (n + 1, n + 1)):
        t.label("sampled in another way: left to the statistics")
        return
    cov = seen[0][0]
    sd = np.sqrt(np.diag(cov))
    corr = cov / sd / sd[:, None]
    # the last pair of soil layers has half the distance to the half-space in it
    for i in range(n - 2):
        d = h * (i + 1)
        if abs(d - 200) < 1e-6:
            continue
        c = stated_corr(q, d, h)
        assert abs(corr[i, i + 1] - c) < 1e-6 and abs(corr[i + 1, i] - c) < 1e-6, f"layers {i} and {i + 1}: correlation {corr[i, i + 1]}, the model states {c}"
    assert len(varied) == n + 1
    t.nt()
    t.label("deep", h * (n - 2) > 200)


# -------------------------------------------- the truncated normal generator
trunc_case = st.fixed_dictionaries(
    {
        "limit": st.sampled_from([2, 2.0, 1, 3]) | gen.fl(0.3, 5.0, 2),
        "before": st.none() | gen.fl(0.3, 5.0, 2),
        "rho": gen.fl(-0.95, 0.95, 2),
        "seed": gen.seeds(),
        "p": gen.fl(0.001, 0.999, 3),
    }
)


def fn_trunc(case, t):
    """Values of unit standard deviation inside the limits, whatever the limit and however it was set."""
    L, rho, n = case["limit"], case["rho"], 3000
    if case["before"] is None:
        rn = variation.TruncatedNorm(L)
    else:
        rn = variation.TruncatedNorm(case["before"])
        np.random.seed(case["seed"])
        rn(3), rn.correlated(0.1)
        rn.limit = L
        t.label("limit changed")
    assert rn.limit == L
    want = 1 / math.sqrt(1 - 2 * L * math.exp(-L * L / 2) / math.sqrt(2 * math.pi) / math.erf(L / math.sqrt(2)))
    assert abs(rn.scale / want - 1) < 1e-5, f"scale {rn.scale} for the limit {L}, unit standard deviation needs {want}"
    np.random.seed(case["seed"])
    x = rn(n)
    assert np.shape(x) == (n,) and np.all(np.abs(x) <= L * want * (1 + 1e-9)), f"values to {np.abs(x).max()} beyond {L} x {want}"
    assert abs(np.mean(x)) < 6.5 / math.sqrt(n) and abs(np.std(x) - 1) < 6.5 / math.sqrt(2 * n), f"mean {np.mean(x)}, standard deviation {np.std(x)}"
    np.random.seed(case["seed"])
    assert np.array_equal(rn(n), x), "the same seed gave other values"
    pairs = np.array([rn.correlated(rho) for _ in range(400)])
    assert pairs.shape == (400, 2) and np.all(np.abs(pairs) <= L), f"correlated values to {np.abs(pairs).max()} beyond {L}"
    assert np.all(np.abs(pairs.mean(0)) < 6.5 * min(1, L) / 20)
    if abs(rho) > 0.6 and L >= 1.0:
        r = np.corrcoef(pairs.T)[0, 1]
        assert r * rho > 0, f"correlation {r}, requested {rho}"
        if L >= 3:
            assert abs(r - rho) < 0.25, f"correlation {r}, requested {rho}"
            t.label("correlation")
    p = case["p"]
    z = np.asarray(rn.correlated_at_percentile(rho, p), float)
    zm = np.asarray(rn.correlated_at_percentile(rho, 1 - p), float)
    z5 = np.asarray(rn.correlated_at_percentile(rho, 0.5), float)
    assert np.all(np.abs(z) <= L) and np.allclose(z, -zm, atol=1e-6) and np.allclose(z5, 0, atol=1e-9)
    assert z[0] * (p - 0.5) >= 0
    t.nt()
    t.label("narrow" if L < 1 else "wide" if L > 3 else "usual")


# ------------------------------------------------------- generic parameters
def fn_generic(case, t):
    V = variation
    for cls in (V.ToroVelocityVariation, V.DepthDependToroVelVariation):
        assert set(cls.site_classes()) == set(CLASSES)
    want = dict(zip(NAMES, CLASSES[case["cls"]]))
    over = {k: v for k, v in case["over"].items()}
    model = V.ToroVelocityVariation.generic_model(case["cls"], **over, vary_bedrock=case["bed"])
    for k in NAMES:
        assert getattr(model, k) == over.get(k, want[k]), f"{case['cls']}: {k} = {getattr(model, k)}"
    assert model.vary_bedrock == case["bed"]
    # an override does not stay
    model = V.ToroVelocityVariation.generic_model(case["cls"])
    for k in NAMES:
        assert getattr(model, k) == want[k], f"{case['cls']}: {k} = {getattr(model, k)} after an override"
    assert model.vary_bedrock is False
    over.pop("ln_std", None)
    model = V.DepthDependToroVelVariation.generic_model(case["cls"], **over)
    assert list(model.depth) == [0, 15] and list(model.ln_std) == [0.25, 0.15]
    for k in NAMES[1:]:
        assert getattr(model, k) == over.get(k, want[k]), f"{case['cls']}: {k}"
    vs30 = case["vs30"]
    site_class = "USGS " + ("D" if vs30 < 180 else "C" if vs30 < 360 else "B" if vs30 < 750 else "A")
    assert V.ToroVelocityVariation.usgs_site_class(vs30) == site_class
    t.nt()
    t.label(site_class)


generic_case = st.fixed_dictionaries(
    {
        "cls": st.sampled_from(sorted(CLASSES)),
        "over": st.dictionaries(st.sampled_from(NAMES), st.just(0.0) | gen.fl(0.01, 1.0, 3), max_size=3),
        "bed": st.booleans(),
        "vs30": gen.logf(60.0, 2000.0).filter(lambda v: min(abs(v - x) for x in (180, 360, 750)) > 0.01) | st.sampled_from([179, 181, 359, 361, 749, 751]),
    }
)


SUBS = [
    Sub("realizations", case_, fn, 1000),
    Sub("centring", stat_case, fn_stat, 150),
    Sub("correlation", corr_case, fn_corr, 120),
    Sub("matrix", matrix_case, fn_matrix, 300),
    Sub("truncated normal", trunc_case, fn_trunc, 150),
    Sub("generic", generic_case, fn_generic, 300),
]
