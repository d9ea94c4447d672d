"""Strategies for plain-data cases, and builders turning them into objects.

Profiles:  {"soils": [soil...], "layers": [{"s","h","vs","dm"}...], "wt": m}
soil:      {"n": name, "uw": kN/m3, "mr": None|[strains, values], "d": float|[strains, values]}
Motions:   {"kind": "ts", ...} | {"kind": "rvt", ...} | {"kind": "freqs", "f": [...]}
"""

import math

import numpy as np
from hypothesis import strategies as st

GRAV = 9.80665


def r(x, sig=6):
    return float(f"{x:.{sig}g}")


def fl(a, b, sig=6):
    """Uniform-ish float in [a, b] with few digits."""
    return st.floats(a, b, allow_nan=False, allow_infinity=False).map(
        lambda x: min(max(r(x, sig), a), b)
    )


def logf(a, b, sig=5):
    """Float in [a, b], uniform-ish in log space."""
    la, lb = math.log(a), math.log(b)
    return st.floats(la, lb, allow_nan=False).map(
        lambda x: min(max(r(math.exp(x), sig), a), b)
    )


def seeds():
    return st.integers(0, 2**31 - 1)


# ---------------------------------------------------------------- curves
STRAIN_GRID = [1e-6, 3e-6, 1e-5, 3e-5, 1e-4, 3e-4, 1e-3, 3e-3, 1e-2, 3e-2]


@st.composite
def hyperbolic(draw, kinds=("mr", "d")):
    """Smooth, realistic modulus-reduction and damping curves."""
    ref = draw(logf(1e-4, 5e-3))
    a = draw(fl(0.7, 1.3, 4))
    dmin = draw(fl(0.003, 0.05, 4))
    dmax = draw(fl(0.08, 0.25, 4))
    x = STRAIN_GRID
    mr = [r(1 / (1 + (s / ref) ** a), 8) for s in x]
    d = [r(dmin + dmax * (1 - m) ** 1.2, 8) for m in mr]
    return mr, d


@st.composite
def soil(draw, nonlinear="mixed", dmin=0.0, dmax=0.1, name=None, idx=0):
    """nonlinear: 'no', 'yes', 'mixed' (any of linear/both/modulus only/damping only)"""
    uw = draw(fl(12.0, 26.0, 4))
    kind = {
        "no": st.just("lin"),
        "yes": st.just("both"),
        "mixed": st.sampled_from(["lin", "both", "both", "mr", "d"]),
    }[nonlinear]
    kind = draw(kind)
    dm = draw(fl(dmin, dmax, 4))
    mr, d = None, dm
    if kind != "lin":
        cmr, cd = draw(hyperbolic())
        if kind in ("both", "mr"):
            mr = [STRAIN_GRID, cmr]
        if kind in ("both", "d"):
            d = [STRAIN_GRID, cd]
    return {"n": name or f"soil-{idx}", "uw": uw, "mr": mr, "d": d}


@st.composite
def profiles(
    draw,
    min_layers=1,
    max_layers=7,
    nonlinear="no",
    dmin=0.0,
    dmax=0.1,
    hmin=0.5,
    hmax=60.0,
    vmin=80.0,
    vmax=2500.0,
    shared=True,
    hs_linear=True,
    hs_thick=True,
    wt=True,
    dm_override=True,
    smooth=False,
):
    """A profile of min..max layers above a half-space."""
    n = draw(st.integers(min_layers, max_layers))
    n_soil = draw(st.integers(1, n)) if shared else n
    soils = [
        draw(soil(nonlinear=nonlinear, dmin=dmin, dmax=dmax, idx=i))
        for i in range(n_soil)
    ]
    layers = []
    base = draw(logf(vmin, min(vmax, 600.0)))
    for i in range(n):
        s = draw(st.integers(0, n_soil - 1)) if shared else i
        if smooth:
            base = min(max(r(base * draw(fl(0.8, 1.7, 3)), 5), vmin), vmax)
            vs = base
        else:
            vs = draw(logf(vmin, vmax))
        layers.append(
            {
                "s": s,
                "h": draw(logf(hmin, hmax)),
                "vs": vs,
                "dm": draw(st.none() | fl(max(dmin, 0.0), dmax, 4))
                if dm_override
                else None,
            }
        )
    soils.append(
        draw(
            soil(
                nonlinear="no" if hs_linear else nonlinear,
                dmin=dmin,
                dmax=min(dmax, 0.05) if dmax > dmin else dmax,
                name="bedrock",
            )
        )
    )
    layers.append(
        {
            "s": len(soils) - 1,
            "h": draw(st.sampled_from([0, 0, 0, 5.0])) if hs_thick else 0,
            "vs": draw(logf(max(vmin, 300.0), 3500.0)),
            "dm": draw(st.sampled_from([None, None, 1])) and draw(fl(max(dmin, 0.0), dmax, 4)) if dm_override else None,
        }
    )
    wtd = draw(st.just(0.0) | fl(0.0, 80.0, 4)) if wt else 0.0
    return {"soils": soils, "layers": layers, "wt": wtd}


def total_depth(p):
    return sum(la["h"] for la in p["layers"][:-1])


def depth_tops(p):
    out, d = [], 0.0
    for la in p["layers"]:
        out.append(d)
        d += la["h"]
    return out


def locations(max_frac=1.0, wave_fields=("outcrop", "within", "incoming_only")):
    """A location as (fraction of layers, fraction within the layer, wave field)."""
    return st.fixed_dictionaries(
        {
            "li": st.floats(0, 1, width=32),
            "z": st.sampled_from([0.0, 0.0, 0.5]) | st.floats(0, max_frac, width=32),
            "wf": st.sampled_from(list(wave_fields)),
        }
    )


def resolve(loc, p):
    """(index, depth within) of a location case inside profile case p."""
    n = len(p["layers"])
    i = min(int(loc["li"] * n), n - 1)
    h = p["layers"][i]["h"]
    if i == n - 1:
        h = 7.0  # depth into the half-space
    return i, loc["z"] * h


def make_location(ps, prof, p, loc):
    i, z = resolve(loc, p)
    return ps.site.Location(i, prof[i], loc["wf"], z)


# ---------------------------------------------------------------- builders
def build_soil(ps, s):
    mr = s["mr"]
    d = s["d"]
    if mr is not None:
        mr = ps.site.ModulusReductionCurve(s["n"], np.array(mr[0]), np.array(mr[1]))
    if isinstance(d, (list, tuple)):
        d = ps.site.DampingCurve(s["n"], np.array(d[0]), np.array(d[1]))
    # What is not given is linear and undamped
    args = [s["n"], s["uw"], mr, d]
    while args[-1] is None or (len(args) == 4 and isinstance(d, float) and d == 0):
        args.pop()
    return ps.site.SoilType(*args)


def build_layers(ps, p):
    soils = [build_soil(ps, s) for s in p["soils"]]
    return [
        ps.site.Layer(soils[la["s"]], la["h"], la["vs"], la["dm"])
        for la in p["layers"]
    ]


def build_profile(ps, p):
    return ps.site.Profile(build_layers(ps, p), *([p["wt"]] if p["wt"] else []))


def layer_damping_min(p, la):
    if la["dm"] is not None:
        return la["dm"]
    d = p["soils"][la["s"]]["d"]
    return d[1][0] if isinstance(d, (list, tuple)) else d


# ---------------------------------------------------------------- motions
@st.composite
def freq_vectors(draw, fmin=0.05, fmax=60.0, max_size=12, zero=True):
    if zero and draw(st.integers(0, 3)) == 0:
        # far below the resonances
        fmin = fmin / 100
    f = draw(st.lists(logf(fmin, fmax), min_size=1, max_size=max_size, unique=True))
    f = sorted(f)
    if zero and draw(st.booleans()):
        f = [0.0] + f
    return f


@st.composite
def ts_motions(draw, nmin=16, nmax=256, pga=(0.001, 1.0), fa=True):
    n = draw(st.integers(nmin, nmax))
    return {
        "kind": "ts",
        "n": n,
        "dt": draw(st.sampled_from([0.005, 0.01, 0.02, 0.04])),
        "seed": draw(st.integers(0, 9999)),
        "f0": draw(logf(0.5, 8.0, 3)),
        "pga": draw(logf(pga[0], pga[1], 4)),
        "fa": draw(st.none() | st.one_of(st.integers(n, 2 * n), st.integers(n, 2 * n), st.integers(2 * n, 4 * n)).map(lambda k: 2 * ((k + 1) // 2)))
        if fa
        else None,
    }


def ts_accels(m):
    """Deterministic expansion of a motion case into an acceleration record."""
    n = m["n"]
    rng = np.random.RandomState(m["seed"])
    t = np.arange(n) * m["dt"]
    env = np.sin(np.pi * (np.arange(n) + 0.5) / n) ** 2
    a = env * (
        np.sin(2 * np.pi * m["f0"] * t + 6.28 * rng.rand())
        + 0.5 * rng.standard_normal(n)
    )
    a -= a.mean()
    mx = np.abs(a).max()
    return a / mx * m["pga"] if mx > 0 else a


@st.composite
def rvt_motions(draw, amp=(1e-4, 0.2)):
    return {
        "kind": "rvt",
        "fmin": draw(st.sampled_from([0.05, 0.1])),
        "fmax": draw(st.sampled_from([25.0, 50.0, 100.0])),
        "nf": draw(st.integers(40, 120)),
        "fc": draw(logf(0.2, 5.0, 3)),
        "kappa": draw(fl(0.005, 0.06, 3)),
        "amp": draw(logf(*amp, 4)),
        "dur": draw(logf(2.0, 40.0, 3)),
    }


def rvt_fas(m):
    f = np.geomspace(m["fmin"], m["fmax"], m["nf"])
    fas = m["amp"] * (f / m["fc"]) ** 2 / (1 + (f / m["fc"]) ** 2)
    fas = fas * np.exp(-np.pi * m["kappa"] * f)
    return f, fas


def build_motion(ps, m):
    if m["kind"] == "ts":
        return ps.motion.TimeSeriesMotion(
            "f", "d", m["dt"], ts_accels(m), fa_length=m["fa"]
        )
    if m["kind"] == "rvt":
        f, fas = rvt_fas(m)
        return ps.motion.RvtMotion(f, fas, duration=m["dur"])
    return ps.motion.Motion(np.array(m["f"]))


# ---------------------------------------------------------------- oracle help
def close(a, b, rtol=1e-7, atol=0.0, what=""):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, f"{what}: shape {a.shape} != {b.shape}"
    bad_nan = np.isnan(a) != np.isnan(b)
    with np.errstate(all="ignore"):
        ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True) & ~bad_nan
    if not np.all(ok):
        i = np.unravel_index(np.argmin(ok), ok.shape) if ok.ndim else ()
        raise AssertionError(
            f"{what}: {a[i]!r} != {b[i]!r} at {i} (rtol={rtol}, atol={atol})"
        )


# ---------------------------------------------------------------- large cases
@st.composite
def big_profiles(draw, nmin=12, nmax=150, dmax=0.08, n_soils=5, nonlinear="no", depth=(10.0, 600.0)):
    """A short description of a profile with many layers; see expand_profile."""
    k = draw(st.integers(1, n_soils))
    return {
        "n": draw(st.integers(nmin, nmax)),
        "seed": draw(seeds()),
        "depth": draw(logf(*depth)),
        "soils": [draw(soil(nonlinear=nonlinear, dmin=0.001, dmax=dmax, idx=i)) for i in range(k)],
        "rock": draw(soil(nonlinear="no", dmin=0.001, dmax=0.03, name="bedrock")),
        "vs": [draw(logf(90.0, 300.0)), draw(logf(300.0, 1500.0)), draw(logf(600.0, 3500.0))],
        "scatter": draw(st.sampled_from([0.0, 0.1, 0.4])),
        "even": draw(st.booleans()),
        "override": draw(st.booleans()),
        "wt": draw(st.just(0.0) | fl(0.0, 80.0, 4)),
    }


def expand_profile(b):
    """The profile case a large profile stands for."""
    n = b["n"]
    rng = np.random.RandomState(b["seed"])
    h = np.ones(n) if b["even"] else rng.uniform(0.2, 2.0, n)
    h *= b["depth"] / h.sum()
    v = np.geomspace(b["vs"][0], b["vs"][1], n) * np.exp(b["scatter"] * rng.standard_normal(n))
    which = rng.randint(0, len(b["soils"]), n)
    dm = [r(x, 4) if b["override"] and rng.rand() < 0.3 else None for x in rng.uniform(0.002, 0.06, n)]
    layers = [
        {"s": int(which[i]), "h": r(h[i], 8), "vs": r(v[i], 8), "dm": dm[i]} for i in range(n)
    ]
    layers.append({"s": len(b["soils"]), "h": 0, "vs": b["vs"][2], "dm": None})
    return {"soils": b["soils"] + [b["rock"]], "layers": layers, "wt": b["wt"]}


def with_big(small, nmax=40, every=12, **kw):
    """Mostly the given profiles, now and then one with many layers."""
    big = big_profiles(nmin=8, nmax=nmax, **kw).map(expand_profile)
    return st.integers(1, every).flatmap(lambda k: big if k == every else small)
