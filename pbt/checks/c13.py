"""C13: nonlinear curves."""

import json
import tomllib
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

import pystrata as ps

from .. import gen, ref
from ..core import Sub

RULE = (
    "random increasing strain grids, arbitrary values and limits, scalar and array queries inside, at the points and far "
    "outside the grid, and re-assignment of strains and values; every published model enumerated; non-trivial = queries "
    "on both sides of at least one interior point"
)
ASSUMPTIONS = ["strains are positive and increasing; queries below 1e-9 are treated as 1e-9"]


def warmup():
    pass


@st.composite
def grid(draw):
    n = draw(st.integers(2, 10))
    steps = draw(st.lists(gen.logf(1.05, 20.0, 4), min_size=n - 1, max_size=n - 1))
    x = [draw(gen.logf(1e-8, 1e-3, 4))]
    for s in steps:
        x.append(x[-1] * s)
    return x


@st.composite
def values_(draw, n, wild):
    lo, hi = (-0.5, 1.5) if wild else (0.01, 0.45)
    return draw(st.lists(gen.fl(lo, hi, 5), min_size=n, max_size=n))


@st.composite
def case_(draw):
    x = draw(grid())
    wild = draw(st.booleans())
    ops = []
    n = len(x)
    for _ in range(draw(st.integers(0, 3))):
        kind = draw(st.sampled_from(["values", "strains"]))
        if kind == "values":
            ops.append(["values", draw(values_(n, wild))])
        else:
            f = draw(gen.logf(0.1, 10.0, 4))
            ops.append(["strains", [v * f for v in x]])
    return {
        "cls": draw(st.sampled_from(["ModulusReductionCurve", "DampingCurve"])),
        "x": x,
        "y": draw(values_(n, wild)),
        "limits": draw(st.none() | st.tuples(gen.fl(0.0, 0.2, 3), gen.fl(0.3, 1.0, 3))),
        "q": draw(st.lists(st.floats(-0.25, 1.25, width=32), min_size=1, max_size=8)),
        "extra": draw(st.sampled_from([0.0, 1e-12, 1e-9, 1.0, 100.0])),
        "as_list": draw(st.booleans()),
        "ops": ops,
    }


DEFAULT = {"ModulusReductionCurve": (0.001, 1), "DampingCurve": (0, 0.49)}


def fn(case, t):
    conv = list if case["as_list"] else np.array
    args = ("curve", conv(case["x"]), conv(case["y"]))
    cls = getattr(ps.site, case["cls"])
    limits = tuple(case["limits"]) if case["limits"] else DEFAULT[case["cls"]]
    curve = cls(*args, limits=limits) if case["limits"] else cls(*args)
    assert curve.param == {"ModulusReductionCurve": "mod_reduc", "DampingCurve": "damping"}[case["cls"]]
    x, y = list(case["x"]), list(case["y"])

    def compare():
        lx = np.log(x)
        q = np.exp(lx[0] + np.array(case["q"]) * (lx[-1] - lx[0]))
        q = np.concatenate([q, x, [case["extra"]]])
        want = ref.curve(x, y, limits, q)
        gen.close(curve(q), want, rtol=1e-9, atol=1e-9, what="curve (array)")
        for a, b in zip(q, want):
            got = curve(a)
            assert np.ndim(got) == 0, "scalar in, scalar out"
            gen.close(float(got), b, rtol=1e-9, atol=1e-9, what="curve (scalar)")
        assert np.all(curve(q) >= limits[0]) and np.all(curve(q) <= limits[1])
        gen.close(curve.strains, x, rtol=1e-12, what="strains")
        gen.close(curve.values, y, rtol=1e-12, what="values")

    compare()
    for what, new in case["ops"]:
        setattr(curve, what, conv(new))
        if what == "values":
            y = list(new)
        else:
            x = list(new)
        compare()
        t.label("re-assigned " + what)
    inside = [v for v in case["q"] if 0 < v < 1]
    t.nt(len(x) > 2 and len(inside) > 1)
    t.label(case["cls"])


@st.composite
def column_case(draw):
    x = draw(grid())
    k = draw(st.integers(1, 6))
    wild = draw(st.booleans())
    return {
        "x": x,
        "y": draw(st.lists(values_(len(x), wild), min_size=k, max_size=k)),
        "new": draw(st.none() | st.lists(values_(len(x), wild), min_size=k, max_size=k)),
        "scale": draw(st.none() | gen.logf(0.1, 10.0, 4)),
        "q": draw(st.lists(st.floats(-0.25, 1.25, width=32), min_size=k, max_size=k)),
    }


def fn_columns(case, t):
    """Damping with one column per frequency: column j at strain j."""
    x, y = np.array(case["x"]), np.array(case["y"]).T
    curve = ps.site.DampingCurve("columns", x, y)

    def compare():
        lx = np.log(x)
        q = np.exp(lx[0] + np.array(case["q"]) * (lx[-1] - lx[0]))
        want = [float(ref.curve(x, y[:, j], ref.D_LIMITS, q[j])) for j in range(y.shape[1])]
        gen.close(curve(q), want, rtol=1e-9, atol=1e-9, what="own strain per column")
        want = [float(ref.curve(x, y[:, j], ref.D_LIMITS, q[0])) for j in range(y.shape[1])]
        gen.close(curve(q[0]), want, rtol=1e-9, atol=1e-9, what="same strain in all columns")

    compare()
    if case["new"] is not None:
        y = np.array(case["new"]).T
        curve.values = y
        compare()
    if case["scale"] is not None:
        x = x * case["scale"]
        curve.strains = x
        compare()
    t.nt(len({round(v, 6) for v in case["q"]}) > 1)
    t.label(f"{y.shape[1]} columns")


def database():
    path = Path(ps.site.__file__).parent / "data" / "published_curves.toml"
    with path.open("rb") as fp:
        return tomllib.load(fp)["models"]


@st.composite
def published_case(draw):
    return {
        "i": draw(st.integers(0, 10_000)),
        "j": draw(st.none() | st.integers(0, 10_000)),
        "uw": draw(gen.fl(12, 25, 4)),
        "q": draw(st.lists(gen.logf(1e-7, 0.3), min_size=1, max_size=6)),
        "spoil": draw(st.sampled_from([None, "values", "strains", "in place", "soil"])),
    }


def spoil(how, models, m, par, uw):
    """The user changes a published curve for the purposes of one soil."""
    if how == "soil":
        curve = getattr(ps.site.SoilType.from_published("other", uw, m["name"]), par) if "mod_reduc" in m and "damping" in m else None
    else:
        curve = ps.site.NonlinearCurve.from_published(m["name"], par)
    if curve is None:
        return
    if how == "strains":
        curve.strains = np.array(curve.strains) * 2
    elif how == "in place":
        curve.values[:] = 0.25
        curve.strains[0] *= 0.5
    else:
        curve.values = np.array(curve.values) * 0.5


def fn_published(case, t):
    models = database()
    assert ps.site.known_published_curves() == [m["name"] for m in models]
    m = models[case["i"] % len(models)]
    d = m if case["j"] is None else models[case["j"] % len(models)]
    if "mod_reduc" not in m or "damping" not in d:
        t.reject("model without that parameter")
    if case.get("spoil"):
        spoil(case["spoil"], models, m, "mod_reduc", case["uw"])
        spoil(case["spoil"], models, d, "damping", case["uw"])
        t.label("a curve of the model was changed before")
    if case["j"] is None:
        soil = ps.site.SoilType.from_published("clay", case["uw"], m["name"])
    else:
        soil = ps.site.SoilType.from_published("clay", case["uw"], m["name"], d["name"])
    assert soil.name == "clay" and soil.unit_wt == case["uw"] and soil.is_nonlinear
    for curve, tab, lim, par in (
        (soil.mod_reduc, m["mod_reduc"], ref.MR_LIMITS, "mod_reduc"),
        (soil.damping, d["damping"], ref.D_LIMITS, "damping"),
        (ps.site.NonlinearCurve.from_published(m["name"], "mod_reduc"), m["mod_reduc"], ref.MR_LIMITS, "mod_reduc"),
        (ps.site.NonlinearCurve.from_published(d["name"], "damping"), d["damping"], ref.D_LIMITS, "damping"),
    ):
        assert curve.param == par
        gen.close(curve.strains, np.array(tab["strains"], dtype=float), rtol=1e-12, what="tabulated strains")
        gen.close(curve.values, np.array(tab["values"], dtype=float), rtol=1e-12, what="tabulated values")
        gen.close(curve(case["q"]), ref.curve(tab["strains"], tab["values"], lim, case["q"]), rtol=1e-9, atol=1e-12, what="published curve")
    gen.close(soil.damping_min, d["damping"]["values"][0], rtol=1e-12, what="minimum damping")
    gen.close(soil.density, case["uw"] / gen.GRAV, rtol=1e-12, what="density")
    gen.close(soil.quality, 1 / (2 * d["damping"]["values"][0]), rtol=1e-12, what="quality")
    t.nt()
    t.label("mixed models", d is not m)


def fn_snapshot(case, t):
    """Published curves are data from the literature: those recorded when this
    check was written have to keep their values."""
    with (Path(__file__).parents[1] / "data" / "published_curves.json").open() as fp:
        snap = json.load(fp)
    known = ps.site.known_published_curves()
    for name, pars in snap.items():
        assert name in known, f"published model {name!r} disappeared"
        for par, tab in pars.items():
            c = ps.site.NonlinearCurve.from_published(name, par)
            gen.close(c.strains, np.array(tab["strains"], dtype=float), rtol=1e-6, what=f"{name} {par} strains")
            gen.close(c.values, np.array(tab["values"], dtype=float), rtol=1e-6, what=f"{name} {par} values")
    t.nt()


def fn_database(case, t):
    """Every tabulated curve is usable: increasing strains, decimal values."""
    for m in database():
        for par in ("mod_reduc", "damping"):
            if par not in m:
                continue
            x = np.array(m[par]["strains"], dtype=float)
            y = np.array(m[par]["values"], dtype=float)
            assert x.shape == y.shape and np.all(np.diff(x) > 0) and x[0] > 0, (m["name"], par)
            assert np.all(y >= 0) and np.all(y <= (1.0 if par == "mod_reduc" else 0.5)), (m["name"], par)
            c = ps.site.NonlinearCurve.from_published(m["name"], par)
            gen.close(c(x), np.clip(y, *(ref.MR_LIMITS if par == "mod_reduc" else ref.D_LIMITS)), rtol=1e-9, what=m["name"])
    t.nt()


SUBS = [
    Sub("curves", case_, fn, 2000),
    Sub("columns", column_case, fn_columns, 600),
    Sub("published", published_case, fn_published, 600),
    Sub("snapshot", st.just({}), fn_snapshot, 1, 1),
    Sub("database", st.just({}), fn_database, 1, 1),
]
