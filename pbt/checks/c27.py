"""C27: randomization never disturbs the seed and is reproducible."""

import numpy as np
from hypothesis import strategies as st
from scipy import stats

import pystrata as ps
from pystrata import variation

from .. import gen
from ..core import Sub
from .c06 import warmup  # noqa: F401
from .c07 import same_snapshot, snapshot
from .c24 import Fixed, params
from .c25 import build_model, model_case
from .c26 import build_var, curve_values, snap, same_snap, var_case

RULE = (
    "generated interleavings of drawing realizations (any combination of thickness, bedrock-depth, velocity and soil-type "
    "variation, from a fresh or already analysed seed), analysing and editing realizations and the seed; snapshots of seed and all other "
    "realizations compared after every step, then the draws are repeated from the same random state without the analyses; "
    "non-trivial = at least two realizations and one analysis or edit between draws"
)
ASSUMPTIONS = ["soil types of realizations are not edited in place by the user"]


@st.composite
def case_(draw):
    has = {k: draw(st.booleans()) for k in ("toro", "depth", "vel", "soil")}
    soil = draw(var_case())
    npct = len(soil["pct"]) if "pct" in soil else 1
    count = draw(st.integers(1, 3)) * (npct if has["soil"] else 1)
    count = min(count, 6) if not (has["soil"] and npct > 1) else npct
    if draw(st.integers(0, 19)) == 0:
        count = 0
    step = st.one_of(
        st.just({"op": "draw"}),
        st.just({"op": "draw"}),
        st.fixed_dictionaries(
            {
                "op": st.just("run"),
                "j": st.integers(0, 5),
                "calc": st.sampled_from(["LE", "EQL", "EQL", "FDM", "QWL"]),
                "on": st.sampled_from(["real", "real", "seed"]),
            }
        ),
        st.fixed_dictionaries({"op": st.just("disc"), "j": st.integers(0, 5)}),
        st.fixed_dictionaries(
            {"op": st.just("edit"), "j": st.integers(0, 5), "li": st.integers(0, 5), "what": st.sampled_from(["vs", "dm", "h"]), "f": gen.fl(0.6, 1.5, 2)}
        ),
    )
    return {
        "p": draw(gen.profiles(nonlinear="mixed", max_layers=4, dmin=0.005, dmax=0.06, hmax=25.0, vmin=100.0, vmax=900.0)),
        "m": draw(gen.ts_motions(nmin=32, nmax=64, pga=(0.01, 0.5))),
        "toro": draw(params()) if has["toro"] else None,
        "depth": draw(gen.fl(0.3, 2.5, 3)) if has["depth"] else None,
        "spread": draw(st.none() | gen.fl(0.1, 1.0, 2)),
        "vel": draw(model_case()) if has["vel"] else None,
        "soil": soil if has["soil"] else None,
        "count": count,
        "direct": draw(st.booleans()),
        "seed": draw(gen.seeds()),
        "used": draw(st.booleans()),
        "steps": draw(st.lists(step, min_size=3, max_size=10)),
    }


def run(name, mot, prof):
    pr = ps.propagation
    if name == "LE":
        calc = pr.LinearElasticCalculator()
    elif name == "QWL":
        calc = pr.QuarterWaveLenCalculator(site_atten=0.03)
    elif name == "EQL":
        calc = pr.EquivalentLinearCalculator(strain_limit=None, max_iterations=4)
    else:
        calc = pr.FrequencyDependentEqlCalculator("zr15", strain_limit=None, max_iterations=2)
    if name == "QWL":
        mot = ps.motion.Motion(np.geomspace(0.5, 30, 8))
    try:
        calc(mot, prof, prof.location("outcrop", index=-1))
    except RuntimeError:
        # strong velocity inversions are refused by the quarter-wavelength method
        if name != "QWL":
            raise


def realizations(case, prof):
    """The generator of realizations, with the half-space depth varied first."""
    depth = None
    if case["depth"] is not None:
        D = gen.total_depth(case["p"])
        if case.get("spread"):
            # drawn from the random state
            dist = stats.uniform(case["depth"] * D, case["spread"] * D)
        else:
            dist = Fixed(case["depth"] * D)
        depth = variation.HalfSpaceDepthVariation(dist)
    kw = {}
    if case["toro"] is not None:
        kw["var_thickness"] = variation.ToroThicknessVariation(**case["toro"])
    if case["vel"] is not None:
        kw["var_velocity"] = build_model(case["vel"])
    if case["soil"] is not None:
        kw["var_soiltypes"] = build_var(case["soil"])
    base = depth(prof) if depth else prof
    if case["direct"]:
        # the models called on the seed without a copy before
        def direct():
            for i in range(case["count"]):
                v = base
                if case["toro"] is not None:
                    v = kw["var_thickness"](v)
                if case["vel"] is not None:
                    v = kw["var_velocity"](v)
                if case["soil"] is not None:
                    v = kw["var_soiltypes"].vary_profile(v, **({"sample_index": i % len(case["soil"]["pct"])} if "pct" in case["soil"] else {}))
                yield v if v is not base else base.copy()

        return base, direct()
    return base, variation.iter_varied_profiles(base, case["count"], **kw)


def materials(prof):
    return [snap(la.soil_type) for la in prof]


def same_materials(a, b, what):
    assert len(a) == len(b), what
    for x, y in zip(a, b):
        same_snap(x, y)


def plain(prof):
    """What a realization is, before any analysis."""
    return [prof.wt_depth] + [
        (la.thickness, la.initial_shear_vel, la.damping_min, la.soil_type.name, la.soil_type.unit_wt)
        + tuple(None if c is None else tuple(c) for c in (curve_values(la.soil_type.mod_reduc), curve_values(la.soil_type.damping)))
        for la in prof
    ]


def fn(case, t):
    p = case["p"]
    D = gen.total_depth(p)
    if case["depth"] is not None and min(abs(case["depth"] * D - x) for x in gen.depth_tops(p)) < 1e-6 * D:
        t.reject("at an interface")
    mot = gen.build_motion(ps, case["m"])
    prof = gen.build_profile(ps, p)
    if case["used"]:
        run("EQL", mot, prof)
    np.random.seed(case["seed"])
    watched = {"seed": prof}
    shots, mats = {"seed": snapshot(prof)}, {"seed": materials(prof)}
    base, it = realizations(case, prof)
    assert same_snapshot(snapshot(prof), shots["seed"]), "seed changed by varying the depth of its half-space"
    assert base is prof or not {id(la) for la in base} & {id(la) for la in prof}, "a layer of the seed in the varied profile"
    watched["base"] = base
    shots["base"], mats["base"] = snapshot(base), materials(base)
    drawn, first = [], []
    between = 0

    def verify(changed=None):
        for k, v in watched.items():
            if k == changed or (v is watched.get(changed)):
                shots[k] = snapshot(v)
            else:
                assert same_snapshot(snapshot(v), shots[k]), f"{k} changed"
            same_materials(materials(v), mats[k], f"soil types of {k} changed")

    def one():
        try:
            v = next(it)
        except StopIteration:
            return False
        first.append(plain(v))
        assert all(v is not w for w in watched.values()), "the realization is not a new profile"
        own = {id(la) for la in v}
        assert not any(id(la) in own for w in watched.values() for la in w), "a layer is shared with another profile"
        drawn.append(v)
        key = f"realization {len(drawn)}"
        watched[key] = v
        shots[key] = snapshot(v)
        mats[key] = materials(v)
        # a realization starts unstrained
        for la in v:
            assert la.shear_mod == la.initial_shear_mod or np.allclose(la.shear_mod, la.initial_shear_mod), "modulus of a new realization"
        return True

    for s in case["steps"]:
        if s["op"] == "draw":
            one()
            verify()
            continue
        if s["op"] == "run" and s["on"] == "seed":
            if case["vel"] is None and case["toro"] is None:
                t.label("seed analysed between draws")
            run(s["calc"], mot, prof)
            between += bool(drawn)
            verify("seed")
            continue
        if not drawn:
            continue
        j = s["j"] % len(drawn)
        key = f"realization {j + 1}"
        if s["op"] == "run":
            run(s["calc"], mot, drawn[j])
        elif s["op"] == "disc":
            d = drawn[j].auto_discretize(8.0, 0.3)
            run("EQL", mot, d)
            verify()
            continue
        else:
            la = drawn[j][s["li"] % (len(drawn[j]) - 1)]
            if s["what"] == "vs":
                la.initial_shear_vel = la.initial_shear_vel * s["f"]
            elif s["what"] == "dm":
                la.damping_min = la.damping_min * s["f"]
            else:
                la.thickness = la.thickness * s["f"]
        between += 1
        verify(key)
    while one():
        pass
    verify()
    assert len(drawn) == case["count"], f"{len(drawn)} realizations, {case['count']} requested"
    # again from the same random state
    np.random.seed(case["seed"])
    fresh = gen.build_profile(ps, p)
    _, it = realizations(case, fresh)
    again = [plain(v) for v in it]
    assert again == first, "the random state does not reproduce the realizations"
    t.nt(len(drawn) >= 2 and between > 0)
    for k in ("toro", "depth", "vel", "soil"):
        t.label(k, case[k] is not None)


SUBS = [Sub("interleavings", case_, fn, 1000)]
