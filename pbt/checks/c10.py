"""C10: geometry and overburden bookkeeping under edits."""

import numpy as np
from hypothesis import strategies as st

import pystrata as ps

from .. import gen
from ..core import Sub

RULE = (
    "random histories (up to 14 steps) of appending, inserting (any index), removing and resizing layers of a profile "
    "with distinct or identical layers, compared with a list model after every step; non-trivial = at least three "
    "layers and an edit that is not at the end of the profile"
)
ASSUMPTIONS = ["a Layer object is used once and in one profile only"]


def warmup():
    pass


@st.composite
def layer_(draw, pool):
    # from a small pool of values, so that identical layers are common
    return {
        "s": draw(st.integers(0, pool - 1)),
        "h": draw(st.sampled_from([5.0, 5.0, 10.0]) | gen.logf(0.1, 100.0)),
        "vs": draw(st.sampled_from([200.0, 200.0, 400.0])),
    }


@st.composite
def case_(draw):
    pool = draw(st.integers(1, 3))
    la = layer_(pool)
    step = st.one_of(
        st.fixed_dictionaries({"op": st.just("append"), "la": la}),
        st.fixed_dictionaries({"op": st.just("insert"), "i": st.integers(-7, 7), "la": la}),
        st.fixed_dictionaries(
            {"op": st.just("h"), "i": st.integers(0, 9), "h": st.sampled_from([5.0, 10.0, 0.0]) | gen.logf(0.1, 100.0)}
        ),
        st.fixed_dictionaries({"op": st.just("pop"), "i": st.integers(0, 9)}),
        st.fixed_dictionaries({"op": st.just("wt"), "wt": gen.fl(0.0, 60.0, 4)}),
        st.fixed_dictionaries({"op": st.just("copy")}),
    )
    return {
        "uw": draw(st.lists(gen.fl(12.0, 26.0, 4), min_size=pool, max_size=pool)),
        "same_name": draw(st.booleans()),
        "first": draw(st.lists(la, max_size=4)),
        "wt": draw(st.sampled_from([0.0, 5.0, 1000.0]) | gen.fl(0.0, 60.0, 4)),
        "by_append": draw(st.booleans()),
        "steps": draw(st.lists(step, max_size=14)),
        "z": draw(st.lists(st.floats(0, 1, width=32), min_size=3, max_size=3)),
        "k0": draw(st.sampled_from([0.5, 1.0]) | gen.fl(0.2, 2.0, 3)),
    }


def compare(prof, model, wt, case):
    assert len(prof) == len(model)
    top = weight = 0.0
    tol = 1e-9
    tops = []
    for i, ((la, s, h, vs), layer) in enumerate(zip(model, prof)):
        assert layer is la, ("order of layers", i)
        uw = case["uw"][s]
        assert layer.thickness == h
        gen.close(layer.depth, top, rtol=tol, atol=1e-9, what=f"top of layer {i}")
        gen.close(layer.depth_mid, top + h / 2, rtol=tol, atol=1e-9, what=f"middle of layer {i}")
        gen.close(layer.depth_base, top + h, rtol=tol, atol=1e-9, what=f"base of layer {i}")
        gen.close(layer.stress_vert(), weight, rtol=tol, atol=1e-9, what=f"overburden of layer {i}")
        for z in case["z"] + [1.0]:
            z = z * h
            total = weight + z * uw
            pore = gen.GRAV * max(top + z - wt, 0.0)
            gen.close(layer.stress_vert(z), total, rtol=tol, atol=1e-9, what="total stress")
            gen.close(layer.stress_vert(z, effective=True), total - pore, rtol=tol, atol=1e-8 * total + 1e-9, what="effective stress")
            gen.close(prof.pore_pressure(top + z), pore, rtol=tol, atol=1e-8, what="pore pressure")
            f = (1 + 2 * case["k0"]) / 3
            gen.close(layer.stress_mean(z, False, k0=case["k0"]), f * total, rtol=tol, atol=1e-9, what="mean stress")
            gen.close(layer.stress_mean(z, True, k0=case["k0"]), f * (total - pore), rtol=tol, atol=1e-8 * total + 1e-9, what="mean effective stress")
            loc = ps.site.Location(i, layer, "within", z)
            gen.close(loc.stress_vert(), total, rtol=tol, atol=1e-9, what="stress at location")
            gen.close(loc.stress_vert(effective=True), total - pore, rtol=tol, atol=1e-8 * total + 1e-9, what="effective stress at location")
        gen.close(layer.stress_mean(0, True), (2 / 3) * (weight - gen.GRAV * max(top - wt, 0.0)), rtol=tol, atol=1e-8 * weight + 1e-9, what="default k0")
        gen.close(layer.stress_mean(), (2 / 3) * weight, rtol=tol, atol=1e-9, what="mean stress at the top")
        gen.close(layer.stress_mean(effective=True), (2 / 3) * (weight - gen.GRAV * max(top - wt, 0.0)), rtol=tol, atol=1e-8 * weight + 1e-9, what="mean effective stress at the top")
        gen.close(layer.stress_vert(effective=True), weight - gen.GRAV * max(top - wt, 0.0), rtol=tol, atol=1e-8 * weight + 1e-9, what="effective stress at the top")
        tops.append(top)
        top += h
        weight += uw * h
    used = [m[0].soil_type for m in model]
    got = list(prof.iter_soil_types())
    assert sorted(id(x) for x in got) == sorted({id(x) for x in used}), f"soil types {[x.name for x in got]} of layers of {[x.name for x in used]}"
    if model:
        gen.close(prof.depth, tops, rtol=tol, atol=1e-9, what="Profile.depth")
        hs = [m[2] for m in model]
        gen.close(prof.thickness, hs, what="Profile.thickness")
        gen.close(prof.depth_mid, np.array(tops) + np.array(hs) / 2, rtol=tol, atol=1e-9, what="Profile.depth_mid")


def fn(case, t):
    soils = [ps.site.SoilType("s" if case.get("same_name") else f"s{i}", uw, None, 0.02) for i, uw in enumerate(case["uw"])]

    def make(c):
        return ps.site.Layer(soils[c["s"]], c["h"], c["vs"]), c["s"], c["h"], c["vs"]

    model = [make(c) for c in case["first"]]
    wt = case["wt"]
    if case["by_append"]:
        prof = ps.site.Profile(wt_depth=wt)
        for m in model:
            prof.append(m[0])
    else:
        prof = ps.site.Profile([m[0] for m in model], wt)
    compare(prof, model, wt, case)
    inner = False
    for step in case["steps"]:
        n = len(model)
        if step["op"] == "append":
            m = make(step["la"])
            prof.append(m[0])
            model.append(m)
        elif step["op"] == "insert":
            m = make(step["la"])
            prof.insert(step["i"], m[0])
            model.insert(step["i"], m)
            inner |= n > 1 and step["i"] < n
        elif n == 0:
            continue
        elif step["op"] == "h":
            i = step["i"] % n
            la, s, _, vs = model[i]
            t.label("resized a layer equal to another", any(j != i and model[j][1:] == model[i][1:] for j in range(n)))
            la.thickness = step["h"]
            model[i] = (la, s, step["h"], vs)
            inner |= n > 2 and i < n - 1
        elif step["op"] == "pop":
            i = step["i"] % n
            prof.layers.pop(i)
            prof.update_layers()
            model.pop(i)
        elif step["op"] == "wt":
            wt = prof.wt_depth = step["wt"]
        elif step["op"] == "copy":
            old, old_model = prof, list(model)
            prof = prof.copy()
            model = [(layer, s, h, vs) for layer, (_, s, h, vs) in zip(prof, model)]
            compare(old, old_model, wt, case)
        compare(prof, model, wt, case)
        t.label(step["op"])
    t.nt(inner and len(model) > 2)


@st.composite
def large_case(draw):
    case = draw(case_())
    n = draw(st.integers(15, 80))
    case["steps"] = [dict(x, i=x["i"] * n // 9) if "i" in x else x for x in case["steps"][:5]]
    return dict(case, n=n, seed=draw(gen.seeds()))


def fn_large(case, t):
    """Many layers."""
    rng = np.random.RandomState(case["seed"])
    n = case["n"]
    first = [
        {"s": int(s), "h": float(h), "vs": 200.0}
        for s, h in zip(rng.randint(0, len(case["uw"]), n), rng.choice([0.5, 1.0, 5.0, 12.25], n))
    ]
    fn(dict(case, first=first), t)


SUBS = [Sub("edits", case_, fn, 3000), Sub("many layers", large_case, fn_large, 100)]
