"""C15: layer state under strain updates, resets and property changes."""

import numpy as np
from hypothesis import strategies as st

import pystrata as ps

from .. import gen, ref
from ..core import Sub

RULE = (
    "random soil types (linear, nonlinear modulus, nonlinear damping, both) and histories of up to 12 strain updates (scalar "
    "and frequency-vector), resets, velocity and minimum-damping changes and copies, compared with closed-form values after "
    "every step under each complex-modulus formulation; non-trivial = nonlinear soil with a strain update followed by another step"
)
ASSUMPTIONS = ["strains are non-negative"]
MODELS = ("dormieux", "seed", "kramer")


def warmup():
    pass


@st.composite
def rough_soil(draw):
    """Also curves that are not monotone, and dampings beyond the cap."""
    s = draw(gen.soil())
    if not isinstance(s["d"], list) and draw(st.integers(0, 3)) == 0:
        s["d"] = 0
    if draw(st.booleans()):
        n = draw(st.integers(2, 6))
        x = [1e-6 * 5.0**i for i in range(n)]
        kind = draw(st.sampled_from(["mr", "d", "both"]))
        if kind in ("mr", "both"):
            s["mr"] = [x, draw(st.lists(gen.fl(0.05, 1.0, 4), min_size=n, max_size=n))]
        if kind in ("d", "both"):
            s["d"] = [x, draw(st.lists(gen.fl(0.0, 0.6, 4), min_size=n, max_size=n))]
    return s


STRAIN = st.sampled_from([0.0, 1e-9]) | gen.logf(1e-8, 0.3)


@st.composite
def case_(draw):
    step = st.one_of(
        st.fixed_dictionaries({"op": st.just("strain"), "v": STRAIN}),
        st.fixed_dictionaries({"op": st.just("strain"), "v": st.lists(STRAIN, min_size=1, max_size=5)}),
        st.fixed_dictionaries({"op": st.just("reset")}),
        st.fixed_dictionaries({"op": st.just("vs"), "v": gen.logf(50, 3000)}),
        st.fixed_dictionaries({"op": st.just("dm"), "v": gen.fl(0.0, 0.6, 4)}),
        st.fixed_dictionaries({"op": st.just("max"), "v": STRAIN}),
        st.fixed_dictionaries({"op": st.just("copy")}),
    )
    return {
        "s": draw(rough_soil()),
        "h": draw(gen.logf(0.1, 100)),
        "vs": draw(gen.logf(50, 3000)),
        "dm": draw(st.none() | gen.fl(0.0, 0.6, 4)),
        "steps": draw(st.lists(step, min_size=1, max_size=12)),
    }


def compare(layer, case, m):
    s = case["s"]
    rho = s["uw"] / gen.GRAV
    g0 = rho * m["vs"] ** 2
    gen.close(layer.density, rho, rtol=1e-12, what="density")
    gen.close(layer.unit_wt, s["uw"], rtol=1e-12, what="unit weight")
    gen.close(layer.initial_shear_mod, g0, rtol=1e-12, what="initial modulus")
    gen.close(layer.initial_shear_vel, m["vs"], rtol=1e-12, what="initial velocity")
    gen.close(layer.damping_min, m["dm"], rtol=1e-12, atol=1e-15, what="minimum damping")
    gen.close(layer.incr_site_atten, 2 * m["dm"] * case["h"] / m["vs"], rtol=1e-12, atol=1e-18, what="site attenuation")
    if m["strain"] is None:
        red, d = 1.0, m["dm"]
        assert np.ndim(layer.strain) == 0 and 0 < layer.strain <= 1e-5, "small initial strain"
        strain = layer.strain
        shape = ()
    else:
        x = np.array(m["strain"])
        red, d = ref.soil_mod_reduc(s, x), ref.soil_damping(s, m["dm"], x)
        strain, shape = x, x.shape
        gen.close(np.asarray(layer.strain), x, rtol=1e-12, what="strain")

    def eq(got, want, what, **kw):
        assert np.shape(got) in ((), shape), f"{what}: shape {np.shape(got)}"
        gen.close(np.broadcast_to(got, shape), np.broadcast_to(want, shape), rtol=1e-9, what=what, **kw)

    eq(layer.shear_mod, g0 * red, "shear modulus")
    eq(layer.shear_mod_reduc, red, "modulus reduction")
    eq(layer.damping, d, "damping", atol=1e-10)
    eq(layer.shear_vel, m["vs"] * np.sqrt(red), "shear velocity")
    eq(layer.travel_time, case["h"] / (m["vs"] * np.sqrt(red)), "travel time")
    eq(layer.stress_shear_eff, g0 * red * strain, "effective stress")
    if m["max"] is not None:
        eq(layer.stress_shear_max, g0 * red * m["max"], "peak stress")
    dc = np.clip(d, 0.0, 0.49)
    before = ps.site.COMP_MODULUS_MODEL
    assert before == "dormieux"
    try:
        for model in MODELS:
            ps.site.COMP_MODULUS_MODEL = model
            real = {"seed": 1.0 + 0 * dc, "kramer": 1 - dc**2, "dormieux": np.sqrt(1 - 4 * dc**2)}[model]
            g = layer.comp_shear_mod
            eq(np.real(g), g0 * red * real, f"real part ({model})", atol=1e-9 * g0)
            eq(np.imag(g), g0 * red * 2 * dc, f"imaginary part ({model})", atol=1e-9 * g0)
            v = layer.comp_shear_vel
            eq(np.real(v**2), np.real(g) / rho, f"complex velocity ({model})", atol=1e-9 * g0 / rho)
            eq(np.imag(v**2), np.imag(g) / rho, f"complex velocity ({model})", atol=1e-9 * g0 / rho)
            assert np.all(np.real(v) > 0) and np.all(np.imag(v) >= 0)
    finally:
        ps.site.COMP_MODULUS_MODEL = before
    # Damping curve with the minimum damping of this layer
    rec = layer.adjusted_damping_curve
    if isinstance(s["d"], (list, tuple)):
        x = np.array(s["d"][0])
        gen.close(np.asarray(rec.strain), x, rtol=1e-12, what="adjusted curve strains")
        gen.close(np.asarray(rec.damping), ref.soil_damping(s, m["dm"], x), rtol=1e-9, atol=1e-10, what="adjusted curve")
    else:
        assert len(rec) == 1 and np.isnan(rec.strain[0])
        gen.close(rec.damping[0], m["dm"], rtol=1e-12, atol=1e-15, what="adjusted curve")


def fn(case, t):
    s = case["s"]
    soil = gen.build_soil(ps, s)
    layer = ps.site.Layer(soil, case["h"], case["vs"], case["dm"])
    twin = ps.site.Layer(soil, case["h"], case["vs"], case["dm"])
    d0 = s["d"][1][0] if isinstance(s["d"], (list, tuple)) else s["d"]
    m0 = {"vs": case["vs"], "dm": d0 if case["dm"] is None else case["dm"], "strain": None, "max": None}
    m = dict(m0)
    assert soil.is_nonlinear == (s["mr"] is not None or isinstance(s["d"], (list, tuple)))
    gen.close(soil.damping_min, d0, rtol=1e-12, what="soil damping_min")
    compare(layer, case, m)
    seen = set()
    old = None
    for k, step in enumerate(case["steps"]):
        op = step["op"]
        if op == "strain":
            v = step["v"]
            x = np.array(v) if isinstance(v, list) else v
            kept = np.array(x)
            layer.strain = x
            assert np.array_equal(kept, x), "input strain modified"
            m["strain"] = v
        elif op == "reset":
            layer.reset()
            m.update(strain=None, max=None)
            assert layer.strain_max is None
        elif op == "vs":
            layer.initial_shear_vel = step["v"]
            m.update(vs=step["v"], strain=None, max=None)
        elif op == "dm":
            layer.damping_min = step["v"]
            m.update(dm=step["v"], strain=None, max=None)
        elif op == "max":
            layer.strain_max = step["v"]
            m["max"] = step["v"]
        else:
            old = (layer, dict(m))
            layer = layer.copy()
            m.update(strain=None, max=None)
        compare(layer, case, m)
        if old:
            compare(old[0], case, old[1])
        if seen & {"strain"}:
            t.nt(soil.is_nonlinear)
        seen.add(op)
        t.label(op)
    compare(twin, case, m0)  # another layer of the same soil type
    t.label("vector strain", any(isinstance(s_.get("v"), list) for s_ in case["steps"]))
    t.label("cap", m["dm"] > 0.49)


# ---------------------------------------------------------- profile arrays
@st.composite
def arrays_case(draw):
    n = draw(st.integers(1, 6))
    soils = draw(st.lists(rough_soil(), min_size=1, max_size=3))
    las = [{"s": draw(st.integers(0, len(soils) - 1)), "h": draw(gen.logf(0.1, 100)), "vs": draw(gen.logf(50, 3000)), "dm": draw(st.none() | gen.fl(0.0, 0.2, 4))} for _ in range(n)]
    step = st.fixed_dictionaries({"op": st.sampled_from(["strain", "strain", "strain", "vs", "dm", "reset", "reset all", "spoil"]), "i": st.integers(0, 5), "v": gen.logf(1e-7, 0.1)})
    return {"soils": soils, "las": las, "wt": draw(gen.fl(0.0, 50.0, 3)), "steps": draw(st.lists(step, max_size=8)), "freq": draw(st.sampled_from([0, 0, 3]))}


PER_LAYER = ("damping", "depth", "depth_mid", "thickness", "max_error", "travel_time", "initial_shear_vel", "shear_vel", "strain", "unit_wt", "density", "comp_shear_mod", "comp_shear_vel")


def fn_arrays(case, t):
    """The arrays of a profile are the values of its layers at that time, in order."""
    soils = [gen.build_soil(ps, s) for s in case["soils"]]
    spare = [x.copy() for x in soils]
    las = [ps.site.Layer(soils[c["s"]], c["h"], c["vs"], c["dm"]) for c in case["las"]]
    prof = ps.site.Profile(las, case["wt"])
    model = []
    for c in case["las"]:
        d = case["soils"][c["s"]]["d"]
        model.append({"vs": c["vs"], "dm": c["dm"] if c["dm"] is not None else d[1][0] if isinstance(d, (list, tuple)) else d, "strain": None})

    def look():
        tops = np.cumsum([0.0] + [c["h"] for c in case["las"][:-1]])
        vec = any(np.ndim(m["strain"]) for m in model if m["strain"] is not None)
        for k, (la, m, c) in enumerate(zip(prof, model, case["las"])):
            s = case["soils"][c["s"]]
            x = None if m["strain"] is None else np.asarray(m["strain"], float)
            red = 1.0 if x is None else ref.soil_mod_reduc(s, x)
            dmp = m["dm"] if x is None else ref.soil_damping(s, m["dm"], x)
            want = {
                "damping": dmp, "depth": tops[k], "depth_mid": tops[k] + c["h"] / 2, "thickness": c["h"], "initial_shear_vel": m["vs"],
                "shear_vel": m["vs"] * np.sqrt(red), "travel_time": c["h"] / (m["vs"] * np.sqrt(red)), "unit_wt": s["uw"], "density": s["uw"] / gen.GRAV,
                "slowness": 1 / m["vs"],
            }
            if x is not None:
                want["strain"] = x
            for attr, v in want.items():
                if vec and attr in ("damping", "shear_vel", "travel_time", "strain"):
                    continue  # layers of one and of several values do not make an array
                got = getattr(prof, attr)
                assert len(got) == len(model), f"{attr}: {len(got)} values of {len(model)} layers"
                gen.close(got[k], v, rtol=1e-9, atol=1e-10, what=f"Profile.{attr}[{k}]")
        if not vec:
            for attr in PER_LAYER:
                got = getattr(prof, attr)
                assert isinstance(got, np.ndarray) and list(got) == [getattr(la, attr) for la in prof], f"Profile.{attr} is not the layers' {attr}"
        assert all(la in prof for la in prof) and [x is y for x, y in zip(prof, las)] == [True] * len(las)
        gen.close(prof.site_attenuation(), sum(2 * m["dm"] * c["h"] / m["vs"] for m, c in zip(model, case["las"])), rtol=1e-9, atol=1e-15, what="site attenuation")

    look()
    changed = False
    for stp in case["steps"]:
        i = stp["i"] % len(las)
        op = stp["op"]
        if op == "strain":
            v = stp["v"] if not case["freq"] else [stp["v"] / (1 + j) for j in range(case["freq"])]
            for j, la in enumerate(las) if case["freq"] else [(i, las[i])]:
                la.strain = v if np.ndim(v) == 0 else np.array(v)
                model[j]["strain"] = v
            changed = True
        elif op == "vs":
            las[i].initial_shear_vel = 1000 * (stp["v"] ** 0.2)
            model[i].update(vs=1000 * (stp["v"] ** 0.2), strain=None)
        elif op == "dm":
            las[i].damping_min = stp["v"]
            model[i].update(dm=stp["v"], strain=None)
        elif op == "reset":
            las[i].reset()
            model[i]["strain"] = None
        elif op == "reset all":
            prof.reset_layers()
            for m in model:
                m["strain"] = None
            t.label("reset all", changed)
        else:
            for attr in ("thickness", "initial_shear_vel", "unit_wt", "depth", "strain", "damping"):
                got = None
                try:
                    got = getattr(prof, attr)
                    got[:] = 3  # the caller's own array
                except ValueError:
                    assert got is None  # layers of one and of several values
        look()
    # a copy of a soil type describes the same soil
    for x, y, s in zip(soils, spare, case["soils"]):
        assert y is not x and y.name == x.name and y.unit_wt == x.unit_wt == s["uw"] and y.is_nonlinear == x.is_nonlinear
        e = np.logspace(-6, -1, 4)
        for cx, cy in ((x.mod_reduc, y.mod_reduc), (x.damping, y.damping)):
            assert cx == cy if not hasattr(cx, "values") else np.array_equal(cx(e), cy(e)), "copy of a soil type has another curve"
    t.nt(changed and len(las) > 1)
    t.label("vector strain", bool(case["freq"]) and changed)


SUBS = [
    Sub("layer states", case_, fn, 2500),
    Sub("profile arrays", arrays_case, fn_arrays, 600),
]
