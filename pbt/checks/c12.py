"""C12: travel-time averages, site attenuation and Rayleigh velocity."""

import copy
import math

import numpy as np
from hypothesis import strategies as st

import pystrata as ps

from .. import gen
from ..core import Sub

RULE = (
    "random profiles (shallower and deeper than 30 m, with and without nonlinear curves and damping overrides) and "
    "averaging depths, with a subdivided twin; non-trivial = at least two layers above the half-space"
)
ASSUMPTIONS = ["no analysis has changed the strain-compatible velocities"]


def warmup():
    pass


@st.composite
def case_(draw):
    return {
        "p": draw(gen.profiles(max_layers=8, nonlinear="mixed", hmin=0.2, hmax=draw(st.sampled_from([3.0, 20.0, 200.0])))),
        "z": draw(st.sampled_from([30.0, 30.0]) | gen.logf(0.05, 1000.0)),
        "interface": draw(st.none() | st.integers(1, 8)),
        "parts": draw(st.lists(st.lists(st.floats(0.125, 1, width=32), min_size=1, max_size=4), min_size=8, max_size=8)),
        "strain": draw(gen.logf(1e-6, 0.02)),
        "bed": draw(st.none() | st.integers(0, 7)),
        "cv": draw(gen.logf(0.2, 5.0)),
        "ch": draw(gen.logf(0.2, 5.0)),
        "edits": draw(
            st.lists(
                st.fixed_dictionaries(
                    {"op": st.sampled_from(["h", "vs", "dm", "insert"]), "i": st.integers(0, 9), "c": gen.logf(0.3, 3.0), "d": gen.fl(0.0, 0.1, 4)}
                ),
                max_size=4,
            )
        ),
    }


def travel_time(p, z):
    tot, top = 0.0, 0.0
    n = len(p["layers"])
    for i, la in enumerate(p["layers"]):
        base = math.inf if i == n - 1 else top + la["h"]
        tot += max(min(z, base) - top, 0.0) / la["vs"]
        top += la["h"]
    return tot


def rayleigh(p):
    """Urzua et al. (2017) as implemented: X = sum z h / v^2 from the base."""
    num = den = 0.0
    depth = 0.0
    rows = []
    for la in p["layers"]:
        rows.append((la["h"], depth + la["h"] / 2, la["vs"]))
        depth += la["h"]
    below = 0.0
    for h, z, v in reversed(rows):
        above = below + z * h / v**2
        num += h * z**2 / v**2
        den += h * (above + below) ** 2
        below = above
    omega = 2 * math.sqrt(num / den)
    return 4 * depth * omega / (2 * math.pi)


def fn(case, t):
    p = case["p"]
    if case.get("bed") is not None:
        # a half-space of one of the soils above
        p = copy.deepcopy(p)
        p["layers"][-1]["s"] = p["layers"][case["bed"] % len(p["layers"])]["s"]
    prof = gen.build_profile(ps, p)
    z = case["z"]
    if case["interface"]:
        tops = gen.depth_tops(p)
        z = tops[1 + (case["interface"] - 1) % (len(tops) - 1)]
    split = copy.deepcopy(p)
    split["layers"] = []
    for la, parts in zip(p["layers"][:-1], case["parts"]):
        split["layers"] += [dict(la, h=la["h"] * x / sum(parts)) for x in parts]
    split["layers"].append(p["layers"][-1])
    twin = gen.build_profile(ps, split)

    def measure(q, p, what):
        gen.close(q.time_average_vel(z), z / travel_time(p, z), rtol=1e-9, what=f"{what}average to {z}")
        gen.close(q.time_average_vel(30), 30 / travel_time(p, 30), rtol=1e-9, what=what + "average to 30 m")
        gen.close(q.vs30(), 30 / travel_time(p, 30), rtol=1e-9, what=what + "Vs30")
        atten = sum(2 * gen.layer_damping_min(p, la) * la["h"] / la["vs"] for la in p["layers"])
        gen.close(q.site_attenuation(), atten, rtol=1e-9, atol=1e-15, what=what + "site attenuation")

    measure(prof, p, "")
    measure(twin, p, "subdivided ")
    for la, layer in zip(p["layers"], prof):
        gen.close(layer.travel_time, la["h"] / la["vs"], rtol=1e-12, what="layer travel time")
        gen.close(layer.incr_site_atten, 2 * gen.layer_damping_min(p, la) * la["h"] / la["vs"], rtol=1e-12, atol=1e-18, what="layer attenuation")
    gen.close(prof.slowness, [1 / la["vs"] for la in p["layers"]], rtol=1e-12, what="slowness")
    gen.close(prof.travel_time, [la["h"] / la["vs"] for la in p["layers"]], rtol=1e-12, what="travel times")

    # small-strain quantities do not change with the strains of an analysis
    before = (prof.vs30(), prof.site_attenuation(), prof.slowness, prof.simplified_rayliegh_vel())
    for i, layer in enumerate(prof):
        layer.strain = case.get("strain", 1e-3) * (1 + i)
    after = (prof.vs30(), prof.site_attenuation(), prof.slowness, prof.simplified_rayliegh_vel())
    for x, y, what in zip(after, before, ("Vs30", "site attenuation", "slowness", "Rayleigh velocity")):
        gen.close(x, y, rtol=1e-12, what=f"{what} after straining the layers")
    prof.reset_layers()

    v = prof.simplified_rayliegh_vel()
    gen.close(v, rayleigh(p), rtol=1e-9, what="Rayleigh velocity")
    q = copy.deepcopy(p)
    for la in q["layers"]:
        la["vs"] *= case["cv"]
        la["h"] *= case["ch"]
    gen.close(gen.build_profile(ps, q).simplified_rayliegh_vel(), v * case["cv"], rtol=1e-9, what="scaled Rayleigh velocity")

    # editing the layers of the profile, and asking again after each edit
    p = copy.deepcopy(p)
    for e in case.get("edits", []):
        i = e["i"] % len(p["layers"])
        if e["op"] == "h" and i < len(p["layers"]) - 1:
            p["layers"][i]["h"] *= e["c"]
            prof[i].thickness = p["layers"][i]["h"]
        elif e["op"] == "vs":
            p["layers"][i]["vs"] *= e["c"]
            prof[i].initial_shear_vel = p["layers"][i]["vs"]
        elif e["op"] == "dm":
            p["layers"][i]["dm"] = e["d"]
            prof[i].damping_min = e["d"]
        elif e["op"] == "insert":
            la = dict(p["layers"][i], h=5.0 * e["c"], vs=300.0 * e["c"])
            p["layers"].insert(i, la)
            prof.insert(i, ps.site.Layer(prof[i].soil_type, la["h"], la["vs"], la["dm"]))
        measure(prof, p, f"after {e['op']}, ")
        gen.close(prof.simplified_rayliegh_vel(), rayleigh(p), rtol=1e-9, what=f"Rayleigh velocity after {e['op']}")
        t.label("edited: " + e["op"])
    t.nt(len(p["layers"]) > 2)
    t.label("shallower than 30 m", gen.total_depth(p) < 30)
    t.label("depth at interface", bool(case["interface"]))
    t.label("half-space reached", z > gen.total_depth(p))


@st.composite
def uniform_case(draw):
    return {"n": draw(st.integers(12, 60)), "H": draw(gen.logf(1, 500)), "vs": draw(gen.logf(80, 2000))}


def fn_uniform(case, t):
    """A finely layered uniform profile: sqrt(10)/pi times its velocity."""
    soil = ps.site.SoilType("a", 18.0, None, 0.02)
    n = case["n"]
    prof = ps.site.Profile([ps.site.Layer(soil, case["H"] / n, case["vs"]) for _ in range(n)] + [ps.site.Layer(soil, 0, case["vs"])])
    gen.close(prof.simplified_rayliegh_vel() / case["vs"], math.sqrt(10) / math.pi, rtol=3 / n**2, what="uniform profile")
    gen.close(prof.vs30(), case["vs"], rtol=1e-9, what="Vs30")
    t.nt()


@st.composite
def large_case(draw):
    return {
        "big": draw(gen.big_profiles(nonlinear="mixed")),
        "z": draw(st.sampled_from([30.0, 30.0]) | gen.logf(0.05, 1000.0) | gen.logf(0.001, 1.0)),
        "interface": draw(st.none() | st.integers(1, 150)),
        "cv": draw(gen.logf(0.2, 5.0)),
        "ch": draw(gen.logf(0.2, 5.0)),
    }


def fn_large(case, t):
    """Many layers."""
    p = gen.expand_profile(case["big"])
    fn(dict(case, p=p, parts=[[1.0, 2.0]] * (len(p["layers"]) - 1)), t)


SUBS = [
    Sub("averages", case_, fn, 2500),
    Sub("many layers", large_case, fn_large, 200),
    Sub("uniform", uniform_case, fn_uniform, 200)]
