"""C11: locations resolve to the right layer and depth."""

import math

from hypothesis import strategies as st

import pystrata as ps
from pystrata.motion import WaveField

from .. import gen
from ..core import Sub

RULE = (
    "random profiles with distinct or identical layers, depths anywhere (interfaces exactly, far below, zero), indices "
    "positive and negative, wave fields by name or member; non-trivial = a profile of at least three layers, or "
    "containing identical layers"
)
ASSUMPTIONS = ["depths within 1e-9 m of an interface (but not equal to it) are not generated"]


def warmup():
    pass


@st.composite
def case_(draw):
    n = draw(st.integers(1, 8))
    same = draw(st.booleans())
    h = st.sampled_from([1.0, 2.0, 2.0, 5.0]) if same else gen.logf(0.1, 100.0)
    return {
        "h": draw(st.lists(h, min_size=n, max_size=n)) + [draw(st.sampled_from([0.0, 0.0, 3.0]))],
        "same": same,
        "wf": draw(st.sampled_from(["outcrop", "within", "incoming_only"])),
        "member": draw(st.booleans()),
        "q": draw(
            st.lists(
                st.one_of(
                    st.tuples(st.just("interface"), st.integers(0, n)),
                    st.tuples(st.just("frac"), st.floats(0, 1.5, width=32)),
                    st.tuples(st.just("inside"), st.integers(0, n), st.floats(0.0625, 0.9375, width=32)),
                    st.tuples(st.just("deep"), gen.logf(100.0, 1e5)),
                    st.tuples(st.just("near"), st.integers(0, n), st.sampled_from([-1, 1]), gen.logf(2e-8, 1e-2)),
                ),
                min_size=1,
                max_size=6,
            )
        ),
        "edit": draw(st.none() | st.tuples(st.integers(0, n - 1), gen.logf(0.1, 100.0))),
    }


def profile(case):
    soil = ps.site.SoilType("a", 18.0, None, 0.02)
    layers = []
    for i, h in enumerate(case["h"]):
        s = soil if case["same"] else ps.site.SoilType(f"s{i}", 18.0 + i, None, 0.02)
        layers.append(ps.site.Layer(s, h, 300.0 if case["same"] else 300.0 + i))
    return ps.site.Profile(layers)


def fn(case, t):
    prof = profile(case)
    h = list(case["h"])
    n = len(h)
    if case["edit"]:
        i, new = case["edit"]
        prof[i].thickness = new
        h[i] = new
    tops = [0.0]
    for x in h[:-1]:
        tops.append(tops[-1] + x)
    wf = WaveField[case["wf"]]
    arg = wf if case["member"] else case["wf"]
    OutLoc = ps.output.OutputLocation

    def resolve(z):
        k = 0
        for i, top in enumerate(tops):
            if z >= top:
                k = i
        return k, z - tops[k]

    for q in case["q"]:
        if q[0] == "interface":
            z = tops[q[1] % n]
        elif q[0] == "frac":
            z = q[1] * tops[-1]
        elif q[0] == "deep":
            z = tops[-1] + q[1]
        elif q[0] == "near":
            z = max(tops[q[1] % n] + q[2] * q[3], 0.0)
        else:
            i = q[1] % n
            z = tops[i] + q[2] * (h[i] if i < n - 1 else 9.0)
        if any(0 < abs(z - top) < 1e-9 * (1 + top) for top in tops):
            continue
        want = resolve(z)
        got = prof.lookup_depth(z)
        assert got[0] == want[0] and math.isclose(got[1], want[1], rel_tol=1e-9, abs_tol=1e-9), (z, got, want)
        outloc = OutLoc(arg, depth=z)
        assert outloc.wave_field is wf and outloc.depth == z
        for loc in (prof.location(arg, depth=z), outloc(prof)):
            assert loc.index == want[0], (z, loc.index, want)
            assert loc.layer is prof[want[0]], "layer object"
            assert math.isclose(loc.depth_within, want[1], rel_tol=1e-9, abs_tol=1e-9)
            assert loc.wave_field is wf
        t.label(q[0])
    for k in range(-n, n):
        for loc in (prof.location(arg, index=k), OutLoc(arg, index=k)(prof)):
            assert loc.index == k % n, ("index", k, loc.index)
            assert loc.layer is prof[k], ("layer object", k)
            assert loc.depth_within == 0
            assert loc.wave_field is wf
    for bad in (n, -n - 1):
        try:
            prof.location(arg, index=bad)
        except IndexError:
            pass
        else:
            raise AssertionError("index outside the profile accepted")
    loc = ps.site.Location(0, prof[0], arg, 0.5)
    assert loc.wave_field is wf and loc.depth_within == 0.5 and loc.layer is prof[0] and loc.index == 0
    t.nt(n > 3 or case["same"])
    t.label("identical layers", case["same"])
    t.label("edited", case["edit"] is not None)


@st.composite
def large_case(draw):
    n = draw(st.integers(20, 300))
    return {
        "n": n,
        "seed": draw(gen.seeds()),
        "same": draw(st.booleans()),
        "wf": draw(st.sampled_from(["outcrop", "within", "incoming_only"])),
        "member": draw(st.booleans()),
        "q": draw(
            st.lists(
                st.one_of(
                    st.tuples(st.just("interface"), st.integers(0, n)),
                    st.tuples(st.just("frac"), st.floats(0, 1.5, width=32)),
                    st.tuples(st.just("inside"), st.integers(0, n), st.floats(0.0625, 0.9375, width=32)),
                ),
                min_size=5,
                max_size=15,
            )
        ),
    }


def fn_large(case, t):
    """Many layers."""
    import numpy as np

    rng = np.random.RandomState(case["seed"])
    n = case["n"]
    h = rng.choice([1.0, 2.0, 5.0], n) if case["same"] else np.round(np.exp(rng.uniform(-2, 3, n)), 4)
    fn(dict(case, h=h.tolist() + [0.0], edit=None), t)


SUBS = [Sub("lookup", case_, fn, 3000), Sub("many layers", large_case, fn_large, 150)]
