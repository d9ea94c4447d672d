"""C07: results do not depend on what was analysed before."""

import copy

import numpy as np
from hypothesis import strategies as st

import pystrata as ps

from .. import gen
from ..core import Sub
from .c06 import warmup  # noqa: F401

RULE = (
    "random histories (up to 9 steps) of analyses, copies, discretizations, property edits and motion queries over "
    "shared profile, motion and calculator objects; non-trivial = an analysis is preceded by another analysis with the "
    "same calculator, the same profile or a copy of an analysed profile"
)
ASSUMPTIONS = ["analyses use reset_layers=True (the default)"]

CALCS = ["LE", "EQL", "EQL-lim", "EQL-one", "FDM-ka02", "FDM-zr15", "FDM-ko:20", "QWL"]


def make(name):
    pr = ps.propagation
    if name == "LE":
        return pr.LinearElasticCalculator()
    if name == "QWL":
        return pr.QuarterWaveLenCalculator(site_atten=0.03)
    if name == "EQL":
        return pr.EquivalentLinearCalculator(strain_limit=None, max_iterations=4)
    if name == "EQL-lim":
        return pr.EquivalentLinearCalculator(strain_limit=2e-3, max_iterations=5)
    if name == "EQL-one":
        return pr.EquivalentLinearCalculator(strain_limit=4e-4, max_iterations=1)
    return pr.FrequencyDependentEqlCalculator(name[4:], strain_limit=None, max_iterations=3)


@st.composite
def motion_(draw, i):
    if i == 2 or draw(st.integers(0, 3)) == 0:
        m = draw(gen.rvt_motions(amp=(1e-3, 0.2)))
        # often the same number of frequencies as another motion
        m["nf"] = draw(st.sampled_from([48, 65]))
        return m
    m = draw(gen.ts_motions(nmin=32, nmax=32, pga=(0.01, 0.8), fa=False))
    m["n"] = draw(st.sampled_from([48, 64, 50]))
    return m


@st.composite
def case_(draw):
    profs = [
        draw(gen.profiles(nonlinear="mixed", max_layers=3, dmin=0.005, dmax=0.06, hmax=20.0, vmin=100.0, vmax=700.0))
        for _ in range(2)
    ]
    for la in profs[0]["layers"] if draw(st.integers(0, 2)) == 0 else []:
        # no damping of its own
        la["dm"] = draw(st.sampled_from([0.0, 0, la["dm"]]))
    pi = st.integers(0, 5)
    run = st.fixed_dictionaries(
        {
            "op": st.just("run"),
            "calc": st.sampled_from(CALCS),
            "p": pi,
            "m": st.integers(0, 2),
            "lin": st.sampled_from(["outcrop", "outcrop", "within", "incoming_only"]),
        }
    )
    other = st.one_of(
        st.fixed_dictionaries({"op": st.just("copy"), "p": pi}),
        st.fixed_dictionaries(
            {"op": st.just("disc"), "p": pi, "mf": st.sampled_from([5.0, 12.0, 20.0]), "nlo": st.booleans()}
        ),
        st.fixed_dictionaries(
            {
                "op": st.just("edit"),
                "p": pi,
                "li": st.integers(0, 5),
                "what": st.sampled_from(["vs", "dm", "h"]),
                "f": gen.fl(0.6, 1.5, 3) | st.sampled_from([1.0, 0.0]),
            }
        ),
        st.fixed_dictionaries({"op": st.just("query"), "m": st.integers(0, 2)}),
    )
    return {
        "profs": profs,
        "ms": [draw(motion_(i)) for i in range(3)],
        "steps": draw(st.lists(st.one_of(run, run, other), min_size=3, max_size=9)),
    }


def snapshot(prof):
    out = [prof.wt_depth]
    for la in prof:
        out.append(
            (
                la.thickness,
                la.depth,
                la.initial_shear_vel,
                la.damping_min,
                np.array(la.shear_mod),
                np.array(la.damping),
                np.array(la.strain),
                la.strain_max,
                la.stress_vert(),
            )
        )
    return out


def same_snapshot(a, b):
    if len(a) != len(b) or a[0] != b[0]:
        return False
    for x, y in zip(a[1:], b[1:]):
        for u, v in zip(x, y):
            if (u is None) != (v is None) or (u is not None and not np.array_equal(u, v)):
                return False
    return True


def analyse(calc, name, mot, prof, lin):
    """Everything observable after an analysis."""
    loc = ps.site.Location
    try:
        calc(mot, prof, prof.location(lin, index=-1))
    except RuntimeError as e:
        return {"error": "RuntimeError"}
    out = {}
    if name == "QWL":
        out["crustal"], out["site"] = calc.crustal_amp, calc.site_term
    else:
        src = prof.location(lin, index=-1)
        out["surface"] = calc.calc_accel_tf(src, prof.location("outcrop", index=0))
        mid = loc(0, prof[0], "within", prof[0].thickness / 2)
        out["strain"] = calc.calc_strain_tf(src, mid)
        out["stress"] = calc.calc_stress_tf(src, mid, True)
        out["peak"] = mot.calc_peak(out["surface"])
    for i, la in enumerate(prof):
        for a in ("strain", "shear_mod", "damping", "strain_max", "comp_shear_mod"):
            v = getattr(la, a)
            out[f"{a} {i}"] = np.array(np.nan if v is None else v)
    return out


def fn(case, t):
    cases = copy.deepcopy(case["profs"])
    profs = [gen.build_profile(ps, c) for c in cases]
    mots = [gen.build_motion(ps, m) for m in case["ms"]]
    calcs = {n: make(n) for n in CALCS}
    used_c, used_p = set(), set()
    reuse = False
    for step in case["steps"]:
        before = [snapshot(p) for p in profs]
        touched = None
        if step["op"] == "run":
            k, name = step["p"] % len(profs), step["calc"]
            mi = 2 if name == "QWL" else step["m"]  # zero frequency: infinite quarter-wavelength
            m = case["ms"][mi]
            touched = k
            got = analyse(calcs[name], name, mots[mi], profs[k], step["lin"])
            want = analyse(make(name), name, gen.build_motion(ps, m), gen.build_profile(ps, cases[k]), step["lin"])
            assert got.keys() == want.keys(), (name, sorted(got), sorted(want))
            if "error" not in got:
                for key in got:
                    gen.close(got[key], want[key], rtol=1e-9, atol=1e-14, what=f"{name}: {key}")
            reuse |= name in used_c or k in used_p
            used_c.add(name)
            used_p.add(k)
            t.label("run " + name)
            t.label("strain limit error", "error" in got)
        elif step["op"] == "copy" and len(profs) < 6:
            k = step["p"] % len(profs)
            profs.append(profs[k].copy())
            cases.append(copy.deepcopy(cases[k]))
            check_initial(profs[-1], cases[-1])
            if k in used_p:
                used_p.add(len(profs) - 1)
            t.label("copy of an analysed profile", k in used_p)
        elif step["op"] == "disc" and len(profs) < 6:
            k = step["p"] % len(profs)
            new = profs[k].auto_discretize(step["mf"], 0.25, nonlinear_only=step["nlo"])
            fresh = gen.build_profile(ps, cases[k]).auto_discretize(step["mf"], 0.25, nonlinear_only=step["nlo"])
            if len(fresh) > 25:
                continue
            names = [s["n"] for s in cases[k]["soils"]]
            q = {
                "soils": copy.deepcopy(cases[k]["soils"]),
                "layers": [
                    {
                        "s": names.index(la.soil_type.name),
                        "h": float(la.thickness),
                        "vs": float(la.initial_shear_vel),
                        "dm": float(la.damping_min),
                    }
                    for la in fresh
                ],
                "wt": cases[k]["wt"],
            }
            profs.append(new)
            cases.append(q)
            check_initial(new, q)
            if k in used_p:
                used_p.add(len(profs) - 1)
            t.label("discretization of an analysed profile", k in used_p)
        elif step["op"] == "edit":
            k = step["p"] % len(profs)
            touched = k
            i = step["li"] % len(profs[k])
            la, c = profs[k][i], cases[k]["layers"][i]
            if step["what"] == "vs":
                c["vs"] = la.initial_shear_vel * (step["f"] or 1.0)
                la.initial_shear_vel = c["vs"]
            elif step["what"] == "dm":
                c["dm"] = la.damping_min * step["f"]
                la.damping_min = c["dm"]
            elif all(profs[k][j] != la for j in range(len(profs[k])) if j != i):
                c["h"] = la.thickness * (step["f"] or 1.0)
                la.thickness = c["h"]
            t.label("edit")
        elif step["op"] == "query":
            m = mots[step["m"]]
            f = gen.build_motion(ps, case["ms"][step["m"]])
            osc = np.array([0.5, 2.0, 8.0])
            gen.close(m.calc_osc_accels(osc, 0.05), f.calc_osc_accels(osc, 0.05), rtol=1e-9, what="osc accels")
            gen.close([m.pgv, m.pga], [f.pgv, f.pga], rtol=1e-9, what="peaks")
            gen.close(m.fourier_amps, f.fourier_amps, rtol=1e-12, what="spectrum")
            gen.close(m.freqs, f.freqs, rtol=1e-12, what="frequencies")
        for k, b in enumerate(before):
            if k != touched:
                assert same_snapshot(b, snapshot(profs[k])), f"profile {k} changed by {step['op']}"
    t.nt(reuse)


def check_initial(prof, c):
    assert len(prof) == len(c["layers"])
    assert prof.wt_depth == c["wt"]
    fresh = gen.build_profile(ps, c)
    for la, w in zip(prof, fresh):
        assert la.soil_type.name == w.soil_type.name and la.unit_wt == w.unit_wt
        for a in ("thickness", "initial_shear_vel", "damping_min", "depth"):
            gen.close(getattr(la, a), getattr(w, a), rtol=1e-12, what="copied " + a)
        gen.close(la.initial_shear_mod, w.initial_shear_mod, rtol=1e-12, what="copied modulus")


@st.composite
def order_case(draw):
    """Same analysis twice around another one, with peaks queried in between."""
    c = draw(case_())
    c["name"] = draw(st.sampled_from(["EQL", "FDM-ka02", "FDM-ko:20", "FDM-zr15"]))
    c["amp"] = draw(gen.logf(0.05, 5.0))
    return c


def fn_order(case, t):
    """A-B-A: the third analysis equals the first one bit for bit."""
    name = case["name"]
    calc = make(name)
    profs = [gen.build_profile(ps, c) for c in case["profs"]]
    mots = [gen.build_motion(ps, m) for m in case["ms"]]
    a = analyse(calc, name, mots[0], profs[0], "outcrop")
    analyse(calc, name, mots[1], profs[0], "within")
    analyse(calc, name, mots[2], profs[1], "outcrop")
    cp = profs[0].copy()
    b = analyse(calc, name, mots[0], profs[0], "outcrop")
    c = analyse(calc, name, mots[0], cp, "outcrop")
    for other, what in ((b, "again"), (c, "on a copy")):
        assert a.keys() == other.keys()
        for key in a:
            if key != "error":
                gen.close(other[key], a[key], rtol=1e-9, atol=1e-14, what=f"{name} {what}: {key}")
    t.nt(any(np.any(np.abs(profs[0][i].shear_mod_reduc - 1) > 0.01) for i in range(len(profs[0]))))
    t.label(name)


@st.composite
def twin_case(draw):
    """Two analyses that differ in one or two respects only."""
    name = draw(st.sampled_from(["LE"] + list(CALCS)))
    p = draw(gen.profiles(nonlinear="mixed", max_layers=4, dmin=0.005, dmax=0.06, hmax=20.0, vmin=100.0, vmax=700.0))
    if name == "QWL" or draw(st.integers(0, 2)) == 0:
        m = draw(gen.rvt_motions(amp=(1e-3, 0.2)))
        kinds = ["fmax", "fmin", "dur", "amp", "nf", "fc"]
    else:
        m = draw(gen.ts_motions(nmin=16, nmax=64, pga=(0.01, 0.8)))
        kinds = ["dt", "dt", "pga", "seed", "reverse", "fa", "n"]
    kinds += ["vs", "vs", "h", "dm", "uw", "curve", "damping", "wt", "hs", "lin", "swap", "drop", "same"]
    return {
        "name": name,
        "p": p,
        "m": m,
        "lin": draw(st.sampled_from(["outcrop", "outcrop", "within", "incoming_only"])),
        "change": draw(st.lists(st.sampled_from(kinds), min_size=1, max_size=draw(st.sampled_from([1, 1, 2])), unique=True)),
        "f": draw(st.sampled_from([0.5, 2.0]) | gen.fl(0.6, 1.6, 3)),
        "li": draw(st.integers(0, 9)),
        "share": draw(st.sampled_from([True, True, False])),
        "third": draw(st.booleans()),
    }


def twin(case):
    p, m, lin = copy.deepcopy(case["p"]), copy.deepcopy(case["m"]), case["lin"]
    f, n = case["f"], len(p["layers"]) - 1
    la = p["layers"][case["li"] % n]
    so = p["soils"][la["s"]]
    for c in case["change"]:
        if c in ("dt", "pga", "dur", "amp", "fc", "fmax"):
            m[c] *= f
        elif c == "fmin":
            m[c] = 0.02
        elif c == "nf":
            m[c] += 1
        elif c == "seed":
            m[c] += 1
        elif c == "reverse":
            m["pga"] *= -1
        elif c == "n":
            m["n"] -= 2
        elif c == "fa":
            m["fa"] = 2 * m["n"] if m["fa"] != 2 * m["n"] else 4 * m["n"]
        elif c == "vs":
            la["vs"] *= f
        elif c == "h":
            la["h"] *= f
        elif c == "dm":
            la["dm"] = 0.02 * f
        elif c == "uw":
            so["uw"] *= 0.9 + 0.1 * f
        elif c == "curve" and so["mr"] is not None:
            so["mr"] = [so["mr"][0], [v ** f for v in so["mr"][1]]]
        elif c == "damping":
            if isinstance(so["d"], (list, tuple)):
                so["d"] = [so["d"][0], [min(v * f, 0.3) for v in so["d"][1]]]
            else:
                so["d"] = so["d"] * f
        elif c == "wt":
            p["wt"] = 3.0 * f
        elif c == "hs":
            p["layers"][-1]["vs"] *= 1 + f
        elif c == "lin":
            lin = "within" if lin == "outcrop" else "outcrop"
        elif c == "swap":
            p["layers"][:n] = p["layers"][:n][::-1]
        elif c == "drop" and n > 1:
            del p["layers"][0]
    return p, m, lin


def fn_twin(case, t):
    """A calculator that has seen a similar problem gives the results of a new one."""
    name = case["name"]
    if name == "QWL":
        assert case["m"]["kind"] == "rvt"
    p2, m2, lin2 = twin(case)
    calc = make(name)
    mot = gen.build_motion(ps, case["m"])
    prof = gen.build_profile(ps, case["p"])
    first = analyse(calc, name, mot, prof, case["lin"])
    # what did not change may be the same object
    mot2 = mot if case["share"] and m2 == case["m"] else gen.build_motion(ps, m2)
    prof2 = prof if case["share"] and p2 == case["p"] else gen.build_profile(ps, p2)
    got = analyse(calc, name, mot2, prof2, lin2)
    want = analyse(make(name), name, gen.build_motion(ps, m2), gen.build_profile(ps, p2), lin2)
    assert got.keys() == want.keys(), (sorted(got), sorted(want))
    if "error" not in got:
        for key in got:
            gen.close(got[key], want[key], rtol=1e-9, atol=1e-14, what=f"{name} after its twin: {key}")
    if case["third"]:
        again = analyse(calc, name, mot, prof, case["lin"])
        assert again.keys() == first.keys()
        if "error" not in again:
            for key in again:
                gen.close(again[key], first[key], rtol=1e-9, atol=1e-14, what=f"{name} once more: {key}")
    for c in case["change"]:
        t.label("change " + c)
    t.label(name)
    key = "crustal" if name == "QWL" else "strain"
    t.nt(key in first and key in got and (first[key].shape != got[key].shape or not np.array_equal(first[key], got[key])))


SUBS = [
    Sub("histories", case_, fn, 900),
    Sub("twins", twin_case, fn_twin, 2500),
    Sub("A-B-A", order_case, fn_order, 300),
]
