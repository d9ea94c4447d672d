"""C21: every output reports the quantity it names."""

import numpy as np
import pykooh
from hypothesis import strategies as st

import pystrata as ps

from .. import gen, outs, ref
from ..core import Sub
from .c06 import warmup  # noqa: F401

RULE = (
    "generated profiles, calculators, time-series and random-vibration motions and up to six outputs of any type and option; "
    "non-trivial = an output away from the surface outcrop, or a profile output of at least three layers"
)
ASSUMPTIONS = [
    "transfer functions, motions and layer states are right (checked by C01-C18)",
    "profile outputs needing one number per layer are read after linear or equivalent-linear analyses",
]

GW = 9.80665


def eff_stress(p, i, z):
    """Vertical effective stress at depth z within layer i."""
    d, s = 0.0, 0.0
    for la in p["layers"][:i]:
        d += la["h"]
        s += la["h"] * p["soils"][la["s"]]["uw"]
    d += z
    s += z * p["soils"][p["layers"][i]["s"]]["uw"]
    return s - GW * max(0.0, d - p["wt"])


def locate(case_loc, p, prof):
    """(layer index, depth within) by the rule of the statement."""
    n = len(p["layers"])
    if "index" in case_loc:
        return range(n)[case_loc["index"]], 0.0
    d, tops = case_loc["depth"], gen.depth_tops(p)
    i = max(k for k in range(n) if tops[k] <= d or k == 0)
    return i, d - tops[i]


def loc_of(o, p, prof, key="loc"):
    lo = o[key]
    i, z = locate(lo, p, prof)
    if "depth" in lo:
        # at an interface floating-point sums decide; take the library's side
        t = min(gen.depth_tops(p), key=lambda x: abs(x - lo["depth"]))
        if t > 0 and abs(t - lo["depth"]) < 1e-6 * t:
            return prof.location(lo["wf"], depth=lo["depth"]), None
    return ps.site.Location(i, prof[i], lo["wf"], z), (i, z)


def trapz_cum(y, dx):
    return np.r_[0.0, np.cumsum((y[1:] + y[:-1]) / 2) * dx]


def smooth(f, mot, y, bw):
    """Smoothing, or linear interpolation with constant ends."""
    f = np.asarray(f, dtype=float)
    if bw is None:
        mf = np.asarray(mot.freqs)
        out = np.empty(len(f), dtype=np.asarray(y).dtype)
        for k, x in enumerate(f):
            if x <= mf[0]:
                out[k] = y[0]
            elif x >= mf[-1]:
                out[k] = y[-1]
            else:
                j = np.searchsorted(mf, x, side="right") - 1
                out[k] = y[j] + (y[j + 1] - y[j]) * (x - mf[j]) / (mf[j + 1] - mf[j])
        return out
    return pykooh.smooth(f, np.asarray(mot.freqs), np.asarray(y), bw)


def expected(o, calc, p, t):
    """(references, values, absolute tolerance)"""
    prof, mot, lin = calc.profile, calc.motion, calc.loc_input
    k = o["kind"]
    n = len(p["layers"])
    tops = gen.depth_tops(p)
    mids = [tops[i] + p["layers"][i]["h"] / 2 for i in range(n - 1)]
    if k in outs.TS:
        loc, at = loc_of(o, p, prof)
        if k in ("AccelTS", "AriasTS"):
            tf = calc.calc_accel_tf(lin, loc)
        else:
            tf = calc.calc_strain_tf(lin, loc)
        if k == "StrainTS" and o["percent"]:
            tf = tf * 100
        if k == "StressTS":
            la = loc.layer
            tf = tf * (la.comp_shear_mod if o["damped"] else la.shear_mod)
            if o["normalized"]:
                if at is None:
                    t.reject("interface")
                tf = tf / eff_stress(p, *at)
        y = np.array(mot.calc_time_series(tf))
        if k == "AriasTS":
            y = np.pi * GW / 2 * trapz_cum(y**2, mot.time_step)
        return np.arange(len(y)) * mot.time_step, y, 1e-10 * np.abs(y).max()
    if k in outs.SPECTRA:
        loc, _ = loc_of(o, p, prof)
        tf = calc.calc_accel_tf(lin, loc)
        f = o["f"]
        if k == "FAS":
            bw = 30 if o["ko"] == "default" else o["ko"]
            y = smooth(f, mot, np.abs(tf) * np.abs(mot.fourier_amps), bw)
        elif k == "RS":
            y = mot.calc_osc_accels(np.array(f), o["damp"], tf)
        else:
            loc2, _ = loc_of(o, p, prof, "loc2")
            if k == "ATF":
                y = calc.calc_accel_tf(loc, loc2)
                if o["absolute"]:
                    y = np.abs(y)
                y = smooth(f, mot, y, None if o["ko"] == "default" else o["ko"])
            else:
                num = mot.calc_osc_accels(np.array(f), o["damp"], calc.calc_accel_tf(lin, loc2))
                y = num / mot.calc_osc_accels(np.array(f), o["damp"], tf)
        return np.array(f), np.asarray(y), 1e-10 * np.nanmax(np.abs(y))
    lay = [prof[i] for i in range(n - 1)]
    if k == "MaxStrain":
        return np.r_[0, mids], np.r_[0, [la.strain_max for la in lay]], 0
    if k == "CSR":
        y = [0.65 * la.strain_max * la.shear_mod / eff_stress(p, i, p["layers"][i]["h"] / 2) for i, la in enumerate(lay)]
        return np.r_[0, mids], np.r_[y[0], y], 0
    if k == "MaxAccel":
        y = []
        for i in range(n):
            tf = calc.calc_accel_tf(lin, ps.site.Location(i, prof[i], "within", 0.0))
            y.append(mot.calc_peak(tf))
        return np.array(tops), np.array(y), 1e-7 * max(y)
    y = {
        "Damping": lambda la: la.damping,
        "ModReduc": lambda la: la.shear_mod / la.initial_shear_mod,
        "InitialVel": lambda la: p["layers"][prof.index(la)]["vs"],
        "CompatVel": lambda la: np.min(np.sqrt(np.asarray(la.shear_mod) / (la.unit_wt / GW))),
    }[k]
    if k == "InitialVel":
        y = [la["vs"] for la in p["layers"][:-1]]
    else:
        y = [y(la) for la in lay]
    return np.array(tops), np.r_[y[0], y], 0


@st.composite
def case_(draw):
    ts = draw(st.sampled_from([True, True, False]))
    calc = draw(st.sampled_from(["LE", "EQL", "EQL", "FDM-ka02", "FDM-zr15"]))
    kinds = list(outs.SPECTRA) + (list(outs.TS) if ts else []) + ["InitialVel", "CompatVel", "MaxAccel"]
    if calc[:3] != "FDM":
        kinds += ["Damping", "ModReduc"]
    if calc != "LE":
        kinds += ["MaxStrain"]
    if calc == "EQL":
        kinds += ["CSR"]
    if calc[:3] == "FDM":
        # one shear modulus per frequency
        kinds = [k for k in kinds if k != "StressTS"]
    return {
        "run": draw(outs.run(max_layers=5, ts=ts, calcs=[calc])),
        "o": draw(st.lists(outs.output(kinds), min_size=1, max_size=6)),
        "strong": draw(st.sampled_from([None, 50.0, 1000.0, 1e5])),
        "wt": draw(st.sampled_from([None, 0.0, 1000.0])),
        # another profile the output has recorded before
        "before": draw(st.none() | outs.run(max_layers=5, ts=ts, calcs=[calc]).map(lambda r: r["p"])),
    }


def fn(case, t):
    run = case["run"]
    p = run["p"]
    if case.get("strong") and run["calc"] == "LE":
        # linear response to a motion as strong as needed for any strain
        key = "pga" if run["m"]["kind"] == "ts" else "amp"
        run = dict(run, m=dict(run["m"], **{key: run["m"][key] * case["strong"]}))
    if case["wt"] is not None:
        p["wt"] = case["wt"]
    if not all(outs.usable(o, p) for o in case["o"]):
        t.reject("normalised stress needs a depth in the soil")
    calc = outs.do_run(ps, run)
    before = None
    if case.get("before"):
        before = outs.do_run(ps, dict(run, p=case["before"]), mot=calc.motion)
    for o in case["o"]:
        want_ref, want, atol = expected(o, calc, p, t)
        out = outs.build_output(ps, o)
        out(calc)
        got_ref, got = np.asarray(out.refs), np.asarray(out.values)
        gen.close(got_ref.astype(float), want_ref.astype(float), rtol=1e-9, atol=1e-12, what=f"{o['kind']} references")
        gen.close(got, want, rtol=1e-7, atol=atol, what=o["kind"])
        if hasattr(out, "times"):
            gen.close(np.asarray(out.times), got_ref, rtol=0, what="times")
        if hasattr(out, "freqs"):
            gen.close(np.asarray(out.freqs, dtype=float), want_ref, rtol=0, what="freqs")
        if hasattr(out, "periods"):
            gen.close(np.asarray(out.periods, dtype=float), 1 / want_ref, rtol=1e-12, what="periods")
        # a later result does not change an earlier one
        out(calc)
        gen.close(np.asarray(out.values)[:, 0], want, rtol=1e-7, atol=atol, what=f"{o['kind']} first of two")
        gen.close(np.asarray(out.values)[:, 1], want, rtol=1e-7, atol=atol, what=f"{o['kind']} second of two")
        if before is not None and outs.usable(o, case["before"]):
            out = outs.build_output(ps, o)
            out(before)
            out(calc)
            col = np.asarray(out.values)[:, -1]
            gen.close(col[: len(want)], want, rtol=1e-7, atol=atol, what=f"{o['kind']} after another profile")
            assert np.all(np.isnan(np.asarray(col[len(want):], dtype=float))), f"{o['kind']}: more values than the profile has"
            t.label("recorded another profile before")
        t.label(o["kind"])
        t.nt(len(p["layers"]) > 3 if o["kind"] in outs.PROFILE else o["loc"] != {"wf": "outcrop", "index": 0})
    t.label(run["calc"])
    t.label("random vibration", run["m"]["kind"] == "rvt")


# ------------------------------------------------------------ amplification plot
@st.composite
def evolv_case(draw):
    run = draw(outs.run(max_layers=4, ts=draw(st.booleans()), calcs=["LE", "EQL", "FDM-ka02"]))
    f = draw(st.lists(gen.logf(2.0, 20.0), min_size=2, max_size=6, unique=True))
    return {
        "run": run,
        "metric": draw(st.sampled_from(["accel_tf", "site_amp"])),
        "depths": draw(st.none() | st.lists(gen.fl(0.0, 100.0, 4), min_size=2, max_size=5, unique=True)),
        "f": sorted(f),
        "norm": draw(st.booleans()),
        "div": draw(st.booleans()),
        "wf": draw(st.sampled_from([None, "within", "outcrop"])),
        "damp": draw(st.none() | gen.fl(0.01, 0.2, 2)),
    }


def fn_evolv(case, t):
    import matplotlib.pyplot as plt

    calc = outs.do_run(ps, case["run"])
    p, mot, prof = case["run"]["p"], calc.motion, calc.profile
    f = np.array(case["f"])
    mf = np.asarray(mot.freqs)
    if f[0] < mf[mf > 0][0] or f[-1] > mf[-1]:
        t.reject("frequencies outside the motion")
    depths = case["depths"] and sorted(case["depths"])
    kw = {}
    if case["wf"]:
        kw["wave_field_out"] = case["wf"]
    if case["damp"] is not None and case["metric"] == "site_amp":
        kw["osc_damping"] = case["damp"]
    fig, ax = plt.subplots()
    try:
        res = ps.output.plot_amplification_evolv(
            calc,
            metric=case["metric"],
            depths=None if depths is None else np.array(depths),
            freqs=f,
            normalized=case["norm"],
            diverging_cmap=case["div"],
            ax=ax,
            **kw,
        )
        assert res is ax
        mesh = ax.collections[0]
        got = np.asarray(mesh.get_array())
        xy = np.asarray(mesh.get_coordinates())
    finally:
        plt.close(fig)
    if depths is None:
        depths = np.linspace(0, gen.total_depth(p), 50)
    want = []
    damp = kw.get("osc_damping", 0.05)
    for d in depths:
        tops = gen.depth_tops(p)
        near = min(abs(d - x) for x in tops)
        if 0 < near < 1e-6:
            t.reject("interface")
        i, z = locate({"depth": d}, p, prof)
        loc = ps.site.Location(i, prof[i], case["wf"] or "within", z)
        tf = calc.calc_accel_tf(calc.loc_input, loc)
        if case["metric"] == "accel_tf":
            want.append(np.interp(np.log(f), np.log(mf[mf > 0]), np.abs(tf)[mf > 0]))
        else:
            want.append(mot.calc_osc_accels(f, damp, tf) / mot.calc_osc_accels(f, damp))
    want = np.array(want)
    if case["norm"]:
        want = want / want[-1]
    gen.close(xy[:, :, 0], np.tile(f, (len(depths), 1)), rtol=1e-12, what="frequencies")
    gen.close(xy[:, :, 1], np.tile(np.array(depths)[:, None], (1, len(f))), rtol=1e-12, what="depths")
    gen.close(got.reshape(want.shape), want, rtol=1e-6, atol=1e-9 * np.abs(want).max(), what="amplification")
    t.nt()
    t.label(case["metric"])


SUBS = [
    Sub("definitions", case_, fn, 1600),
    Sub("evolution", evolv_case, fn_evolv, 80),
]
