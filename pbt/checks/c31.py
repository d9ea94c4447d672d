"""C31: operations on separate objects do not influence each other."""

import copy
import os
import random
import tempfile
import warnings
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

import pykooh

import pystrata as ps
from pystrata import generic, tools, variation
from pystrata.logic_tree import Alternative, LogicTree, Node

from .. import gen, outs
from ..core import Sub
from ..isolate import fresh
from . import c14, c18, c23, c24, c25, c26, c28, c29, c30
from .c06 import warmup as _warmup

RULE = (
    "pools of two to five unrelated or nearly identical operations (soil models, published curves, analyses with every calculator and "
    "recorded outputs, motions, profile measures, randomizations, damping adjustment, logic trees, imports, velocity models), performed in a random "
    "order with repetitions, the caller editing the objects in between; every answer is compared with that of the same operation as the first "
    "one of a forked process; non-trivial = two different operations of one kind, or an operation repeated, in one history"
)
ASSUMPTIONS = ["objects are edited through their own attributes, tables of a class or module are not"]


def warmup():
    # compiled kernels and pyrvt tables are loaded before forking
    _warmup()
    c18.warmup()
    # straight to the kernels, so that no state of the package is left behind
    f = np.geomspace(0.1, 10.0, 8)
    for bandwidth in (20, 20.0):
        pykooh.smooth(f, f, np.ones(8), bandwidth)
    trapz = getattr(ps.propagation, "my_trapz", None)
    if trapz is not None:
        trapz(np.array([5.0, 0.0]), np.array([1.0, 2.0]), 7.0)


# ------------------------------------------------------------ operations
CALCS = ["LE", "EQL", "EQL", "ka02", "zr15", "ko:20", "ko:40", "QWL"]
SPOIL = st.booleans()


@st.composite
def run_op(draw, calcs=CALCS):
    kind = draw(st.sampled_from(["ts", "ts", "rvt"]))
    calc = draw(st.sampled_from(calcs))
    m = draw(gen.rvt_motions(amp=(1e-3, 0.2)) if kind == "rvt" or calc == "QWL" else gen.ts_motions(nmin=16, nmax=64, pga=(0.01, 0.8)))
    o = {
        "p": draw(gen.profiles(nonlinear="mixed", max_layers=3, dmin=0.005, dmax=0.06, hmax=20.0, vmin=100.0, vmax=700.0)),
        "m": m,
        "calc": calc,
        "lin": draw(st.sampled_from(["outcrop", "outcrop", "within", "incoming_only"])),
        "disc": draw(st.sampled_from([None, None, 10.0, 20.0])),
    }
    if calc == "QWL":
        o["atten"] = draw(st.sampled_from([None, 0.02, 0.04]))
        o["method"] = draw(st.sampled_from(["standard", "ba23"]))
    elif calc != "LE":
        o["kw"] = {
            "strain_ratio": draw(st.sampled_from([0.65, 0.65, 1.0])),
            "tolerance": draw(st.sampled_from([0.01, 0.1])),
            "max_iterations": draw(st.integers(2, 6)),
            "strain_limit": draw(st.sampled_from([None, 0.05, 2e-3])),
        }
        o["defaults"] = draw(st.booleans())
    if calc != "QWL":
        kinds = outs.SPECTRA + outs.PROFILE + (outs.TS if m["kind"] == "ts" else [])
        o["outs"] = draw(st.lists(outs.output(kinds), min_size=1, max_size=2))
    return o


def curves(soil, q):
    out = [soil.name, soil.unit_wt, soil.damping_min]
    for c in (soil.mod_reduc, soil.damping):
        out += [c.strains, c.values, c(np.array(q))] if hasattr(c, "strains") else [c]
    return out


def do_run(o):
    pr = ps.propagation
    prof = gen.build_profile(ps, o["p"])
    if o["disc"]:
        prof = prof.auto_discretize(o["disc"], 0.25)
        if len(prof) > 30:
            prof = gen.build_profile(ps, o["p"])
    mot = gen.build_motion(ps, o["m"])
    loc = prof.location(o["lin"], index=-1)
    if o["calc"] == "QWL":
        calc = pr.QuarterWaveLenCalculator(site_atten=o["atten"], method=o["method"])
        calc(mot, prof, loc)
        return [calc.crustal_amp, calc.site_term], [prof]
    kw = {} if o.get("defaults") else o.get("kw", {})
    if o["calc"] == "LE":
        calc = pr.LinearElasticCalculator()
    elif o["calc"] == "EQL":
        calc = pr.EquivalentLinearCalculator(**kw)
    else:
        calc = pr.FrequencyDependentEqlCalculator(o["calc"], **kw)
    calc(mot, prof, loc)
    res, objs = [], [prof, mot]
    res.append(calc.calc_accel_tf(loc, prof.location("outcrop", index=0)))
    res.append(calc.calc_strain_tf(loc, ps.site.Location(0, prof[0], "within", prof[0].thickness / 2)))
    for la in prof:
        res += [la.strain, la.strain_max, la.shear_mod, la.damping, la.comp_shear_mod]
    for spec in o["outs"]:
        if not outs.usable(spec, o["p"]):
            continue
        out = outs.build_output(ps, spec)
        objs.append(out)
        try:
            out(calc)
            out(calc, name="again")
            res += [out.refs, out.values, list(out.names)]
        except (TypeError, ValueError, IndexError, AssertionError) as e:
            res.append("error " + type(e).__name__)
    return res, objs


def do_soil(o):
    k, c = o["model"], o["c"]
    if k == "published":
        names = ps.site.known_published_curves()
        names = list(names)
        name = names[c["i"] % len(names)]
        soil = ps.site.SoilType.from_published("published", c["uw"], name)
        q = c["q"]
        return curves(soil, q) + [len(names)], [soil]
    if k == "given":
        soil = gen.build_soil(ps, c)
        return curves(soil, [1e-7, 2e-5, 1e-3, 0.1]), [soil]
    x, kw = c14.strains_kw(c)
    K = c14.kw
    if k == "darendeli":
        soil = ps.site.DarendeliSoilType(
            c["uw"], c["name"], **K(plas_index=c["pi"], ocr=c["ocr"], stress_mean=c["s"], freq=c["f"], num_cycles=c["n"], damping_min=c["dm"]), **kw
        )
    elif k == "menq":
        soil = ps.site.MenqSoilType(
            c["name"], c["uw"], **K(coef_unif=c["cu"], diam_mean=c["d50"], stress_mean=c["s"], num_cycles=c["n"], damping_min=c["dm"]), **kw
        )
    elif k == "rollins":
        soil = ps.site.RollinsEtAlSoilType(
            c["uw"], c["name"], **K(coef_unif=c["cu"], stress_mean=c["s"], num_cycles=c["n"], damping_min=c["dm"]), **kw
        )
    elif k == "two":
        if c["coeffs"] is not None:
            kw["coeffs"] = ps.site.TwoParamModifiedHyperbolicCoeffs(**c["coeffs"])
        soil = ps.site.TwoParamModifiedHyperbolicSoilType(c["name"], c["uw"], **K(stress_mean=c["s"]), **kw)
    elif k == "alemu":
        soil = ps.site.AlemuEtAlSoilType(
            c["uw"], c["name"], **K(plas_index=c["pi"], ocr=c["ocr"], stress_mean=c["s"], fines_cont=c["fc"]), **kw
        )
    elif k == "kishida":
        soil = ps.site.KishidaSoilType(
            c["name"], **K(stress_vert=c["s"], organic_content=c["oc"], lab_consol_ratio=c["lcr"], unit_wt=None if c["no_uw"] else c["uw"]), **kw
        )
    else:
        W = ps.site.WangSoilType
        soil = W(c["group"], unit_wt=c["uw"], name=c["name"], **K(damping_min=c["dm"]), **dict(c["pars"]), **kw)
        more = [W.calc_shear_mod(c["group"], **c["pars"]), W.calc_damping_min(c["group"], **c["pars"])]
        return curves(soil, np.geomspace(1e-7, 0.1, 6)) + more, [soil]
    return curves(soil, np.geomspace(1e-7, 0.1, 6)), [soil]


def do_motion(o):
    k, c = o["motion"], o["c"]
    if k == "source":
        m = c18.build_source(c)
    elif k == "compat":
        m = c18.build_compat(c)[0]
    elif k == "user":
        f, fas = gen.rvt_fas(c["m"])
        m = ps.motion.RvtMotion(f, fas, c["m"]["dur"], **c18.peak_kw(c["peak"]))
    else:
        m = gen.build_motion(ps, c)
    of = np.array(o["of"])
    tf = 1 / (1 + 0.2j * np.asarray(m.freqs))
    res = [m.freqs, m.fourier_amps, m.pga, m.pgv, m.calc_osc_accels(of, o["damp"]), m.calc_osc_accels(of, o["damp"], tf), m.calc_peak(tf), m.calc_pgv(tf)]
    if k == "ts":
        res += [m.arias_intensity, m.cav, m.times, m.calc_time_series(tf)]
    return res, [m]


def plain(prof):
    return [prof.wt_depth] + [
        [la.thickness, la.depth, la.initial_shear_vel, la.damping_min, la.unit_wt, la.stress_vert(), la.soil_type.name] for la in prof
    ]


def do_vary(o):
    prof = gen.build_profile(ps, o["p"])
    np.random.seed(o["seed"])
    kw = {}
    objs = [prof]
    if o["toro"] is not None:
        kw["var_thickness"] = variation.ToroThicknessVariation(**o["toro"])
    if o["vel"] is not None:
        kw["var_velocity"] = c25.build_model(o["vel"])
    n = 2
    if o["soil"] is not None:
        kw["var_soiltypes"] = c26.build_var(o["soil"])
        n = max(2, len(o["soil"].get("pct", [])))
    res = []
    for v in variation.iter_varied_profiles(prof, n, **kw):
        objs.append(v)
        res.append(plain(v))
        res.append([np.asarray(c26.curve_values(la.soil_type.damping)) for la in v])
        res.append([c26.curve_values(la.soil_type.mod_reduc) for la in v if la.soil_type.mod_reduc is not None])
    return res, objs


def do_measure(o):
    prof = gen.build_profile(ps, o["p"])
    z = o["z"]
    res = [plain(prof), prof.time_average_vel(z), prof.vs30(), prof.site_attenuation(), prof.simplified_rayliegh_vel(), prof.pore_pressure(z)]
    res.append(list(prof.lookup_depth(z)))
    res.append([[la.stress_vert(la.thickness / 2, True), la.stress_mean(la.thickness / 2, True)] for la in prof])
    disc = prof.auto_discretize(o["mf"], 0.25, nonlinear_only=o["nlo"])
    res.append(plain(disc)[:60])
    prof2 = prof.copy()
    return res + [plain(prof2)], [prof, disc]


def do_adjust(o):
    prof = gen.build_profile(ps, o["p"])
    for la in prof:
        la.damping_min
    res, scatter = tools.adjust_damping_values(prof, o["target"], exclude=c28.chooser(o["e"], prof))
    return [plain(res), scatter, tools.calc_atten_scatter(prof)], [res]


def do_tree(o):
    if o["tree"] == "miller":
        t = LogicTree([Node.from_miller_rice(o["name"], o["n"]), Node("other", [1, 2])])
    else:
        t = c23.build(o["c"])
    res = [[dict(b.as_dict()), b.weight] for b in t]
    return res, [t]


def do_other(o):
    if o["what"] == "kea16":
        df = generic.kea16_profile(np.array(o["c"]["d"], dtype=float), o["c"]["vs30"], o["c"]["reg"])
        return [df.index.to_numpy(), df["vs_median"].to_numpy(), df["std_vs_ln_units"].to_numpy()], [df]
    if o["what"] == "stress":
        c = o["c"]
        return [tools.calc_mean_eff_stress(np.array(c["d"]), np.array(c["uw"]), c["wt"])], []
    fd, name = tempfile.mkstemp(suffix=".ctl", dir=os.environ.get("PBT_SCRATCH"))
    try:
        with os.fdopen(fd, "w") as fp:
            fp.write(o["c"]["text"])
        ctl = tools.read_nrattle_ctl(Path(name))
    finally:
        os.unlink(name)
    prof = tools.profile_from_nrattle_ctl(ctl)
    res = [ctl[k] for k in ("freq_count", "freq_max", "out_depth", "hs_vel_shear", "hs_density", "hs_layer", "inci_angle")]
    return res + [plain(prof)], [prof]


DO = {
    "run": do_run, "soil": do_soil, "motion": do_motion, "vary": do_vary, "measure": do_measure, "adjust": do_adjust, "tree": do_tree, "other": do_other,
}


# ------------------------------------------------------------- generation
@st.composite
def soil_op(draw):
    k = draw(st.sampled_from(["darendeli", "menq", "rollins", "two", "alemu", "kishida", "wang", "wang", "published", "published", "given"]))
    if k == "published":
        c = {"i": draw(st.integers(0, 200)), "uw": draw(gen.fl(12, 22, 3)), "q": draw(st.lists(gen.logf(1e-7, 0.3), min_size=1, max_size=4))}
    elif k == "given":
        c = draw(gen.soil(nonlinear="mixed"))
    else:
        c = draw(
            {"darendeli": c14.DAR, "menq": c14.MENQ, "rollins": c14.ROLLINS, "two": c14.TWO, "alemu": c14.ALEMU, "kishida": c14.KISHIDA, "wang": c14.wang_case()}[k]
        )
    return {"model": k, "c": c}


@st.composite
def motion_op(draw):
    k = draw(st.sampled_from(["ts", "ts", "user", "source", "compat"]))
    c = draw({"ts": gen.ts_motions(nmin=16, nmax=128), "user": c18.user_case(), "source": c18.source_case(), "compat": c18.compat_case()}[k])
    return {"motion": k, "c": c, "of": draw(st.lists(gen.logf(0.2, 50.0), min_size=1, max_size=3)), "damp": draw(gen.logf(0.01, 0.3, 3))}


@st.composite
def vary_op(draw):
    has = draw(st.sampled_from([(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 1, 1)]))
    return {
        "p": draw(gen.profiles(nonlinear="mixed", max_layers=3, dmin=0.005, dmax=0.06)),
        "seed": draw(st.integers(0, 99)),
        "toro": draw(c24.params()) if has[0] else None,
        "vel": draw(c25.model_case()) if has[1] else None,
        "soil": draw(c26.var_case()) if has[2] else None,
    }


@st.composite
def vel_op(draw):
    """Velocity models with the parameters of a class, some of them replaced."""
    return {
        "p": draw(gen.profiles(nonlinear="mixed", max_layers=3, dmin=0.005, dmax=0.06)),
        "seed": draw(st.integers(0, 99)),
        "toro": None,
        "vel": draw(c25.model_case().filter(lambda m: "generic" in m["kind"])),
        "soil": None,
    }


@st.composite
def measure_op(draw):
    return {
        "p": draw(gen.profiles(nonlinear="mixed", max_layers=4)),
        "z": draw(gen.logf(0.5, 100.0)),
        "mf": draw(st.sampled_from([5.0, 20.0])),
        "nlo": draw(st.booleans()),
    }


@st.composite
def adjust_op(draw):
    return {"p": draw(c28.profile_()), "e": draw(c28.exclude_()), "target": draw(gen.logf(0.002, 0.1, 3))}


@st.composite
def tree_op(draw):
    if draw(st.integers(0, 11)) == 0:
        return {"tree": "miller", "name": draw(st.sampled_from(["a", "vs"])), "n": draw(st.integers(2, 10))}
    return {"tree": "given", "c": draw(c23.case_())}


@st.composite
def other_op(draw):
    what = draw(st.sampled_from(["kea16", "stress", "ctl"]))
    if what == "kea16":
        c = draw(c29.kea_case())
    elif what == "stress":
        c = draw(c29.stress_case())
    else:
        c = draw(c30.ctl_case())
        c = {"text": c["text"]}
    return {"what": what, "c": c}


MAKE = {
    "run": run_op(), "soil": soil_op(), "motion": motion_op(), "vary": vary_op(), "measure": measure_op(), "adjust": adjust_op(), "tree": tree_op(),
    "other": other_op(),
}


@st.composite
def case_(draw, kinds=tuple(MAKE)):
    base = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(kinds))
        base.append({"k": k, "o": draw(MAKE[k])})
    twins = draw(
        st.lists(
            st.fixed_dictionaries(
                {"of": st.integers(0, 2), "leaf": st.integers(0, 400), "f": st.sampled_from([0.5, 0.8, 0.999, 1.0001, 1.25, 2.0]), "i": st.integers(0, 7)}
            ),
            min_size=0 if len(base) > 1 else 1,
            max_size=2,
        )
    )
    n = len(base) + len(twins)
    steps = draw(
        st.lists(
            st.fixed_dictionaries({"j": st.integers(0, n - 1), "spoil": st.booleans()}),
            min_size=2,
            max_size=6,
        )
    )
    return {"base": base, "twins": twins, "steps": steps}


@st.composite
def twins_case(draw, op, k, at=None):
    """One operation and two or three that differ in a number or a text, each once or twice."""
    tw = st.fixed_dictionaries(
        {"of": st.just(0), "leaf": st.integers(0, 9999), "f": st.sampled_from([0.5, 0.8, 0.999, 1.0001, 1.25, 2.0]), "i": st.integers(0, 7), "at": st.just(at)}
    )
    n = draw(st.integers(1, 3))
    order = draw(st.permutations(list(range(n + 1)))) + draw(st.lists(st.integers(0, n), max_size=2))
    return {
        "base": [{"k": k, "o": draw(op)}],
        "twins": [draw(tw) for _ in range(n)],
        "steps": [{"j": j, "spoil": draw(SPOIL)} for j in order],
    }


@st.composite
def similar_case(draw):
    """Two to four analyses that share the description of a motion, and often of a profile and outputs."""
    ops = draw(st.lists(run_op(), min_size=2, max_size=4))
    first = ops[0]
    for o in ops[1:]:
        if (o["calc"] == "QWL") != (first["calc"] == "QWL"):
            continue
        o["m"] = first["m"]
        keep = draw(st.lists(st.sampled_from(["p", "outs", "kw", "lin", "calc"]), max_size=4))
        for k in keep:
            if k in first and k in o:
                o[k] = first[k]
        if o.get("outs") and first["m"]["kind"] != "ts":
            o["outs"] = [x for x in o["outs"] if x["kind"] not in outs.TS]
    j = st.integers(0, len(ops) - 1)
    return {
        "base": [{"k": "run", "o": o} for o in ops],
        "twins": [],
        "steps": [{"j": x, "spoil": draw(SPOIL)} for x in draw(st.lists(j, min_size=2, max_size=5, unique=draw(st.booleans())).filter(lambda v: len(v) > 1))],
    }


# texts that may replace each other
TEXTS = [
    ["outcrop", "within", "incoming_only"], ["LE", "EQL", "ka02", "zr15", "ko:20", "ko:40", "ko:60"], ["standard", "ba23"], ["wna", "cena"],
    ["California", "Japan"], c18.PEAKS[:-1], sorted(c25.CLASSES), ["darendeli", "spid"], ["sand", "clay", "rock", "till", "gravel"], ["a", "b"],
]


FIXED = ("k", "model", "motion", "tree", "what", "kind", "group", "n", "text")


def leaf(x):
    return isinstance(x, (bool, int, float)) or (isinstance(x, str) and any(x in t for t in TEXTS))


def pick(x, rng, path=()):
    """A random leaf, each level chosen uniformly."""
    if leaf(x):
        return path
    keys = sorted((k for k in x if k not in FIXED), key=str) if isinstance(x, dict) else list(range(len(x))) if isinstance(x, list) else []
    rng.shuffle(keys)
    for k in keys:
        got = pick(x[k], rng, path + (k,))
        if got is not None:
            return got
    return None


def tweak(op, tw):
    op = copy.deepcopy(op)
    if op["k"] == "other" and op["o"]["what"] == "ctl":
        # another file
        op["o"]["c"]["text"] = op["o"]["c"]["text"].replace("2", "3") if tw["i"] % 2 else "! first\n" + op["o"]["c"]["text"]
        return op
    part = tw.get("at")
    path = pick(op["o"][part], random.Random(tw["leaf"]), (part,)) if part else pick(op["o"], random.Random(tw["leaf"]))
    if path is None:
        return op
    at = op["o"]
    for k in path[:-1]:
        at = at[k]
    v = at[path[-1]]
    if isinstance(v, bool):
        v = not v
    elif isinstance(v, int):
        # the soil of a layer is one of those listed
        v = max(v - 1, 0) if path[-1] == "s" else v + 1
    elif isinstance(v, float):
        # or the default of the operation
        v = v * tw["f"] if tw["i"] >= (4 if part == "vel" else 1) else None
    else:
        t = next(t for t in TEXTS if v in t)
        v = t[(t.index(v) + 1 + tw["i"]) % len(t)]
    at[path[-1]] = v
    return op


# ---------------------------------------------------------------- running
def norm(x):
    """Plain data of an answer."""
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in x.items()}
    if x is None or isinstance(x, (str, bool)):
        return x
    if isinstance(x, (int, float, complex, np.generic, np.ndarray)):
        a = np.asarray(x)
        if a.dtype.kind in "biufc":
            return np.array(a)
    return repr(type(x))


def spoil(x):
    """The caller edits what it was given."""
    if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in "fc":
        x[...] = x * 0.5 + 0.125
    elif isinstance(x, (list, tuple)):
        for v in x:
            spoil(v)


def edit(obj):
    if isinstance(obj, ps.site.SoilType):
        for c in (obj.mod_reduc, obj.damping):
            if hasattr(c, "strains"):
                c.strains = np.asarray(c.strains) * 2
                c.values = np.asarray(c.values) * 0.5
                c.values[...] = 0.25
        obj.name = "edited"
    elif isinstance(obj, ps.site.Profile):
        for la in obj:
            la.initial_shear_vel = 2 * la.initial_shear_vel
            la.damping_min = 0.09
        obj.wt_depth = 77.0
        del obj.layers[1:]
    elif isinstance(obj, LogicTree):
        for b in list(obj)[:3]:
            b.as_dict().clear()
        for nd in obj.nodes:
            nd.alts[-1] = Alternative("edited", 0.5)
            del nd.alts[0]
    elif hasattr(obj, "reset"):
        obj.reset()


def perform(op):
    """-> answer, objects made"""
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            res, objs = DO[op["k"]](op["o"])
        except Exception as e:
            return f"raised {type(e).__name__}", []
    return res, objs


def alone(op):
    return norm(perform(op)[0])


def history(ops, steps):
    out = []
    for s in steps:
        res, objs = perform(ops[s["j"]])
        out.append(norm(res))
        if s["spoil"]:
            spoil(res)
            for o in objs:
                edit(o)
    return out


def same(a, b, what):
    assert type(a) is type(b), f"{what}: {str(a)[:80]} instead of {str(b)[:80]}"
    if isinstance(a, list):
        assert len(a) == len(b), f"{what}: {len(a)} values instead of {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, f"{what}[{i}]")
    elif isinstance(a, dict):
        assert sorted(a) == sorted(b), f"{what}: {sorted(a)} instead of {sorted(b)}"
        for k in a:
            same(a[k], b[k], f"{what}[{k}]")
    elif isinstance(a, np.ndarray):
        if a.dtype.kind in "iub" and b.dtype.kind in "iub":
            assert np.array_equal(a, b), f"{what}: {a} instead of {b}"
        else:
            # numbers far below the largest are rounding
            with np.errstate(all="ignore"):
                top = np.nanmax(np.abs(np.where(np.isfinite(b), b, 0))) if b.size else 0.0
            gen.close(a, b, rtol=1e-8, atol=1e-11 * float(top), what=what)
    else:
        assert a == b, f"{what}: {a!r} instead of {b!r}"


def fn(case, t):
    ops = list(case["base"])
    for tw in case["twins"]:
        ops.append(tweak(ops[tw["of"] % len(case["base"])], tw))
    steps = [dict(s, j=s["j"] % len(ops)) for s in case["steps"]]
    got = fresh(history, ops, steps)
    want = {j: fresh(alone, ops[j]) for j in sorted({s["j"] for s in steps})}
    for i, s in enumerate(steps):
        op = ops[s["j"]]
        same(got[i], want[s["j"]], f"step {i}, {op['k']}")
        t.label(op["k"])
        if isinstance(want[s["j"]], str):
            t.label(f"{op['k']} {want[s['j']]}")
    used = [s["j"] for s in steps]
    kinds = {j: ops[j]["k"] for j in used}
    t.label("operation repeated", len(set(used)) < len(used))
    twin = any(ops[a] != ops[b] and kinds[a] == kinds[b] for a in kinds for b in kinds if a < b)
    t.label("two of one kind", twin)
    t.label("edited in between", any(s["spoil"] for s in steps[:-1]))
    t.nt(twin or len(set(used)) < len(used))


@st.composite
def qwl_op(draw):
    """A quarter-wavelength analysis alone."""
    o = draw(run_op(["QWL"]))
    o["method"] = draw(st.sampled_from(["ba23", "ba23", "standard"]))
    o["disc"] = None
    o["outs"] = []
    if "nf" in o["m"]:
        o["m"]["nf"] = draw(st.integers(6, 16))
    return o


def twins(kind, op=None, at=None):
    return lambda: twins_case(MAKE[kind] if op is None else op(), kind, at)


SUBS = [
    Sub("twins of an analysis", twins("run"), fn, 120),
    Sub("twins of a quarter-wavelength analysis", twins("run", qwl_op, "p"), fn, 200),
    Sub("twins of a soil", twins("soil"), fn, 200),
    Sub("twins of a motion", twins("motion"), fn, 250),
    Sub("twins of randomizations", twins("vary"), fn, 120),
    Sub("twins of a velocity model", twins("vary", vel_op, "vel"), fn, 250),
    Sub("twins of a measure", twins("measure"), fn, 150),
    Sub("twins of an adjustment", twins("adjust"), fn, 150),
    Sub("twins of a tree", twins("tree"), fn, 60),
    Sub("twins of a file or a model", twins("other"), fn, 100),
    Sub("mixed", case_, fn, 300),
    Sub("analyses", lambda: case_(("run",)), fn, 160),
    Sub("similar analyses", similar_case, fn, 260),
    Sub("soils", lambda: case_(("soil",)), fn, 300),
    Sub("models", lambda: case_(("motion", "vary", "vary", "adjust")), fn, 220),
]
