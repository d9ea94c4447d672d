"""Output cases shared by C20-C22: strategies and builders."""

import numpy as np
from hypothesis import strategies as st

from . import gen

WITHIN = ["StrainTS", "StressTS"]
TS = ["AccelTS", "AriasTS"] + WITHIN
SPECTRA = ["FAS", "RS", "ATF", "RSR"]
PROFILE = ["MaxStrain", "Damping", "ModReduc", "InitialVel", "CompatVel", "CSR", "MaxAccel"]
NAMES = {
    "AccelTS": "AccelerationTSOutput", "AriasTS": "AriasIntensityTSOutput", "StrainTS": "StrainTSOutput",
    "StressTS": "StressTSOutput", "FAS": "FourierAmplitudeSpectrumOutput", "RS": "ResponseSpectrumOutput",
    "ATF": "AccelTransferFunctionOutput", "RSR": "ResponseSpectrumRatioOutput", "MaxStrain": "MaxStrainProfile",
    "Damping": "DampingProfile", "ModReduc": "ShearModReducProfile", "InitialVel": "InitialVelProfile",
    "CompatVel": "CompatVelProfile", "CSR": "CyclicStressRatioProfile", "MaxAccel": "MaxAccelProfile",
}


@st.composite
def oloc(draw, within=False, positive=False):
    """Output location: by depth or by index."""
    wf = "within" if within else draw(st.sampled_from(["outcrop", "within", "incoming_only"]))
    if draw(st.booleans()):
        lo = 0.5 if positive else 0.0
        return {"wf": wf, "depth": draw(st.sampled_from([0.0, 1.0]).map(lambda x: max(x, lo)) | gen.logf(0.5, 150.0))}
    return {"wf": wf, "index": draw(st.sampled_from([1, -1] if positive else [0, 0, 1, -1, -2]))}


@st.composite
def output(draw, kinds=None):
    kind = draw(st.sampled_from(kinds or TS + SPECTRA + PROFILE))
    o = {"kind": kind}
    if kind in TS:
        o["loc"] = draw(oloc(within=kind in WITHIN))
    if kind == "StrainTS":
        o["percent"] = draw(st.booleans())
    if kind == "StressTS":
        o["damped"] = draw(st.booleans())
        o["normalized"] = draw(st.booleans())
        if o["normalized"]:
            o["loc"] = draw(oloc(within=True, positive=True))
    if kind in SPECTRA:
        f = draw(st.lists(gen.logf(0.1, 60.0), min_size=1, max_size=6, unique=True))
        o["f"] = sorted(f) if draw(st.booleans()) or kind == "FAS" else f
        o["list"] = draw(st.booleans())
        o["loc"] = draw(oloc())
    if kind in ("FAS", "ATF"):
        o["ko"] = draw(st.sampled_from([None, 30, 20.0, "default", 30, 20.0, "default", None, 200]))
    if kind == "ATF":
        o["absolute"] = draw(st.booleans()) if o["ko"] in (None, "default") else True
    if kind in ("RS", "RSR"):
        o["damp"] = draw(st.sampled_from([0.05, 0.02]) | gen.fl(0.01, 0.2, 3) | gen.logf(0.002, 0.5, 3))
    if kind in ("ATF", "RSR"):
        o["loc2"] = draw(oloc())
    return o


def build_oloc(ps, o):
    return ps.output.OutputLocation(o["wf"], **{k: o[k] for k in ("depth", "index") if k in o})


def build_output(ps, o):
    cls = getattr(ps.output, NAMES[o["kind"]])
    k = o["kind"]
    if k in PROFILE:
        return cls()
    loc = build_oloc(ps, o["loc"])
    if k in ("AccelTS", "AriasTS"):
        return cls(loc)
    if k == "StrainTS":
        return cls(loc, **({"in_percent": True} if o["percent"] else {}))
    if k == "StressTS":
        return cls(loc, **{k: True for k in ("damped", "normalized") if o[k]})
    f = list(o["f"]) if o["list"] else np.array(o["f"])
    kw = {"ko_bandwidth": o["ko"]} if o.get("ko", "default") != "default" else {}
    if k == "FAS":
        return cls(f, loc, **kw)
    if k == "RS":
        return cls(f, loc, o["damp"])
    if k == "ATF":
        return cls(f, loc, build_oloc(ps, o["loc2"]), **({} if o["absolute"] else {"absolute": False}), **kw)
    return cls(f, loc, build_oloc(ps, o["loc2"]), o["damp"])


def usable(o, p):
    """Normalised stress needs a depth inside the soil column."""
    if o["kind"] == "StressTS" and o["normalized"] and "depth" in o["loc"]:
        return o["loc"]["depth"] < 0.999 * gen.total_depth(p)
    return True


@st.composite
def run(draw, max_layers=4, ts=True, calcs=("LE", "EQL")):
    """A calculation: profile, motion, calculator and input location."""
    p = draw(gen.with_big(gen.profiles(nonlinear="mixed", max_layers=max_layers, dmin=0.005, dmax=0.06, hmax=25.0, vmin=100.0, vmax=900.0, hs_thick=False), nmax=20, every=20, nonlinear="mixed", depth=(10.0, 120.0)))
    if draw(st.booleans()):
        # whole numbers
        for la in p["layers"]:
            la["h"], la["vs"] = int(np.ceil(la["h"])), int(la["vs"])
    return {
        "p": p,
        "m": draw(gen.ts_motions(nmin=16, nmax=64, pga=(0.001, 0.3)) if ts else gen.rvt_motions()),
        "calc": draw(st.sampled_from(list(calcs))),
        "lin": draw(st.sampled_from(["outcrop", "incoming_only", "within"])),
    }


def do_run(ps, r, mot=None, calc=None, prof=None):
    """Run the calculation, with given objects where they are to be shared."""
    from .checks.c02 import make_calc

    prof = prof or gen.build_profile(ps, r["p"])
    calc = calc or make_calc(ps, r["calc"])
    calc(mot or gen.build_motion(ps, r["m"]), prof, prof.location(r["lin"], index=-1))
    return calc
