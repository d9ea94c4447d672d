"""C19: record loaders."""

import os
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

import pystrata as ps

from .. import gen
from ..core import Sub

RULE = (
    "records of 1-3600 values written by an independent AT2 or SMC writer into a scratch folder with random header text, "
    "values per line, exponents, comments and scale factors, then loaded; non-trivial = at least two data lines"
)
ASSUMPTIONS = ["AT2 headers state the number of values and the time step as the first two words of the fourth line"]


def warmup():
    pass


TEXT = st.text(alphabet="abcXYZ 0123456789:;,.#()-=/'|!", min_size=0, max_size=30)


def scratch():
    return tempfile.TemporaryDirectory(dir=os.environ.get("PBT_SCRATCH"))


VAL = st.floats(-3, 3, width=32) | st.sampled_from([0.0, 1e-7, -9.87654e-6, 999.0, -123.456]) | gen.logf(1e-9, 1e3)


def series(case):
    """The values of a record: those of the case, repeated with a drift."""
    return [x + 1e-3 * k for k in range(case.get("rep", 1)) for x in case["v"]]


@st.composite
def at2_case(draw):
    return {
        "v": draw(st.lists(VAL, min_size=1, max_size=60)),
        "rep": draw(st.sampled_from([1, 1, 1, 1, 5, 60])),
        "per": draw(st.integers(1, 8) | st.integers(9, 40)),
        "fmt": draw(st.sampled_from(["%15.6E", "%16.8E", "  %.9e", "%15.7E", " %.5f"])),
        "h1": draw(TEXT), "h2": draw(TEXT), "h3": draw(TEXT),
        "dt": draw(st.sampled_from(["0.0100", ".0050", "0.005", "2.0E-02", "0.01953125"])),
        "tail": draw(st.sampled_from(["NPTS, DT", "  NPTS,  DT", "NPTS, DT, extra text 3 4"])),
        "lead": draw(st.sampled_from(["", "   "])),
        "scale": draw(st.none() | gen.logf(1e-3, 1e3) | st.sampled_from([-1.0, 0.0, -0.25])),
        "end": draw(st.sampled_from(["\n", "", "\n\n"])),
        "path": draw(st.booleans()),
    }


def fn_at2(case, t):
    v = [case["fmt"] % x for x in series(case)]
    per = case["per"]
    lines = [case["h1"], case["h2"], case["h3"], f"{case['lead']}{len(v)}    {case['dt']}    {case['tail']}"]
    lines += ["".join(v[i : i + per]) for i in range(0, len(v), per)]
    with scratch() as d:
        path = os.path.join(d, "record.AT2")
        with open(path, "w") as fp:
            fp.write("\n".join(lines) + case["end"])
        kw = {} if case["scale"] is None else {"scale": case["scale"]}
        m = ps.motion.TimeSeriesMotion.load_at2_file(Path(path) if case["path"] else path, **kw)
    s = 1.0 if case["scale"] is None else case["scale"]
    gen.close(m.accels, s * np.array([float(x) for x in v]), rtol=1e-12, what="accelerations")
    gen.close(m.time_step, float(case["dt"]), rtol=1e-12, what="time step")
    assert m.description == case["h2"].strip(), "description"
    assert str(m.filename) == path
    n = len(v)
    gen.close(m.times, float(case["dt"]) * np.arange(n), rtol=1e-12, what="times")
    gen.close(m.pga, np.abs(m.accels).max(), rtol=1e-6, atol=1e-12 * n, what="pga")
    t.nt(n > per)
    t.label("exact multiple", n % per == 0)
    t.label("long lines", per > 8 and n > per)


@st.composite
def smc_case(draw):
    return {
        "rep": draw(st.sampled_from([1, 1, 1, 1, 5, 60])),
        "v": draw(st.lists(VAL, min_size=1, max_size=60)),
        "sta": draw(TEXT), "comp": draw(TEXT),
        "other": draw(st.lists(TEXT, min_size=9, max_size=9)),
        "ints": draw(st.lists(st.integers(-99999999, 999999999), min_size=48, max_size=48)),
        "floats": draw(st.lists(st.floats(-1e9, 1e9, width=32) | st.sampled_from([1.7e38]), min_size=50, max_size=50)),
        "sps": draw(st.sampled_from([100.0, 200.0, 50.0, 256.0, 1000.0])),
        "comments": draw(st.lists(TEXT, max_size=8)) if draw(st.integers(0, 7)) else [f"line {i}" for i in range(draw(st.sampled_from([11, 25, 120])))],
        "bar": draw(st.sampled_from(["| ", "|", "| ", ""])),
        "wide": draw(st.booleans()),
        "scale": draw(st.none() | gen.logf(1e-3, 1e3) | st.sampled_from([-1.0, 0.0, 981])),
        "corrected": draw(st.integers(0, 9)),
        "end": draw(st.sampled_from(["\n", "", "\n\n"])),
    }


def smc_value(x, wide):
    """Ten characters, as in the format of the USGS files."""
    if wide:
        s = f"{x:10.4E}"  # 1.2345E-02 fills all ten columns
        if len(s) > 10:
            s = f"{x:10.3E}"
        if len(s) == 10:
            return s
    m, e = f"{x:.4E}".split("E")
    s = f"{m}E{int(e)}"
    return s.rjust(10) if len(s) <= 10 else f"{x:10.2E}"


def fn_smc(case, t):
    v = [smc_value(x, case["wide"]) for x in series(case)]
    assert all(len(x) == 10 for x in v), v
    refused = case["corrected"] == 0
    o = case["other"]
    sta = "station =" + (case["sta"] or "X") + "component=" + (case["comp"] or "Y")
    text = ["1 UNCORRECTED ACCELEROGRAM" if refused else "2 CORRECTED ACCELEROGRAM"] + o[:4] + [sta] + o[4:9]
    ints = list(case["ints"])
    ints[15] = len(case["comments"])
    ints[16] = len(v)
    floats = list(case["floats"])
    floats[1] = case["sps"]
    lines = text
    lines += ["".join(f"{x:10d}" for x in ints[i : i + 8]) for i in range(0, 48, 8)]
    lines += ["".join(f"{x:15.7E}" for x in floats[i : i + 5]) for i in range(0, 50, 5)]
    lines += [case.get("bar", "| ") + c for c in case["comments"]]
    lines += ["".join(v[i : i + 8]) for i in range(0, len(v), 8)]
    kw = {} if case["scale"] is None else {"scale": case["scale"]}
    with scratch() as d:
        path = os.path.join(d, "record.smc")
        with open(path, "w") as fp:
            fp.write("\n".join(lines) + case["end"])
        try:
            m = ps.motion.TimeSeriesMotion.load_smc_file(path, **kw)
        except RuntimeWarning:
            assert refused, "corrected file refused"
            t.label("refused")
            return
    assert not refused, "uncorrected file accepted"
    s = 1.0 if case["scale"] is None else case["scale"]
    gen.close(m.accels, s * np.array([float(x) for x in v]), rtol=1e-12, what="accelerations")
    gen.close(m.time_step, 1 / case["sps"], rtol=1e-12, what="time step")
    for part in ((case["sta"] or "X").strip(), (case["comp"] or "Y").strip()):
        assert part in m.description, "description"
    assert str(m.filename) == path
    t.nt(len(v) > 8)
    t.label("comments", bool(case["comments"]))
    t.label("exact multiple", len(v) % 8 == 0)


SUBS = [
    Sub("AT2", at2_case, fn_at2, 700),
    Sub("SMC", smc_case, fn_smc, 700),
]
