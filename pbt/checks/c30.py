"""C30: control files and tables build the profile they describe."""

import os
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pystrata import site, tools

from .. import gen
from ..core import Sub

RULE = (
    "nrattle control files written by an independent writer with comment lines, spacing and number formats varied, tables of "
    "layers, and fixed-width blocks broken over lines at generated widths; non-trivial = a comment or irregular spacing with two "
    "or more layers (control files), two or more layers (tables), or a line break between fields (fixed width)"
)
ASSUMPTIONS = ["comment lines of control files start with '!' in the first column", "layers are numbered from one", "lines of a fixed-width block hold complete fields"]

GRAV = 9.80665


def num(draw, x):
    """Write a number in one of the forms Fortran list-directed input accepts."""
    forms = [repr(float(x)), f"{x:.10g}", f"{x:.9e}"]
    if float(x) == int(x):
        forms += [str(int(x)), f"{int(x)}."]
    return draw(st.sampled_from(forms))


@st.composite
def ctl_case(draw):
    n = draw(st.integers(1, 8))
    layers = []
    for i in range(n):
        layers.append(
            dict(
                thick=gen.r(draw(gen.logf(0.0005, 0.5, 4)), 6),
                vel=draw(st.one_of(st.integers(1, 4).map(float), gen.logf(0.1, 3.5, 4))),
                dens=gen.r(draw(st.floats(1.4, 3.0)), 4),
                q=draw(st.one_of(st.just(0.0), st.just(1.0), gen.logf(0.001, 0.99, 3), gen.logf(1e-6, 1e-3, 3), gen.logf(1.01, 500.0, 4), gen.logf(500.0, 1e6, 3), st.integers(2, 100).map(float))),
            )
        )
    if draw(st.integers(0, 7)) == 0:
        # many layers
        n = draw(st.integers(9, 130))
        layers = [dict(layers[i % len(layers)], thick=gen.r(0.01 + 1e-4 * i, 6)) for i in range(n)]
    hs = dict(vel=draw(st.one_of(st.integers(1, 4).map(float), gen.logf(0.3, 4.0, 4))), dens=gen.r(draw(st.floats(1.8, 3.0)), 4))
    head = dict(
        count=draw(st.integers(2, 100000)),
        fmax=gen.r(draw(gen.logf(1.0, 200.0, 4)), 6),
        depth=draw(st.one_of(st.just(0.0), gen.logf(0.001, 1.0, 4))),
        angle=gen.r(draw(st.sampled_from([0.0, 0.0, 10.0, 37.5])), 4),
    )
    space = draw(st.booleans())

    def row(items):
        if not space:
            return " ".join(items)
        gaps = [" " * draw(st.integers(1, 6)) for _ in items]
        return " " * draw(st.integers(0, 4)) + "".join(a + b for a, b in zip(items, gaps)).rstrip() + " " * draw(st.integers(0, 3))

    rows = ["1.0", "run_" + draw(st.sampled_from(["a", "base case", "x1", "a!1", "new ! 2"]))]
    rows.append(row([str(head["count"]), num(draw, head["fmax"])]))
    rows.append(row([num(draw, head["depth"])]))
    for i, l in enumerate(layers):
        rows.append(row([str(i + 1)] + [num(draw, l[k]) for k in ("thick", "vel", "dens", "q")]))
    rows.append(row([num(draw, hs["vel"]), num(draw, hs["dens"])]))
    rows.append(row([str(draw(st.integers(n + 1, n + 1))), num(draw, head["angle"])]))
    ncom = 0
    text = []
    for r in rows:
        k = draw(st.sampled_from([0, 0, 1, 2]))
        for _ in range(k):
            text.append("!" + draw(st.sampled_from(["", " note", "1 0.02 0.3 1.9 20", " 3 2 1", "Revision"])))
            ncom += 1
        text.append(r)
    if draw(st.booleans()):
        text.append("! end")
    return dict(layers=layers, hs=hs, head=head, text="\n".join(text) + draw(st.sampled_from(["\n", ""])), rows=rows, ncom=ncom, space=space)


def ctl_fn(c, t):
    n = len(c["layers"])
    t.nt(n >= 2 and (c["ncom"] > 0 or c["space"]))
    t.label(f"comments:{c['ncom'] > 0}")
    fd, name = tempfile.mkstemp(suffix=".ctl", dir=os.environ.get("PBT_SCRATCH"))
    try:
        with os.fdopen(fd, "w") as fp:
            fp.write(c["text"])
        ctl = tools.read_nrattle_ctl(Path(name))
    finally:
        os.unlink(name)
    h = c["head"]

    def same(a, b, what):
        assert abs(float(a) - b) <= 1e-8 * abs(b) + 1e-15, f"{what}: read {a}, stated {b}"

    assert ctl["revision"].strip() == c["rows"][0] and ctl["prefix"].strip() == c["rows"][1], "the leading text lines differ"
    assert ctl["freq_count"] == h["count"], "number of frequencies"
    same(ctl["freq_max"], h["fmax"], "greatest frequency")
    same(ctl["out_depth"], h["depth"], "output depth")
    same(ctl["hs_vel_shear"], c["hs"]["vel"], "half-space velocity")
    same(ctl["hs_density"], c["hs"]["dens"], "half-space density")
    assert ctl["hs_layer"] == n + 1, "half-space layer number"
    same(ctl["inci_angle"], h["angle"], "incidence angle")
    tab = ctl["profile"]
    assert len(tab) == n, f"{len(tab)} layers read of {n} stated"
    for i, l in enumerate(c["layers"]):
        assert tab["layer"][i] == i + 1, "layer number"
        for k, key in (("thickness", "thick"), ("vel_shear", "vel"), ("density", "dens"), ("inv_qual", "q")):
            same(tab[k][i], l[key], f"{k} of layer {i + 1}")

    for rep in range(2):
        # Building the profile a second time from the same control data gives
        # the same profile.
        prof = tools.profile_from_nrattle_ctl(ctl)
        assert len(prof) == n + 1, f"profile of {len(prof)} layers from {n} layers over a half-space"
        assert prof.wt_depth == 0, "water table"
        depth = 0.0
        for i, l in enumerate(c["layers"] + [dict(thick=0.0, vel=c["hs"]["vel"], dens=c["hs"]["dens"], q=0.0)]):
            lay = prof[i]
            w = f"layer {i + 1} of the profile (build {rep + 1}): "
            same(lay.thickness, 1000 * l["thick"], w + "thickness (m)")
            same(lay.depth, depth, w + "depth (m)")
            for nm in ("initial_shear_vel", "shear_vel"):
                same(getattr(lay, nm), 1000 * l["vel"], w + nm + " (m/s)")
            a, b = float(lay.unit_wt), GRAV * l["dens"]
            assert abs(a - b) <= 1e-3 * b, f"{w}unit weight {a}, density gives {b}"
            q = l["q"]
            d = 0.0 if q < 1e-7 else (0.5 / q if q > 1 else 0.5 * q)
            same(lay.damping, d, w + "damping")
            same(lay.soil_type.damping, d, w + "damping of the soil type")
            depth += 1000 * l["thick"]
        # One gravity for every layer.
        ratio = [float(prof[i].unit_wt) / l["dens"] for i, l in enumerate(c["layers"])] + [float(prof[n].unit_wt) / c["hs"]["dens"]]
        assert max(ratio) - min(ratio) <= 1e-9 * max(ratio), "unit weights use different gravities"


# ---------------------------------------------------------------- tables
@st.composite
def table_case(draw):
    n = draw(st.integers(1, 8))
    rows = []
    for i in range(n):
        rows.append(
            dict(
                name=draw(st.sampled_from(["", "clay", "Sand 2", "rock", "clay"])),
                unit_wt=gen.r(draw(st.floats(12.0, 26.0)), 4),
                damping=draw(st.one_of(st.just(0.0), gen.logf(0.001, 0.2, 4))),
                thickness=gen.r(draw(gen.logf(0.3, 80.0, 4)), 6) if i < n - 1 else 0.0,
                vel_shear=draw(st.one_of(st.integers(80, 3000).map(float), gen.logf(60.0, 3500.0, 5))),
            )
        )
    if draw(st.integers(0, 7)) == 0:
        # many layers
        n = draw(st.integers(9, 130))
        rows = [dict(rows[i % len(rows)], thickness=1.0 + i / 8 if i < n - 1 else 0.0) for i in range(n)]
    cols = draw(st.permutations(["unit_wt", "damping", "thickness", "vel_shear"]))
    return dict(
        rows=rows,
        cols=list(cols),
        named=draw(st.booleans()),
        ints=draw(st.booleans()),
        index=draw(st.sampled_from(["range", "one", "reverse", "text", "repeat"])),
        extra=draw(st.booleans()),
        wt=draw(st.one_of(st.none(), st.floats(0.0, 50.0).map(lambda x: gen.r(x, 4)))),
    )


def table_fn(c, t):
    rows = c["rows"]
    n = len(rows)
    t.nt(n >= 2)
    cols = c["cols"] + (["name"] if c["named"] else [])
    df = pd.DataFrame({k: [r[k] for r in rows] for k in cols})
    if c["extra"]:
        df["layer"] = 7
    if c["ints"] and all(r["vel_shear"] == int(r["vel_shear"]) for r in rows):
        df["vel_shear"] = df["vel_shear"].astype(int)
    df.index = {"range": list(range(n)), "one": list(range(1, n + 1)), "reverse": list(range(n, 0, -1)), "text": [f"r{i}" for i in range(n)], "repeat": [0] * n}[c["index"]]
    before = df.copy(deep=True)
    prof = site.Profile.from_dataframe(df) if c["wt"] is None else site.Profile.from_dataframe(df, c["wt"])
    pd.testing.assert_frame_equal(df, before)
    assert prof.wt_depth == (c["wt"] or 0), "water-table depth"
    assert len(prof) == n, f"{len(prof)} layers from {n} rows"
    depth = 0.0
    for i, (lay, r) in enumerate(zip(prof, rows)):
        w = f"row {i + 1}: "
        assert lay.soil_type.name == (r["name"] if c["named"] else ""), w + "name"
        assert lay.unit_wt == r["unit_wt"] and lay.soil_type.unit_wt == r["unit_wt"], w + "unit weight"
        assert lay.soil_type.damping == r["damping"] and lay.damping == r["damping"], w + "damping"
        assert not lay.soil_type.is_nonlinear, w + "a table describes linear layers"
        assert lay.thickness == r["thickness"], w + "thickness"
        for k in ("shear_vel", "initial_shear_vel"):
            assert abs(getattr(lay, k) - r["vel_shear"]) <= 1e-9 * r["vel_shear"], w + f"{k} {getattr(lay, k)}"
        assert abs(lay.depth - depth) <= 1e-9 * (1 + depth), w + f"top depth {lay.depth}, expected {depth}"
        mod = r["unit_wt"] / 9.80665 * r["vel_shear"] ** 2
        assert abs(lay.initial_shear_mod - mod) <= 1e-3 * mod, w + "shear modulus"
        depth += r["thickness"]

    out = prof.to_dataframe()
    assert len(out) == n, f"{len(out)} rows from {n} layers"
    depth = 0.0
    for i, r in enumerate(rows):
        o = out.iloc[i]
        w = f"exported row {i + 1}: "
        assert o["soil_type"] == (r["name"] if c["named"] else ""), w + "name"
        for k, key in (("unit_wt", "unit_wt"), ("damping", "damping"), ("thickness", "thickness"), ("shear_vel", "vel_shear")):
            assert abs(o[k] - r[key]) <= 1e-9 * abs(r[key]), w + f"{k} is {o[k]}, layer has {r[key]}"
        assert abs(o["depth"] - depth) <= 1e-9 * (1 + depth), w + f"depth {o['depth']}, expected {depth}"
        depth += r["thickness"]
    # Exported values, under the column names of the import, give the profile back.
    back = site.Profile.from_dataframe(out.rename(columns={"soil_type": "name", "shear_vel": "vel_shear"}), prof.wt_depth)
    for a, b in zip(prof, back):
        for k in ("thickness", "depth", "shear_vel", "unit_wt", "damping"):
            assert abs(getattr(a, k) - getattr(b, k)) <= 1e-9 * abs(getattr(a, k)), f"{k} changed over an export and import"
    assert len(back) == n


# ----------------------------------------------------------- fixed width
@st.composite
def fixed_case(draw):
    nf = draw(st.integers(1, 25))
    fields = []
    for _ in range(nf):
        kind = draw(st.sampled_from(["f", "f", "i", "s", "b"]))
        w = draw(st.integers(4, 15))
        if kind == "b":  # nothing stated
            text, v = "", None
            kind = draw(st.sampled_from(["s", "n"]))
            v = "" if kind == "s" else None
        elif kind == "i":
            v = draw(st.integers(-(10 ** (w - 2)) + 1, 10 ** (w - 1) - 1))
            text = str(v)
        elif kind == "f":
            text = ""
            x = draw(st.one_of(gen.logf(1e-4, 1e4, 4), st.integers(-99, 99).map(float), st.just(0.0)))
            for f in (f"{x:.4f}", f"{x:.3e}", f"{x:.2f}", f"{x:.3g}", f"{x:.1g}", "0.5"):
                if len(f) <= w:
                    text = f
                    break
            v = float(text)
        else:
            text = draw(st.text("abcXYZ019-+.", min_size=1, max_size=w)) if w < 6 else draw(st.sampled_from(["soil 1", "a b", "x", "clay"]))
            v = text.strip()
        fields.append(dict(kind=kind, width=w, text=text, value=v, right=draw(st.booleans()), brk=draw(st.sampled_from([False, False, False, True]))))
    return dict(fields=fields, tail=draw(st.sampled_from([0, 0, 1])), trim=draw(st.booleans()), nl=draw(st.booleans()))


def fixed_fn(c, t):
    lines, cur = [], ""
    nb = 0
    for i, f in enumerate(c["fields"]):
        cur += f["text"].rjust(f["width"]) if f["right"] else f["text"].ljust(f["width"])
        last = i == len(c["fields"]) - 1
        if f["brk"] or last:
            keep = not f["text"]
            # A line may be shorter than its last field when trailing blanks
            # were trimmed, but a blank last field is written out.
            lines.append((cur.rstrip() if c["trim"] and not keep else cur) + ("\n" if c["nl"] else ""))
            cur = ""
            nb += not last
    t.nt(nb > 0)
    t.label(f"trim:{c['trim']}")
    rest = [f"next {k}" for k in range(c["tail"])]
    lines += rest
    parsers = {"f": float, "i": int, "s": tools.to_str, "n": tools.to_float}
    got = tools.parse_fixed_width([(f["width"], parsers[f["kind"]]) for f in c["fields"]], lines)
    want = [f["value"] for f in c["fields"]]
    got = [None if isinstance(x, float) and x != x else x for x in got]
    assert got == want, f"fields {got}, written {want}"
    t.label("blank field", any(not f["text"] for f in c["fields"]))
    assert lines == rest, f"lines left after the block: {lines}, expected {rest}"

    # Separated values.
    vals = [f for f in c["fields"] if f["kind"] in "fi"]
    if vals:
        line = "".join(" " * (1 + f["right"] * f["width"]) + f["text"] for f in vals)
        got = tools.split_line(line + ("\n" if c["nl"] else ""), [parsers[f["kind"]] for f in vals])
        want = [f["value"] for f in vals]
        assert got == (want if len(want) > 1 else want[0]), f"separated values {got}, written {want}"


SUBS = [
    Sub("nrattle", ctl_case(), ctl_fn, 1000),
    Sub("table", table_case(), table_fn, 600),
    Sub("fixed", fixed_case(), fixed_fn, 1500),
]
