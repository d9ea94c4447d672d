"""Small reference formulas shared by the checks, written independently."""

import numpy as np

MR_LIMITS = (0.001, 1.0)
D_LIMITS = (0.0, 0.49)


def curve(strains, values, limits, x):
    """Piecewise linear in ln(strain), constant beyond the ends, clipped."""
    x = np.maximum(np.asarray(x, dtype=float), 1e-9)
    lx = np.log(np.asarray(strains, dtype=float))
    v = np.asarray(values, dtype=float)
    q = np.log(x)
    k = np.clip(np.searchsorted(lx, q, side="right") - 1, 0, len(lx) - 2)
    w = (q - lx[k]) / (lx[k + 1] - lx[k])
    w = np.clip(w, 0.0, 1.0)
    return np.clip(v[k] * (1 - w) + v[k + 1] * w, *limits)


def soil_mod_reduc(s, x):
    return np.ones_like(np.asarray(x, dtype=float)) if s["mr"] is None else curve(*s["mr"], MR_LIMITS, x)


def soil_damping(s, dm, x):
    """Damping at strain x of a soil case with layer minimum damping dm."""
    d = s["d"]
    if isinstance(d, (list, tuple)):
        return curve(d[0], d[1], D_LIMITS, x) - d[1][0] + dm
    return dm + np.zeros_like(np.asarray(x, dtype=float))


def initial_mod(p, la, g=9.80665):
    return p["soils"][la["s"]]["uw"] / g * la["vs"] ** 2
