"""Independent reference for the 1-D layered shear-wave problem.

State vector formulation: y(z) = [u, tau] with u' = tau/G*, tau' = -rho w^2 u.
Within a homogeneous layer the propagator from z to z+d is

    [ cos(kd)         sin(kd)/(k G) ]
    [ -k G sin(kd)    cos(kd)       ]        k = w / sqrt(G*/rho)

with y(0) = [1, 0] at the stress-free surface.  No wave amplitudes, no
recursion on impedance ratios: independent of the code under test.
The outcrop motion at a depth is twice the up-going part of the displacement.
"""

import numpy as np

GRAV = 9.80665


def comp_mod(uw, vs, d):
    rho = uw / GRAV
    d = min(max(d, 0.0), 0.49)
    return rho, rho * vs * vs * (np.sqrt(1 - 4 * d * d) + 2j * d)


class Reference:
    """layers: list of (rho, Gstar, h); Gstar may be an array over omega."""

    def __init__(self, layers, omega):
        self.layers = layers
        self.omega = np.asarray(omega, dtype=float)
        self.tops = []
        u = np.ones(len(self.omega), dtype=complex)
        tau = np.zeros(len(self.omega), dtype=complex)
        for rho, G, h in layers:
            self.tops.append((u, tau))
            u, tau = self._step(u, tau, rho, G, h)

    def _k(self, rho, G):
        return self.omega / np.sqrt(G / rho + 0j)

    def _step(self, u, tau, rho, G, d):
        k = self._k(rho, G)
        kd = k * d
        c, s = np.cos(kd), np.sin(kd)
        # sin(kd)/k is finite at k = 0
        sk = np.where(k == 0, d, s / np.where(k == 0, 1, k))
        return c * u + sk / G * tau, -k * G * s * u + c * tau

    def state(self, i, z):
        rho, G, _ = self.layers[i]
        u, tau = self.tops[i]
        return self._step(u, tau, rho, G, z)

    def field(self, i, z, wf):
        """(value, magnitude scale) of the wave field, surface motion = 1."""
        u, tau = self.state(i, z)
        rho, G, _ = self.layers[i]
        k = self._k(rho, G)
        with np.errstate(all="ignore"):
            q = np.where(k == 0, 0, tau / np.where(k == 0, 1, 1j * k * G))
        up, down = (u + q) / 2, (u - q) / 2
        scale = np.abs(up) + np.abs(down)
        if wf == "within":
            return u, scale
        if wf == "outcrop":
            return 2 * up, scale
        return up, scale

    def strain(self, i, z):
        """du/dz for surface displacement 1, and a magnitude scale."""
        u, tau = self.state(i, z)
        rho, G, _ = self.layers[i]
        k = self._k(rho, G)
        return tau / G, np.abs(k) * (np.abs(u) + np.abs(tau / np.where(k == 0, 1, k * G)))

    def max_growth(self):
        """Largest exponent magnitude accumulated down the profile."""
        g = 0.0
        for rho, G, h in self.layers:
            g += np.max(np.abs(np.imag(self._k(rho, G)))) * h
        return g


def from_case(p, omega, dampings=None, mods=None):
    layers = []
    from .gen import layer_damping_min

    for la in p["layers"]:
        d = layer_damping_min(p, la)
        rho, G = comp_mod(p["soils"][la["s"]]["uw"], la["vs"], d)
        layers.append((rho, G, la["h"]))
    return Reference(layers, omega)
