"""Geodesics of a spheroid, computed by quadrature on the auxiliary sphere.

Nothing here is a series in the flattening: lengths, longitudes and areas are
the exact integrals, evaluated by Gauss-Legendre quadrature.
"""
from __future__ import annotations

import numpy as np

NODES, WEIGHTS = np.polynomial.legendre.leggauss(24)
A, F = 6378137.0, 1 / 298.257223563


def _integrate(function, low, high):
    """Integral of function(sigma) between two arrays of bounds."""
    half, mid = (high - low) / 2, (high + low) / 2
    sigma = mid[..., None] + half[..., None] * NODES
    return half * (function(sigma) * WEIGHTS).sum(-1)


class Geodesic:
    """Geodesics between pairs of points, in degrees."""

    def __init__(self, lon1, lat1, lon2, lat2, a=A, f=F, iterations=60):
        lon1, lat1, lon2, lat2 = np.broadcast_arrays(
            *(np.asarray(v, 'f8') for v in (lon1, lat1, lon2, lat2)))
        self.shape = lon1.shape
        self.a, self.f, self.b = a, f, a * (1 - f)
        # Reduced latitudes.
        b1, b2 = (np.arctan2((1 - f) * np.sin(np.radians(v)),
                             np.cos(np.radians(v))) for v in (lat1, lat2))
        delta = np.radians((lon2 - lon1 + 180) % 360 - 180)
        s1, c1, s2, c2 = np.sin(b1), np.cos(b1), np.sin(b2), np.cos(b2)
        lam = delta.copy()
        ep2 = f * (2 - f) / (1 - f)**2
        for _ in range(iterations):
            sl, cl = np.sin(lam), np.cos(lam)
            y = np.hypot(c2 * sl, c1 * s2 - s1 * c2 * cl)
            x = s1 * s2 + c1 * c2 * cl
            sigma = np.arctan2(y, x)
            sin0 = np.where(y > 0, c1 * c2 * sl / np.where(y > 0, y, 1), 0.0)
            sin0 = np.clip(sin0, -1, 1)
            cos0sq = 1 - sin0**2
            az1 = np.arctan2(c2 * sl, c1 * s2 - s1 * c2 * cl)
            sigma1 = np.arctan2(s1, c1 * np.cos(az1))
            sigma1 = np.where((s1 == 0) & (np.abs(np.cos(az1)) < 1e-15), 0.0,
                              sigma1)
            k2 = ep2 * cos0sq
            integral = _integrate(
                lambda s: (2 - f) / (1 + (1 - f) * np.sqrt(
                    1 + k2[..., None] * np.sin(s)**2)), sigma1,
                sigma1 + sigma)
            new = delta + f * sin0 * integral
            done = np.abs(new - lam)
            lam = new
            if done.size == 0 or done.max() < 1e-15:
                break
        #: False where the iteration did not converge (nearly antipodal).
        self.valid = (done < 1e-12) & (np.abs(lam) < np.pi)
        self.sigma1, self.sigma, self.sin0, self.k2 = sigma1, sigma, sin0, k2
        self.azimuth, self.lon1 = az1, lon1
        self.length = self.b * _integrate(
            lambda s: np.sqrt(1 + k2[..., None] * np.sin(s)**2), sigma1,
            sigma1 + sigma)

    def at(self, fraction):
        """Longitude and latitude at a fraction of the spherical arc."""
        f = self.f
        s0, c0 = self.sin0, np.sqrt(np.clip(1 - self.sin0**2, 0, 1))
        sigma = self.sigma1 + fraction * self.sigma
        beta = np.arctan2(c0 * np.sin(sigma),
                          np.hypot(c0 * np.cos(sigma), s0))
        omega = (np.arctan2(s0 * np.sin(sigma), np.cos(sigma)) -
                 np.arctan2(s0 * np.sin(self.sigma1), np.cos(self.sigma1)))
        k2 = self.k2
        integral = _integrate(
            lambda s: (2 - f) / (1 + (1 - f) * np.sqrt(
                1 + k2[..., None] * np.sin(s)**2)), self.sigma1, sigma)
        lon = self.lon1 + np.degrees(omega - f * s0 * integral)
        lat = np.degrees(np.arctan2(np.sin(beta), (1 - f) * np.cos(beta)))
        return lon, lat

    def area(self):
        """Signed area between the geodesic and the equator."""
        f, a, b = self.f, self.a, self.b
        s0 = self.sin0[..., None]
        c0 = np.sqrt(np.clip(1 - s0**2, 0, 1))
        k2 = self.k2[..., None]
        e = np.sqrt(f * (2 - f))

        def element(s):
            sinb = c0 * np.sin(s)
            cosb2 = np.clip(1 - sinb**2, 1e-300, 1)
            # Longitude on the spheroid.
            rate = s0 / cosb2 - f * s0 * (2 - f) / (1 + (1 - f) * np.sqrt(
                1 + k2 * np.sin(s)**2))
            q = np.sin(np.arctan2(sinb, (1 - f) * np.sqrt(cosb2)))
            return rate * zone(q, a, b, e)

        # Composite rule: the integrand varies quickly near the poles.
        total, pieces = 0.0, 16
        for i in range(pieces):
            total = total + _integrate(
                element, self.sigma1 + self.sigma * i / pieces,
                self.sigma1 + self.sigma * (i + 1) / pieces)
        return total


def zone(sin_lat, a, b, e):
    """Area between the equator and a latitude for one radian of longitude."""
    if e == 0:
        return a * a * sin_lat
    return b * b / 2 * (sin_lat / (1 - (e * sin_lat)**2) +
                        np.arctanh(e * sin_lat) / e)


def distance(lon1, lat1, lon2, lat2, a=A, f=F):
    """Length of the geodesic, NaN if it is not determined."""
    g = Geodesic(lon1, lat1, lon2, lat2, a, f)
    return np.where(g.valid, g.length, np.nan)
