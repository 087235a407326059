"""Pixelisations for the curved-sky drivers: the world-coordinate description handed to the code and the exact one of the specification."""
from fractions import Fraction as Fr
import numpy as np
from rec import hx, ints, must


def lon(rng):
    return Fr([0, 90, 180, 270, 359][int(rng.integers(0, 5))]) if rng.random() < .5 else Fr(int(rng.integers(0, 1440)), 4)


class Pixels:
    """HEALPix or a rectangular (Clenshaw-Curtis) grid, possibly a part of it, in any orientation"""

    def __init__(self, kind, nside=None, N=None, j0=0, n=None, M=None, m=None, lon=0, up=0, left=0):
        # lon: longitude of the first column in degrees; up: declination grows with the row; left: right ascension falls with the column
        self.kind, self.nside = kind, nside
        if kind == "hpx":
            self.npix = 12 * nside**2
            self.shape = (self.npix,)
            self.wcs = None
            self.dlmax = 3 * nside - 1
        else:
            self.N, self.j0, self.M = N, j0, M
            self.n = n or N + 1 - j0
            self.m = m or M
            self.lon, self.up, self.left = Fr(lon), up, left
            self.npix = self.n * self.m
            self.shape = (self.n, self.m)
            self.dlmax = max(N, M // 2)
            self.wcs = self._wcs()

    @classmethod
    def random(cls, rng, lmax, full=False):
        if not full and rng.random() < .4:
            return cls("hpx", nside=2)
        N = int(rng.integers(max(lmax, 3), lmax + 4))
        M = 2 * int(rng.integers(max(lmax, 3), lmax + 4))
        j0, n, m = 0, None, None
        if not full and rng.random() < .6:
            j0 = int(rng.integers(0, N - 1))
            n = int(rng.integers(2, N + 2 - j0))
        if not full and rng.random() < .5:
            m = int(rng.integers(2, M + 1))
        return cls("car", N=N, j0=j0, n=n, M=M, m=m, lon=lon(rng), up=int(rng.integers(0, 2)), left=int(rng.integers(0, 2)))

    def _wcs(self):
        from astropy.wcs import WCS
        w = WCS(naxis=2)
        dra, ddec = 360. / self.M, 180. / self.N
        # rows: first stored row is the southernmost if up; columns: the first stored column is the largest RA if left
        w.wcs.cdelt = [-dra if self.left else dra, ddec if self.up else -ddec]
        top = Fr(90) - Fr(180, self.N) * self.j0                      # declination of the northernmost row
        bot = top - Fr(180, self.N) * (self.n - 1)
        dec1 = bot if self.up else top                                # of FITS row 1
        # dec(y) = (y - crpix) * cdelt
        cry = 1 - dec1 / (Fr(180, self.N) * (1 if self.up else -1))
        ra1 = self.lon + (Fr(360, self.M) * (self.m - 1) if self.left else 0)
        # reference column in the middle of the map, so that the projection never leaves its native range
        crx = Fr(self.m + 1, 2)
        ra0 = ra1 + (crx - 1) * Fr(360, self.M) * (-1 if self.left else 1)
        w.wcs.crpix = [float(crx), float(cry)]
        w.wcs.crval = [float(ra0), 0.]
        w.wcs.ctype = ["RA---CAR", "DEC--CAR"]
        return w

    def grid(self):
        if self.kind == "hpx":
            return dict(kind="hpx", nside=self.nside)
        return dict(kind="car", N=self.N, j0=self.j0, n=self.n, M=self.M, m=self.m, q=str(self.lon / 180))

    def store(self, a):
        """from the specification's order (north to south, increasing longitude) to the stored orientation"""
        if self.kind == "hpx":
            return a
        a = a.reshape(a.shape[:-1] + self.shape)
        if self.up:
            a = a[..., ::-1, :]
        if self.left:
            a = a[..., ::-1]
        return a

    def load(self, a):
        if self.kind == "hpx":
            return a
        if self.up:
            a = a[..., ::-1, :]
        if self.left:
            a = a[..., ::-1]
        return a.reshape(a.shape[:-2] + (self.npix,))

    def info(self):
        import pymaster as nmt
        return must("NmtMapInfo", nmt.NmtMapInfo, self.wcs, self.shape)


def nalm(lmax):
    return (lmax + 1) * (lmax + 2) // 2


def idx(lmax, l, m):
    return m * (2 * lmax + 1 - m) // 2 + l


def rand_alm(rng, lmax, lmin=0, scale=None):
    a = np.zeros(nalm(lmax), complex)
    for m in range(lmax + 1):
        for l in range(max(m, lmin), lmax + 1):
            a[idx(lmax, l, m)] = rng.standard_normal() + (1j * rng.standard_normal() if m else 0)
    return a


def hxalm(a):
    return [hx(np.asarray(x)) for x in a]
