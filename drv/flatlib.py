"""Masks, fields and bands for the flat-sky drivers."""
import numpy as np
from rec import hx, ints, attempt, must, unit


class Patch:
    def __init__(self, nx, ny, lx, ly):
        self.nx, self.ny, self.lx, self.ly = nx, ny, lx, ly

    def mask(self, rng, kind="smooth"):
        y, x = np.meshgrid((np.arange(self.ny) + .5) / self.ny, (np.arange(self.nx) + .5) / self.nx, indexing="ij")
        if kind == "white":
            return rng.random((self.ny, self.nx))
        if kind == "binary":
            return (rng.random((self.ny, self.nx)) < .7).astype(float)
        m = 1 + .4 * np.cos(2 * np.pi * (x - rng.random())) + .3 * np.sin(2 * np.pi * (y - rng.random())) + .2 * np.cos(2 * np.pi * (x + y - rng.random()))
        return m * np.sin(np.pi * x)**2 * np.sin(np.pi * y)**2 if kind == "apodised" else m

    def maps(self, rng, spin):
        return rng.standard_normal((2 if spin else 1, self.ny, self.nx))

    def lmax(self):
        return np.hypot(np.pi * self.nx / self.lx, np.pi * self.ny / self.ly)

    def bins(self, rng, nb=None, gaps=True, top=None):
        import pymaster as nmt
        dl = 2 * np.pi / min(self.lx, self.ly)
        top = top or self.lmax() * rng.uniform(.5, 1.1)
        nb = nb or int(rng.integers(1, 5))
        nb = max(1, min(nb, int(top / (1.5 * dl))))
        e = np.linspace(dl * rng.uniform(.2, .9), top, nb + 1)
        l0, lf = e[:-1].copy(), e[1:].copy()
        if gaps and rng.random() < .3 and nb > 1:
            lf[0] -= .2 * (lf[0] - l0[0])
        return must("NmtBinFlat", nmt.NmtBinFlat, l0, lf), l0, lf

    def beam(self, rng):
        l = np.linspace(0, 1.2 * self.lmax(), int(rng.integers(4, 12)))
        return np.array([l, np.exp(-l / self.lmax() * rng.uniform(0, 1)) * rng.uniform(.5, 2)])

    def field(self, rng, spin, mask=None, maps=None, **k):
        import pymaster as nmt
        mask = self.mask(rng) if mask is None else mask
        if maps is not False:
            maps = self.maps(rng, spin) if maps is None else maps
        return must("NmtFieldFlat", nmt.NmtFieldFlat, self.lx, self.ly, mask, None if maps is False else maps, spin=spin, **k)


def patch(rng, small=False):
    lo, hi = (3, 9) if small else (6, 16)
    return Patch(int(rng.integers(lo, hi)), int(rng.integers(lo, hi)), float(np.radians(rng.uniform(5, 60))), float(np.radians(rng.uniform(5, 60))))


def wavenumbers(p):
    ix, iy = np.arange(p.nx), np.arange(p.ny)
    kx = np.where(2 * ix <= p.nx, ix, ix - p.nx) * 2 * np.pi / p.lx
    ky = np.where(2 * iy <= p.ny, iy, iy - p.ny) * 2 * np.pi / p.ly
    return kx, ky, np.hypot(kx[None, :], ky[:, None])


def rings_exact(p):
    """Are all modes in the rings exact arithmetic puts them in, also in double precision (however evaluated)?"""
    kx, ky, k = wavenumbers(p)
    tp = 2 * np.pi
    d = min(tp / p.lx, tp / p.ly)
    top = np.hypot(tp / p.lx * (p.nx // 2), tp / p.ly * (p.ny // 2)) / d
    axis = (kx[None, :] == 0) & (p.ly >= p.lx) | (ky[:, None] == 0) & (p.lx >= p.ly)    # whole multiples by definition
    v = k / d
    if abs(top - round(top)) < 1e-9 or not (axis | (np.abs(v - np.round(v)) > 1e-9)).all():
        return False
    l = max(p.lx, p.ly)
    for j in range(1, (p.ny if p.ly >= p.lx else p.nx) // 2 + 1):
        for q in (j * d, j * tp / l, j * (tp / l), np.sqrt((j * d)**2), np.sqrt((j * (tp / l))**2), j * 2 * np.pi / l):
            for i in (1. / d, 1. / (tp / l), l / tp):
                if int(q * i) != j:
                    return False
            if int(q / d) != j:
                return False
    return True


def gpatch(rng, lo=3, hi=9, square=False):
    while True:
        nx, ny = int(rng.integers(lo, hi)), int(rng.integers(lo, hi))
        lx, ly = float(np.radians(rng.uniform(5, 60))), float(np.radians(rng.uniform(5, 60)))
        if not .4 < ly / lx < 2.5:
            continue
        p = Patch(nx, ny, lx, ly)
        if rings_exact(p):
            return p


def gbands(rng, p, nb=None, gaps=True, zero=True, need=1):
    """bands whose edges are off every mode, each with at least `need` modes"""
    import pymaster as nmt
    k = np.sort(wavenumbers(p)[2].ravel())
    mid = (k[1:] + k[:-1]) / 2
    mid = mid[np.diff(k) > 1e-3 * k[-1]]
    mid = np.concatenate([[mid[0] * .5 if not zero else 0.] if zero and rng.random() < .2 else [], mid, [k[-1] * 1.1]])
    for _ in range(200):
        n = nb or int(rng.integers(1, 5))
        e = np.sort(rng.choice(mid, size=min(n + 1, len(mid)), replace=False))
        l0, lf = e[:-1].copy(), e[1:].copy()
        if gaps and len(l0) > 2 and rng.random() < .4:
            j = int(rng.integers(1, len(l0) - 1))
            l0, lf = np.delete(l0, j), np.delete(lf, j)
        if len(l0) and all(((k >= a) & (k < b)).sum() >= need for a, b in zip(l0, lf)):
            break
    return must("NmtBinFlat", nmt.NmtBinFlat, l0, lf), l0, lf


def cuts(rng, p, symmetric=None):
    """excluded strips, with ends off every mode"""
    def one(l, n):
        d = 2 * np.pi / l
        a = (int(rng.integers(0, max(n // 4, 1))) + rng.uniform(.2, .8)) * d
        b = (int(rng.integers(0, max(n // 4, 1))) + rng.uniform(.2, .8)) * d
        t = rng.random()
        return [-a, a] if t < .4 else [-a, b] if t < .6 else [.3 * d, .3 * d + a] if t < .8 else [-.3 * d - a, -.3 * d]
    none = [1., -1.]
    t = rng.random()
    return [one(p.lx, p.nx) if t < .7 else none, one(p.ly, p.ny) if t > .3 else none]


def desc(s, q, m, maps, temps=(), base=(), moi=0):
    flat = lambda x: [hx(np.asarray(y).ravel()) for y in x]
    return dict(s=int(s), q=[int(x) for x in q], m=hx(np.asarray(m).ravel()), maps=flat(maps), temps=[flat(t) for t in temps], base=list(base), moi=int(moi))
