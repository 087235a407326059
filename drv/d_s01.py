"""S01: curved-sky simulations: covariance, beams, band limits, pixelisations, seeds, refusals."""
import numpy as np
from fractions import Fraction as Fr
from rec import hx, ints, attempt, must
from sphlib import Pixels, lon

LISTS = [[0], [2], [0, 0], [0, 2], [2, 0], [1], [0, 0, 0], [2, 2], [0, 1, 0], [3], [0, 2, 1], [4, 0]]


def gen(tier, seed):
    th = tier == "thorough"
    cs = [dict(tag="sim%d" % i, kind="sim", spins=LISTS[i % len(LISTS)]) for i in range(len(LISTS) if not th else 10 * len(LISTS))]
    cs.append(dict(tag="refused", kind="refused"))
    for i, c in enumerate(cs):
        c["seed"] = [seed, i]
    return cs


def upper(C):
    n = C.shape[0]
    return np.array([C[a, b] for a in range(n) for b in range(a, n)])


def run(c):
    import pymaster as nmt
    rng = np.random.default_rng([422] + c["seed"])
    if c["kind"] == "refused":
        ev = []

        def no(why, *a, **k):
            _, err = attempt("synfast_spherical", nmt.synfast_spherical, *a, **k)
            ev.append(dict(op="Refuse", why=why, err=err))
        u = lambda n: np.array([np.ones(6)] * n)
        no("2 spectra for one scalar", 2, u(2), [0])
        no("1 spectrum for a spin-2 field", 2, u(1), [2])
        no("2 spectra for a spin-2 field", 2, u(2), [2])
        no("4 spectra for a spin-2 field", 2, u(4), [2])
        no("5 spectra for a scalar and a spin-2 field", 2, u(5), [0, 2])
        no("7 spectra for a scalar and a spin-2 field", 2, u(7), [0, 2])
        no("negative spin", 2, u(3), [-2])
        no("negative spin next to a scalar", 2, u(6), [0, -1])
        no("two beams for one field", 2, u(3), [2], beam=np.ones([2, 6]))
        no("one beam for two fields", 2, u(6), [2, 0], beam=np.ones([1, 6]))
        no("beams to l = 4, spectra to l = 5", 2, u(3), [2], beam=np.ones([1, 5]))
        for j0, n in ((1, 8), (0, 8), (1, 7), (2, 6)):
            px = Pixels("car", N=8, j0=j0, n=n, M=16)
            # a header describes a whole sphere only if its rows start and end at the poles; the grid assumed has all rows
            wcs = px.wcs.deepcopy()
            wcs.wcs.crpix[1] += [1, 2, -1, 3][j0 % 4]
            no("rows not reaching the poles (%d, %d)" % (j0, n), 2, u(1), [0], wcs=wcs)
        return dict(ev=ev)
    spins = c["spins"]
    nc = sum(1 if s == 0 else 2 for s in spins)
    L = int(rng.integers(max(4, max(spins) + 1), 8))
    seed = int(rng.integers(0, 2**31 - 1)) if rng.random() < .8 else int(rng.integers(0, 3))

    def exact(lon0=0):
        return Pixels("car", N=2 * L + int(rng.integers(0, 4)), M=2 * L + 2 + 2 * int(rng.integers(0, 2)), lon=lon(rng), up=int(rng.integers(0, 2)), left=int(rng.integers(0, 2)))

    def stir():          # what else happened to the global generator must not matter
        if rng.random() < .7:
            np.random.seed(int(rng.integers(0, 1000)))
            np.random.standard_normal(int(rng.integers(0, 50)))

    kept = []

    def synth(px, cls, lmax=None, beam=None, sd=None):
        stir()
        before = (np.array(cls).copy(), None if beam is None else np.array(beam).copy())
        kw = {}
        if lmax is not None:
            kw["lmax"] = lmax
        if beam is not None:
            kw["beam"] = beam
        if px.kind == "car":
            kw["wcs"] = px.wcs
        m = must("synfast_spherical", nmt.synfast_spherical, px.nside if px.kind == "hpx" else int(rng.integers(0, 5)), cls, spins, seed=seed if sd is None else sd, **kw)
        kept.append(int(np.array_equal(before[0], np.array(cls)) and (beam is None or np.array_equal(before[1], np.array(beam)))))
        m = np.asarray(m)
        return np.asarray(px.load(m) if px.kind == "car" and m.shape == (nc,) + px.shape else m).reshape(len(m), -1)

    ev = []

    def note(op, px, m, **k):
        ev.append(dict(op=op, grid=px.grid(), spins=spins, lmax=L, maps=[hx(x) for x in m], beam=k.pop("beam", []), tol=k.pop("tol", "1e-11"), **k))
    unit = np.array([[1.] * (L + 1) if a == b else [0.] * (L + 1) for a in range(nc) for b in range(a, nc)])
    px = exact()
    note("Unit", px, synth(px, unit))
    # general covariances, some multipoles or components without power
    Cs = []
    dead = int(rng.integers(0, nc)) if nc > 1 and rng.random() < .4 else -1
    top = L - int(rng.integers(1, 3)) if rng.random() < .5 else L
    for l in range(L + 1):
        A = rng.standard_normal([nc, nc + 1]) * rng.uniform(.3, 2)
        if rng.random() < .2:
            A = np.diag(rng.uniform(.3, 2, nc))
        if dead >= 0:
            A[dead] = 0
        Cs.append(A @ A.T * (1. if l <= top else 0.) * (1. if l or rng.random() < .5 else 0.))
    cls = np.array([upper(C) for C in Cs]).T.copy()
    px = exact()
    note("Mixed", px, synth(px, cls), cls=[hx(x) for x in cls], rel="1e-7", tol="1e-11")
    # band limits: spectra or beams given further than needed
    px = Pixels("hpx", nside=2) if L > 5 or rng.random() < .5 else Pixels("hpx", nside=4)
    if 3 * px.nside - 1 < L:
        px = Pixels("hpx", nside=4)
    note("Maps", px, synth(px, cls))
    longer = np.concatenate([cls, rng.uniform(1, 2, [len(cls), int(rng.integers(1, 6))])], 1)
    px = [exact(), Pixels("hpx", nside=4)][int(rng.integers(0, 2))]
    note("Maps", px, synth(px, longer, lmax=L))
    px = [exact(), Pixels("hpx", nside=4)][int(rng.integers(0, 2))]
    note("Maps", px, synth(px, cls, lmax=L + int(rng.integers(0, 9))))
    if L == 5:
        px = Pixels("hpx", nside=2)
        note("Maps", px, synth(px, longer))
    # beams
    b = rng.uniform(-1, 2, [len(spins), L + 1 + int(rng.integers(0, 4))])
    px = [exact(), Pixels("hpx", nside=4)][int(rng.integers(0, 2))]
    note("Maps", px, synth(px, cls, beam=b), beam=[hx(x) for x in b])
    # lists instead of arrays
    px = exact()
    note("Maps", px, synth(px, [list(x) for x in cls], beam=[list(x) for x in b]), beam=[hx(x) for x in b])
    a = synth(px, unit)
    ev.append(dict(op="Differ", why="seeds %d and %d" % (seed, seed + 1), same=int(np.allclose(a, synth(px, unit, sd=seed + 1)))))
    x, y = synth(px, unit, sd=-1), synth(px, unit, sd=-1) if rng.random() < .5 else synth(px, unit, sd=-5)
    ev.append(dict(op="Differ", why="two negative seeds", same=int(np.allclose(x, y))))
    ev.append(dict(op="Kept", kept=min(kept)))
    return dict(ev=ev)
