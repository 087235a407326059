"""S02: flat-sky simulations: covariance, beams, spins, seeds, threads, refusals."""
import ctypes
import numpy as np
from rec import hx, attempt, must
from flatlib import Patch, wavenumbers

LISTS = [[0], [2], [0, 0], [0, 2], [2, 0], [1], [0, 0, 0], [2, 2], [0, 1, 0], [3], [0, 2, 1], [4, 0]]


def gen(tier, seed):
    th = tier == "thorough"
    cs = [dict(tag="sim%d" % i, kind="sim", spins=LISTS[i % len(LISTS)]) for i in range(len(LISTS) if not th else 8 * len(LISTS))]
    cs += [dict(tag="many%d" % i, kind="many", spins=[[0], [2], [0, 0]][i % 3], n=400) for i in range(2 if not th else 9)]
    cs.append(dict(tag="refused", kind="refused"))
    for i, c in enumerate(cs):
        c["seed"] = [seed, i]
    return cs


def upper(C):
    n = C.shape[0]
    return np.array([C[a, b] for a in range(n) for b in range(a, n)])


def threads(n):
    try:
        ctypes.CDLL("libgomp.so.1").omp_set_num_threads(int(n))
    except OSError:
        pass


def patch(rng, lo=3, hi=8):
    while True:
        nx, ny = int(rng.integers(lo, hi)), int(rng.integers(lo, hi))
        lx, ly = float(rng.uniform(.3, 2)), float(rng.uniform(.3, 2))
        if .3 < lx / ly < 3:
            return Patch(nx, ny, lx, ly)


def top(rng, k):
    """a last multipole away from every mode, so that no mode is at the step there"""
    while True:
        n = int(rng.integers(2, int(k.max()) + 8))
        if np.abs(k - n).min() > 1e-6:
            return n


def run(c):
    import pymaster as nmt
    rng = np.random.default_rng([423] + c["seed"])
    if c["kind"] == "refused":
        ev = []

        def no(why, *a, **k):
            _, err = attempt("synfast_flat", nmt.synfast_flat, *a, **k)
            ev.append(dict(op="Refuse", why=why, err=err))
        u = lambda n, m=30: np.array([np.ones(m)] * n)
        no("2 spectra for one scalar", 4, 5, .5, .7, u(2), [0])
        no("1 spectrum for a spin-2 field", 4, 5, .5, .7, u(1), [2])
        no("2 spectra for a spin-2 field", 4, 5, .5, .7, u(2), [2])
        no("4 spectra for a spin-2 field", 4, 5, .5, .7, u(4), [2])
        no("5 spectra for a scalar and a spin-2 field", 4, 5, .5, .7, u(5), [0, 2])
        no("7 spectra for a scalar and a spin-2 field", 4, 5, .5, .7, u(7), [0, 2])
        no("negative spin", 4, 5, .5, .7, u(3), [-2])
        no("negative spin next to a scalar", 4, 5, .5, .7, u(6), [0, -1])
        no("two beams for one field", 4, 5, .5, .7, u(3), [2], beam=u(2))
        no("one beam for two fields", 4, 5, .5, .7, u(6), [2, 0], beam=u(1))
        no("beams to l = 28, spectra to l = 29", 4, 5, .5, .7, u(3), [2], beam=u(1, 29))
        no("beams to l = 30, spectra to l = 29", 4, 5, .5, .7, u(3), [2], beam=u(1, 31))
        for lx, ly in ((0., .7), (.7, 0.), (-.5, .7), (.5, -.7), (-.5, -.7)):
            no("a patch of %g x %g radians" % (lx, ly), 4, 5, lx, ly, u(1), [0])
        return dict(ev=ev)
    spins = c["spins"]
    nc = sum(1 if s == 0 else 2 for s in spins)
    if c["kind"] == "many":
        p = patch(rng, 3, 6)
        cls = np.array([np.full(int(wavenumbers(p)[2].max()) + 3, 1. if a == b else 0.) for a in range(nc) for b in range(a, nc)])
        first = int(rng.integers(0, 10**6))
        threads(2)
        runs = []
        for i in range(c["n"]):
            m = np.asarray(must("synfast_flat", nmt.synfast_flat, p.nx, p.ny, p.lx, p.ly, cls, spins, seed=first + i))
            runs.append([hx(x.ravel()) for x in m])
        return dict(ev=[dict(op="Many", nx=p.nx, ny=p.ny, lx=hx(p.lx), ly=hx(p.ly), spins=spins, runs=runs)])
    seed = int(rng.integers(0, 2**31 - 1)) if rng.random() < .8 else int(rng.integers(0, 3))
    p = patch(rng)
    k = wavenumbers(p)[2]
    kept = []

    def synth(cls, beam=None, sd=None, th=None):
        if th:
            threads(th)
        before = (np.array(cls).copy(), None if beam is None else np.array(beam).copy())
        kw = {} if beam is None else dict(beam=beam)
        m = must("synfast_flat", nmt.synfast_flat, p.nx, p.ny, p.lx, p.ly, cls, spins, seed=seed if sd is None else sd, **kw)
        kept.append(int(np.array_equal(before[0], np.array(cls)) and (beam is None or np.array_equal(before[1], np.array(beam)))))
        return np.asarray(m)

    ev = []

    def note(op, m, tol="1e-11", **x):
        ev.append(dict(op=op, nx=p.nx, ny=p.ny, lx=hx(p.lx), ly=hx(p.ly), spins=spins, maps=[hx(y.ravel()) for y in m], shape=list(m.shape[1:]), beam=x.pop("beam", []), by=x.pop("by", hx(1.)), tol=tol, **x))
    nl = int(k.max()) + 2 + int(rng.integers(0, 5))
    unit = np.array([np.full(nl + 1, 1. if a == b else 0.) for a in range(nc) for b in range(a, nc)])
    note("Unit", synth(unit))
    # general covariances, some multipoles or components without power, some perfect correlations
    nl = top(rng, k) if rng.random() < .5 else int(k.max()) + int(rng.integers(2, 6))
    dead = int(rng.integers(0, nc)) if nc > 1 and rng.random() < .4 else -1
    fully = nc > 1 and rng.random() < .3
    A1 = rng.standard_normal([nc, 1])
    Cs = []
    for l in range(nl + 1):
        A = rng.standard_normal([nc, nc + 1]) * rng.uniform(.3, 2)
        if rng.random() < .2:
            A = np.diag(rng.uniform(.3, 2, nc))
        if fully:
            A = A1 * rng.uniform(.3, 2)
        if dead >= 0:
            A[dead] = 0
        Cs.append(A @ A.T)
    cls = np.array([upper(C) for C in Cs]).T.copy()
    rows = [hx(x) for x in cls]
    twin = []
    if fully and dead < 0:      # v . a = 0
        for x in range(nc - 1):
            v = [0.] * nc
            v[x], v[x + 1] = float(A1[x + 1, 0]), -float(A1[x, 0])
            twin.append(hx(v))
    note("Mixed", synth(cls), tol="1e-11" if not fully else "1e-7", cls=rows, rel="1e-7", twin=twin, reg=int(not fully))
    for th in [[1, 2, 3], [8, 5, 7]][int(rng.integers(0, 2))]:
        note("Maps", synth(cls, th=th), why="%d threads" % th)
    threads(8)
    for _ in range(3):
        note("Maps", synth([list(x) for x in cls] if rng.random() < .3 else cls), why="again")
    by = float(rng.choice([.25, 2., 8., 2.**-30, 2.**20]))      # scaling by these is exact, whatever the root
    note("Maps", synth(cls * by**2), by=hx(by), why="scaled spectra")
    b = rng.uniform(-1, 2, [len(spins), nl + 1])
    note("Maps", synth(cls, beam=b), beam=[hx(x) for x in b], why="beams")
    note("Maps", synth([list(x) for x in cls], beam=[list(x) for x in b]), beam=[hx(x) for x in b], why="lists")
    a = synth(unit)
    ev.append(dict(op="Differ", why="seeds %d and %d" % (seed, seed + 1), same=int(np.allclose(a, synth(unit, sd=seed + 1)))))
    x, y = synth(unit, sd=-1), synth(unit, sd=-1) if rng.random() < .5 else synth(unit, sd=-5)
    ev.append(dict(op="Differ", why="two negative seeds", same=int(np.allclose(x, y))))
    ev.append(dict(op="Kept", kept=min(kept)))
    return dict(ev=ev)
