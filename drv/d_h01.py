"""H01: alm2map / map2alm on HEALPix and on whole or partial rectangular grids, both backends."""
import numpy as np
from fldlib import *
from sphlib import *


def gen(tier, seed):
    rng = np.random.default_rng([501, seed])
    th = tier == "thorough"
    cs = []
    for r in range(4 if not th else 30):
        for s in range(0, 5):
            for d in ("a2m", "m2a"):
                lm = int(rng.integers(max(s, 1), 6 if not th else 7))
                cs.append(dict(tag="%s:%d.%d" % (d, s, r), kind=d, s=s, lmax=lm, niter=int(rng.integers(0, 3)), calc=str(rng.choice(["ducc", "ducc", "healpy"]))))
    for r in range(24 if not th else 200):
        s = int(rng.integers(0, 5))
        cs.append(dict(tag="samp:%d.%d" % (s, r), kind="sample", s=s, calc=str(rng.choice(["ducc", "healpy"]))))
    for i, c in enumerate(cs):
        c["seed"] = [seed, i]
    return cs


def run(c):
    import pymaster as nmt
    from pymaster import utils as ut
    rng = np.random.default_rng([502] + c["seed"])
    s = c["s"]
    nm = 2 if s else 1
    if c["kind"] == "sample":
        if rng.random() < .5 or c["calc"] == "healpy":
            px = Pixels("hpx", nside=int(rng.choice([4, 8, 16, 32])))
            lm = int(rng.integers(8, 3 * px.nside))
        else:
            N = int(rng.integers(12, 60))
            px = Pixels("car", N=N, j0=int(rng.integers(0, 6)), n=int(rng.integers(3, N - 5)), M=2 * int(rng.integers(12, 60)), m=int(rng.integers(3, 24)),
                        lon=lon(rng), up=int(rng.integers(0, 2)), left=int(rng.integers(0, 2)))
            lm = int(rng.integers(8, N))
    else:
        px = Pixels("hpx", nside=2) if c["calc"] == "healpy" else Pixels.random(rng, c["lmax"])
        lm = c["lmax"]
    mi, ai = px.info(), must("NmtAlmInfo", nmt.NmtAlmInfo, lm)
    must("set_sht_calculator", nmt.set_sht_calculator, c["calc"])
    g = px.grid()
    ev = [dict(op="Info", grid=g, npix=int(mi.npix), dlmax=int(mi.get_lmax()), nelem=int(ai.nelem), mstart=ints(ai.mstart), lmax=lm)]
    try:
        if c["kind"] == "a2m":
            alm = np.array([rand_alm(rng, lm, s) for _ in range(nm)])
            u = unit(rng, 100, .7)
            mp = must("alm2map", ut.alm2map, alm * u, s, mi, ai) / u
            ev.append(dict(op="A2M", grid=g, s=s, lmax=lm, alm=hxalm(alm), map=hx(mp), tol="1e-11"))
        elif c["kind"] == "m2a":
            mp = rng.standard_normal((nm, px.npix))
            keep = mp.copy()
            u = unit(rng, 100, .7)
            mp *= u
            alm = must("map2alm", ut.map2alm, mp, s, mi, ai, n_iter=c["niter"]) / u
            ev.append(dict(op="M2A", grid=g, s=s, lmax=lm, map=hx(keep), niter=c["niter"], alm=hxalm(alm), tol="1e-11"))
        else:
            l = int(rng.integers(max(s, 1), lm + 1))
            m = int(rng.integers(0, l + 1))
            x = int(rng.integers(0, nm))
            im = int(m > 0 and rng.random() < .5)
            amp = float(rng.uniform(.5, 2))
            alm = np.zeros((nm, nalm(lm)), complex)
            alm[x, idx(lm, l, m)] = amp * (1j if im else 1)
            mp = must("alm2map", ut.alm2map, alm, s, mi, ai)
            if px.kind == "hpx":
                import healpy as hp
                st = [int(v) for v in np.cumsum([0] + [4 * min(i, px.nside, 4 * px.nside - i) for i in range(1, 4 * px.nside)])]
            else:
                st = [px.m * i for i in range(px.n + 1)]
            pts = []
            for _ in range(6):
                r = int(rng.integers(0, len(st) - 1))
                pts.append([r + 1, int(rng.integers(0, st[r + 1] - st[r])) + 1])
            ev.append(dict(op="Pt", grid=g, s=s, lmax=lm, l=l, m=m, x=x, im=im, amp=hx(amp), pts=pts, vals=[hx(mp[:, st[p[0] - 1] + p[1] - 1]) for p in pts], tol="1e-10"))
            p = pts[0]
            v = rng.standard_normal(nm)
            mp = np.zeros((nm, px.npix))
            mp[:, st[p[0] - 1] + p[1] - 1] = v
            alm = must("map2alm", ut.map2alm, mp, s, mi, ai, n_iter=0)
            lms = [[lm, lm], [lm, 0], [max(s - 1, 0), 0]]
            for _ in range(4):
                a = int(rng.integers(0, lm + 1))
                lms.append([a, int(rng.integers(0, a + 1))])
            ev.append(dict(op="Qpt", grid=g, s=s, lmax=lm, p=p, v=hx(v), lms=lms, vals=[[hx(complex(alm[k, idx(lm, *q)])) for k in range(nm)] for q in lms], tol="1e-10"))
    finally:
        nmt.set_sht_calculator("ducc")
    return dict(ev=ev)
