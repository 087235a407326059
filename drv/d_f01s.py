"""F01: fields on finer pixelisations: sampled multipoles of maps with a few non-zero pixels, spectra of ordinary maps."""
import numpy as np
from fldlib import *
from sphlib import *


def gen(tier, seed):
    rng = np.random.default_rng([303, seed])
    th = tier == "thorough"
    cs = [dict(tag="pts%d.%d" % (s, r), s=s) for r in range(5 if not th else 80) for s in range(5)]
    for i, c in enumerate(cs):
        c["seed"] = [seed, i]
    return cs


def rings(px):
    if px.kind == "hpx":
        return [int(v) for v in np.cumsum([0] + [4 * min(i, px.nside, 4 * px.nside - i) for i in range(1, 4 * px.nside)])]
    return [px.m * i for i in range(px.n + 1)]


def run(c):
    import pymaster as nmt
    rng = np.random.default_rng([304] + c["seed"])
    s = c["s"]
    nm = 2 if s else 1
    if rng.random() < .5:
        px = Pixels("hpx", nside=int(rng.choice([4, 8, 16, 32])))
        lm = int(rng.integers(8, 3 * px.nside))
    else:
        N = int(rng.integers(12, 60))
        px = Pixels("car", N=N, j0=int(rng.integers(0, 6)), n=int(rng.integers(3, N - 5)), M=2 * int(rng.integers(12, 60)), m=int(rng.integers(3, 24)),
                    lon=lon(rng), up=int(rng.integers(0, 2)), left=int(rng.integers(0, 2)))
        lm = int(rng.integers(8, N))
    lk = int(rng.integers(4, 3 * lm // 2))
    st = rings(px)
    pts = []
    while len(pts) < 3:
        r = int(rng.integers(0, len(st) - 1))
        p = [r + 1, int(rng.integers(0, st[r + 1] - st[r])) + 1]
        if p not in pts:
            pts.append(p)
    ix = [st[p[0] - 1] + p[1] - 1 for p in pts]
    mask, mp = np.zeros(px.npix), np.zeros((nm, px.npix))
    mask[ix] = rng.uniform(.2, 2, 3)
    mp[:, ix] = rng.standard_normal((nm, 3))
    moi = int(rng.random() < .3)
    kw = dict(lmax=lm, lmax_mask=lk)
    if rng.random() < .3 and px.dlmax < 60:
        kw = {}
        lm = lk = px.dlmax
    f = must("NmtField", nmt.NmtField, px.store(mask), px.store(mp), spin=s, wcs=px.wcs, n_iter=0, n_iter_mask=0, masked_on_input=bool(moi), lite=bool(rng.random() < .5), **kw)
    a, am = must("get_alms", f.get_alms), must("get_mask_alms", f.get_mask_alms)

    def some(lm):
        q = [[lm, lm], [lm, 0], [max(min(s, lm) - 1, 0), 0]]
        for _ in range(3):
            l = int(rng.integers(0, lm + 1))
            q.append([l, int(rng.integers(0, l + 1))])
        return q
    lms, mlms = some(lm), some(lk)
    ev = [dict(op="Pts", grid=px.grid(), s=s, lmax=lm, lmask=lk, moi=moi, pts=pts, mv=hx(mask[ix]), fv=hx(mp[:, ix].T), lms=lms, mlms=mlms, tol="1e-10",
               vals=[[hx(complex(a[k, idx(lm, *q)])) for k in range(nm)] for q in lms], mvals=[[hx(complex(am[idx(lk, *q)]))][0] for q in mlms])]
    s2 = int(rng.integers(0, 4))
    L = int(rng.integers(8, min(px.dlmax, 20) + 1))
    K = dict(wcs=px.wcs, n_iter=0, n_iter_mask=0, lmax=L, lmax_mask=L)
    fs = [must("NmtField", nmt.NmtField, px.store(np.ones(px.npix)), px.store(rng.standard_normal((2 if t else 1, px.npix))), spin=t, **K) for t in (s, s2)]
    al = [must("get_alms", x.get_alms) for x in fs]
    for i, j in ((0, 1), (1, 0), (0, 0)):
        p = must("compute_coupled_cell", nmt.compute_coupled_cell, fs[i], fs[j])
        ev.append(dict(op="Spectra", a1=hxalm(al[i]), a2=hxalm(al[j]), lmax=L, pcl=hx(p)))
    return dict(ev=ev)
