"""B03: flat-sky bands; every layout the model explored, with a request that visits all ordered pairs and triples of multipoles."""
import numpy as np
from binlib import behaviours
from rec import hx, must


def gen(tier, seed):
    rng = np.random.default_rng([103, seed])
    cs = []
    for b in behaviours():
        lay = b["lay"]
        cs.append(dict(tag="beh:" + "_".join("%d-%d" % tuple(x) for x in lay), kind="replay", l0=[float(x[0]) for x in lay], lf=[float(x[1]) for x in lay], req="pairs"))
    for i in range(dict(quick=60, thorough=1200)[tier]):
        nb = int(rng.integers(1, 12))
        e = np.sort(rng.random(2 * nb)) * 10**rng.uniform(0, 4)
        l0, lf = e[0::2].copy(), e[1::2].copy()
        for b in range(1, nb):
            if rng.random() < .5:
                l0[b] = lf[b - 1]
        cs.append(dict(tag="rand:%d" % i, kind="random", l0=l0.tolist(), lf=lf.tolist(), req="rand", seed=int(rng.integers(1 << 30))))
    for c in cs:
        c.setdefault("seed", 1)
    return cs


def run(c):
    import pymaster as nmt
    rng = np.random.default_rng(c["seed"])
    l0, lf = np.array(c["l0"]), np.array(c["lf"])
    b = must("NmtBinFlat", nmt.NmtBinFlat, l0, lf)
    nb = len(l0)
    ev = [dict(op="About", nb=int(b.get_n_bands()), leff=hx(must("get_effective_ells", b.get_effective_ells)))]
    if c["req"] == "pairs":
        k = np.arange(7)
        ls = np.concatenate([np.array(np.meshgrid(k, k, indexing="ij")).reshape(2, -1).T.ravel(), np.arange(-1, 8), np.arange(8, -2, -1)]).astype(float)
        x = np.arange(-0.5, 7.6, 0.5)
    else:
        ls = np.concatenate([l0, lf, rng.uniform(-.1, 1.2, 30) * lf[-1], np.nextafter(lf, 0)])
        ls = ls[rng.permutation(len(ls))]
        x = np.sort(rng.uniform(l0[0] - .1, lf[-1] * 1.1, int(rng.integers(2, 40))))
    bp = rng.normal(size=(int(rng.integers(1, 4)), nb))
    h = hx(bp)
    ev.append(dict(op="Unbin", bp=h, ls=hx(ls), out=hx(must("unbin_cell", b.unbin_cell, bp, ls)), after=hx(bp)))
    srt = np.sort(ls)
    ev.append(dict(op="Unbin", bp=h[:1], ls=hx(srt), out=[hx(must("unbin_cell", b.unbin_cell, bp[0], srt))], after=hx(bp)[:1]))
    cl = rng.normal(size=(int(rng.integers(1, 4)), len(x)))
    h = hx(cl)
    ev.append(dict(op="Bin", cl=h, ls=hx(x), out=hx(must("bin_cell", b.bin_cell, x, cl)), after=hx(cl)))
    return dict(l0=hx(l0), lf=hx(lf), ev=ev)
