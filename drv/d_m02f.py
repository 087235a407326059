"""M02: multipoles of purified fields with band-limited masks and signals on grids that resolve their products."""
import numpy as np
from fldlib import *
from sphlib import *


def gen(tier, seed):
    rng = np.random.default_rng([221, seed])
    th = tier == "thorough"
    cs = []
    for r in range(5 if not th else 40):
        for q in ((0, 1), (1, 0), (1, 1), (0, 0)):
            for sig in ("E", "B", "EB"):
                cs.append(dict(tag="%d%d%s.%d" % (q + (sig, r)), kind="pure", q=list(q), sig=sig, lmax=int(rng.integers(2, 6)), ls=int(rng.integers(2, 5)), lw=int(rng.integers(1, 4)),
                               lmask=int(rng.integers(0, 4)), niter=int(rng.integers(0, 2)), moi=int(rng.random() < .3), lite=int(rng.random() < .3)))
    for i, c in enumerate(cs):
        c["seed"] = [seed, i]
    return cs


def run(c):
    import pymaster as nmt
    from pymaster import utils as ut
    rng = np.random.default_rng([222] + c["seed"])
    lm, ls, lw = c["lmax"], c["ls"], c["lw"]
    lmask = max(lw + c["lmask"], 2)
    N = max(lm, lmask) + lw + ls + 1 + int(rng.integers(0, 3))
    px = Pixels("car", N=N, M=2 * (N // 2 + 1) if rng.random() < .5 else N + 3 + (N + 3) % 2, lon=lon(rng), up=int(rng.integers(0, 2)), left=int(rng.integers(0, 2)))
    mi = px.info()
    wa = rand_alm(rng, lw) * .2
    wa[0] = 5.                                     # positive everywhere, so that masked_on_input can be undone
    sig = [rand_alm(rng, ls, 2) if t in c["sig"] else np.zeros(nalm(ls), complex) for t in "EB"]
    mask = must("alm2map", ut.alm2map, np.array([wa]), 0, mi, nmt.NmtAlmInfo(lw))[0]
    maps = must("alm2map", ut.alm2map, np.array(sig), 2, mi, nmt.NmtAlmInfo(ls))
    assert mask.min() > 0
    um, us = unit(rng, 100, .8), unit(rng, 100)                  # units of the mask and of the maps: the multipoles are linear in both
    mask, inp = mask * um, (maps * mask * um if c["moi"] else maps) * us
    keep = [mask.copy(), inp.copy()]
    sm, si = px.store(mask), px.store(inp)
    f = must("NmtField", nmt.NmtField, sm, si, spin=2 if rng.random() < .5 else None, purify_e=bool(c["q"][0]), purify_b=bool(c["q"][1]), wcs=px.wcs, n_iter=c["niter"],
             n_iter_mask=c["niter"], lmax=lm, lmax_mask=lmask, masked_on_input=bool(c["moi"]), lite=bool(c["lite"]))
    alm = must("get_alms", f.get_alms) / (um * us)
    e = dict(op="Product", grid=px.grid(), wa=hxalm([wa]), lw=lw, s=2, q=c["q"], sig=hxalm(sig), ls=ls, lmax=lm, alm=hxalm(alm), tol="1e-10", maps=0)
    if not c["lite"] and c["q"] != [0, 0]:
        e["maps"] = 1
        e["map"] = hx(must("get_maps", f.get_maps) / (um * us))
    ev = [e]
    assert np.array_equal(keep[0], px.load(sm)) and np.array_equal(keep[1], px.load(si))
    return dict(ev=ev)
