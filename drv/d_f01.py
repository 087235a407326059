"""F01: maps, masks and multipoles of fields of every spin and pixelisation, and all their spectra."""
import numpy as np
from fldlib import *
from sphlib import *


def gen(tier, seed):
    rng = np.random.default_rng([301, seed])
    th = tier == "thorough"
    cs = []
    for r in range(2 if not th else 30):
        for s1 in range(4):
            for s2 in range(4):
                lm = int(rng.integers(max(s1, s2, 1), 6))
                cs.append(dict(tag="%d-%d.%d" % (s1, s2, r), kind="pair", s=[s1, s2], lmax=lm, lmask=int(rng.integers(1, 6)), same=int(rng.random() < .5)))
    for r in range(6 if not th else 40):
        cs.append(dict(tag="deflt%d" % r, kind="default", s=[int(rng.integers(0, 3))]))
    for i, c in enumerate(cs):
        c["seed"] = [seed, i]
    return cs


def cast(rng, a):
    """the same numbers in another representation"""
    k = int(rng.integers(0, 5))
    if k != 2:
        a = a * unit(rng, p=.3)
    if k == 0:
        return a.astype(np.float32).astype(np.float64), lambda x: x.astype(np.float32)
    if k == 1:
        return a, lambda x: x.astype(">f8")
    if k == 2:
        return np.round(3 * a), lambda x: x.astype(np.int32)
    if k == 3:
        return a, np.asfortranarray
    return a, lambda x: x


def field(rng, px, s, lmax, lmask, name, **kw):
    import pymaster as nmt
    mask, cm = cast(rng, rng.uniform(0, 2, px.npix) * (rng.random(px.npix) < .8))
    mp, cp = cast(rng, rng.standard_normal((2 if s else 1, px.npix)))
    moi, lite = int(rng.random() < .3), bool(rng.random() < .4)
    niter, nimask = int(rng.integers(0, 3)), int(rng.integers(0, 3))
    sp = None if s in (0, 2) and rng.random() < .5 else s
    if lmax is not None:
        kw.update(lmax=lmax, lmax_mask=lmask)
    if rng.random() < .3:
        kw["beam"] = rng.uniform(.5, 2, (px.dlmax if lmax is None else lmax) + 1)
    if rng.random() < .2:
        kw["templates"] = None
    a = cp(px.store(mp))
    if rng.random() < .2:
        a = list(a)
    f = must("NmtField", nmt.NmtField, cm(px.store(mask)), a, spin=sp, wcs=px.wcs, n_iter=niter, n_iter_mask=nimask, masked_on_input=bool(moi), lite=lite, **kw)
    e = dict(op="Field", name=name, grid=px.grid(), s=s, lmax=int(f.ainfo.lmax), lmask=int(f.ainfo_mask.lmax), niter=niter, nimask=nimask, moi=moi, aniso=0, m=hx([mask]), maps=hx(mp), temps=[], base=[],
             tol="1e-11", mask=hx(must("get_mask", f.get_mask)), malm=hxalm([must("get_mask_alms", f.get_mask_alms)]), alm=hxalm(must("get_alms", f.get_alms)), spin=int(f.spin))
    ev = [e]
    _, err = attempt("get_templates", f.get_templates)
    ev.append(dict(op="Refused", call="templates of a field without any", err=err))
    if lite:
        _, err = attempt("get_maps", f.get_maps)
        ev.append(dict(op="Refused", call="maps of a lite field", err=err))
    else:
        e["map"] = hx(must("get_maps", f.get_maps))
    return f, ev


def run(c):
    import pymaster as nmt
    rng = np.random.default_rng([302] + c["seed"])
    if c["kind"] == "default":
        px = Pixels.random(rng, 3)
        while px.dlmax > 6:
            px = Pixels.random(rng, 3)
        f, ev = field(rng, px, c["s"][0], None, None, "default lmax")
        ev.append(dict(op="Flag", name="lmax", obs=[int(f.ainfo.lmax), int(f.ainfo_mask.lmax)], exp=[px.dlmax, px.dlmax]))
        return dict(ev=ev)
    px = Pixels.random(rng, c["lmax"])
    py = px if c["same"] else Pixels.random(rng, c["lmax"])
    f, e1 = field(rng, px, c["s"][0], c["lmax"], c["lmask"], "first")
    g, e2 = field(rng, py, c["s"][1], c["lmax"], c["lmask"], "second")
    ev = e1 + e2
    al = [must("get_alms", x.get_alms) for x in (f, g)]
    for i, j in ((0, 1), (1, 0), (0, 0)):
        p = must("compute_coupled_cell", nmt.compute_coupled_cell, (f, g)[i], (f, g)[j])
        ev.append(dict(op="Spectra", a1=hxalm(al[i]), a2=hxalm(al[j]), lmax=c["lmax"], pcl=hx(p)))
    if rng.random() < .4:
        n = 48
        K = dict(spin=0, n_iter=0, n_iter_mask=0)
        h = nmt.NmtField(np.ones(n), np.ones((1, n)), lmax=c["lmax"] + 1, lmax_mask=c["lmask"], **K)
        k = nmt.NmtField(np.ones(n), np.ones((1, n)), lmax=c["lmax"], lmax_mask=c["lmask"] + 1, **K)
        mo = nmt.NmtField(np.ones(n), None, lmax=c["lmax"], lmax_mask=c["lmask"], **K)
        for x, what in ((h, "another lmax"), (k, "another lmax_mask"), (mo, "no maps")):
            for q in ((f, x), (x, g)):
                _, err = attempt("compute_coupled_cell", nmt.compute_coupled_cell, *q)
                ev.append(dict(op="Refused", call="spectrum with a field with " + what, err=err))
    return dict(ev=ev)
