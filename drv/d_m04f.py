"""M04: multipoles and mask multipoles of anisotropically weighted fields, and refused combinations."""
import numpy as np
from fldlib import *
from sphlib import *


def gen(tier, seed):
    rng = np.random.default_rng([246, seed])
    th = tier == "thorough"
    cs = [dict(tag="fld%d.%d" % (s, r), kind="field", s=s, lmax=int(rng.integers(s, 6)), lmask=int(rng.integers(2 * s, 2 * s + 3)), niter=int(rng.integers(0, 2)), nimask=int(rng.integers(0, 2)))
          for r in range(4 if not th else 30) for s in (1, 2, 3)]
    cs.append(dict(tag="refused", kind="refused"))
    for i, c in enumerate(cs):
        c["seed"] = [seed, i]
    return cs


def run(c):
    import pymaster as nmt
    rng = np.random.default_rng([247] + c["seed"])
    if c["kind"] == "refused":
        n = 48
        one, mp = np.ones(n), rng.standard_normal((2, n))
        K = dict(n_iter=0, n_iter_mask=0)
        ev = []

        def no(what, *a, **k):
            k = dict(K, **k)
            _, err = attempt(what, nmt.NmtField, *a, **k)
            ev.append(dict(op="Refused", call=what, err=err))
        no("weights without the 22 component", one, mp, mask_12=.1 * one)
        no("weights without the 12 component", one, mp, mask_22=one)
        no("mask-only without the 12 component", one, None, spin=2, mask_22=one)
        no("indefinite weights", one, mp, mask_22=one, mask_12=2 * one)
        bad = .1 * one
        bad[7] = 1.5
        no("weights indefinite in one pixel", one, mp, mask_22=one, mask_12=bad)
        no("weights indefinite in one pixel, mask-only", one, None, spin=2, mask_22=one, mask_12=bad)
        no("negative determinant", one, mp, mask_22=-one, mask_12=0 * one)
        no("scalar field", one, mp[:1], mask_22=one, mask_12=.1 * one)
        no("scalar field, mask-only", one, None, spin=0, mask_22=one, mask_12=.1 * one)
        no("B-purification", one, mp, mask_22=one, mask_12=.1 * one, purify_b=True)
        no("E-purification", one, mp, mask_22=one, mask_12=.1 * one, purify_e=True)
        no("purification, mask-only", one, None, spin=2, mask_22=one, mask_12=.1 * one, purify_b=True)
        no("templates", one, mp, mask_22=one, mask_12=.1 * one, templates=mp[None])
        fa = nmt.NmtField(one, None, spin=2, mask_22=2 * one, mask_12=.1 * one, **K)
        f0 = nmt.NmtField(one, None, spin=0, **K)
        b = linbins(5, 2)
        for x, y in ((f0, fa), (fa, f0), (fa, fa)):
            _, err = attempt("from_fields", nmt.NmtWorkspace.from_fields, x, y, b, l_toeplitz=3, l_exact=2, dl_band=1)
            ev.append(dict(op="Refused", call="Toeplitz", err=err))
        _, err = attempt("from_fields", nmt.NmtWorkspace.from_fields, f0, fa, b, is_teb=True)
        ev.append(dict(op="Refused", call="joint T-E-B matrix", err=err))
        cw = nmt.NmtCovarianceWorkspace
        for q in ((fa, f0, f0, f0), (f0, fa, f0, f0), (f0, f0, fa, f0), (f0, f0, f0, fa)):
            _, err = attempt("covariance", cw.from_fields, *q)
            ev.append(dict(op="Refused", call="covariance", err=err))
        fi = nmt.NmtField(one, mp, **K)
        for x in (fi, f0):
            for nm in ("get_anisotropic_mask", "get_anisotropic_mask_alms"):
                _, err = attempt(nm, getattr(x, nm))
                ev.append(dict(op="Refused", call=nm, err=err))
        return dict(ev=ev)
    s = c["s"]
    px = Pixels.random(rng, 4)
    n = px.npix
    m11, m22 = rng.uniform(.5, 2, n), rng.uniform(.5, 2, n)
    m12 = np.sqrt(m11 * m22) * rng.uniform(-.95, .95, n)
    mp = rng.standard_normal((2, n))
    moi = int(rng.random() < .25)
    lite = rng.random() < .4
    f = must("NmtField", nmt.NmtField, px.store(m11), px.store(mp), spin=s, mask_22=px.store(m22), mask_12=px.store(m12), wcs=px.wcs, lmax=c["lmax"], lmax_mask=c["lmask"], n_iter=c["niter"],
             n_iter_mask=c["nimask"], masked_on_input=bool(moi), lite=lite)
    e = dict(op="Field", grid=px.grid(), s=s, lmax=c["lmax"], lmask=c["lmask"], niter=c["niter"], nimask=c["nimask"], moi=moi, aniso=1, m=hx([m11, m22, m12]), maps=hx(mp), temps=[], base=[],
             tol="1e-11", mask=hx(f.get_mask()), amask=hx(must("get_anisotropic_mask", f.get_anisotropic_mask)), malm=hxalm([must("get_mask_alms", f.get_mask_alms)])[0:1],
             aalm=hxalm(must("get_anisotropic_mask_alms", f.get_anisotropic_mask_alms)), alm=hxalm(f.get_alms()), spin=int(f.spin))
    if not lite:
        e["map"] = hx(f.get_maps())
    return dict(ev=[e])
