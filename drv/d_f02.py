"""F02: removal of contaminant templates: any number, spin, pixelisation; dependent, vanishing and faint templates."""
import numpy as np
from fldlib import *
from sphlib import *


def gen(tier, seed):
    rng = np.random.default_rng([311, seed])
    th = tier == "thorough"
    cs = []
    for r in range(5 if not th else 30):
        for s in range(4):
            for sort in ("free", "double", "combination", "zero", "inside", "faint", "single", "nothing"):
                cs.append(dict(tag="%s%d.%d" % (sort, s, r), kind="temp", sort=sort, s=s, lmax=int(rng.integers(max(s, 1), 6))))
    for r in range(6 if not th else 40):
        for q in ((0, 1), (1, 0), (1, 1)):
            cs.append(dict(tag="pure%d%d.%d" % (q + (r,)), kind="pure", q=list(q), lmax=int(rng.integers(2, 5)), ls=int(rng.integers(2, 4)), lw=int(rng.integers(1, 3)), moi=int(rng.random() < .3),
                           nt=int(rng.integers(1, 3)), lite=int(rng.random() < .4), niter=int(rng.integers(0, 2))))
    cs.append(dict(tag="refused", kind="refused"))
    for i, c in enumerate(cs):
        c["seed"] = [seed, i]
    return cs


def refused(rng):
    import pymaster as nmt
    n = 48
    K = dict(n_iter=0, n_iter_mask=0)
    m, a, b = np.ones(n), rng.standard_normal((1, n)), rng.standard_normal((2, n))
    ev = []

    def no(what, *x, **k):
        _, err = attempt(what, nmt.NmtField, *x, **dict(K, **k))
        ev.append(dict(op="Refused", call=what, err=err))
    no("two-component templates of a scalar", m, a, templates=b[None])
    no("scalar templates of a spin-2 field", m, b, templates=a[None])
    no("templates of another resolution", m, a, templates=np.ones((1, 1, 192)))
    no("templates as a name", m, a, templates="dust")
    no("templates as a number", m, a, templates=1)
    no("templates with an anisotropic mask", m, b, templates=b[None], mask_22=m, mask_12=0 * m)
    return dict(ev=ev)


def pure(c, rng):
    import pymaster as nmt
    from pymaster import utils as ut
    lm, ls, lw = c["lmax"], c["ls"], c["lw"]
    lk = max(lw + int(rng.integers(0, 3)), 2)
    N = max(lm, lk) + lw + ls + 1 + int(rng.integers(0, 3))
    px = Pixels("car", N=N, M=N + 3 + (N + 3) % 2, lon=lon(rng), up=int(rng.integers(0, 2)), left=int(rng.integers(0, 2)))
    mi = px.info()
    wa = rand_alm(rng, lw) * .2
    wa[0] = 5.
    mask = must("alm2map", ut.alm2map, np.array([wa]), 0, mi, nmt.NmtAlmInfo(lw))[0]
    assert mask.min() > 0
    al = [np.array([rand_alm(rng, ls, 2), rand_alm(rng, ls, 2)]) for _ in range(c["nt"] + 1)]
    mp = [must("alm2map", ut.alm2map, x, 2, mi, nmt.NmtAlmInfo(ls)) for x in al]
    inp = [x * mask if c["moi"] else x for x in mp]
    f = must("NmtField", nmt.NmtField, px.store(mask), px.store(inp[0]), templates=np.array([px.store(x) for x in inp[1:]]), purify_e=bool(c["q"][0]), purify_b=bool(c["q"][1]), wcs=px.wcs,
             n_iter=c["niter"], n_iter_mask=c["niter"], lmax=lm, lmax_mask=lk, masked_on_input=bool(c["moi"]), lite=bool(c["lite"]))
    e = dict(op="PureTemp", grid=px.grid(), wa=hxalm([wa]), lw=lw, q=c["q"], sig=hxalm(al[0]), ts=[hxalm(x) for x in al[1:]], ls=ls, lmax=lm, tol="1e-9", alm=hxalm(must("get_alms", f.get_alms)),
             alphas=hx(np.asarray(f.alphas)))
    if not c["lite"]:
        e["temp"] = hx(must("get_templates", f.get_templates))
    return dict(ev=[e])


def run(c):
    import pymaster as nmt
    rng = np.random.default_rng([312] + c["seed"])
    if c["kind"] == "refused":
        return refused(rng)
    if c["kind"] == "pure":
        return pure(c, rng)
    s = c["s"]
    nm = 2 if s else 1
    px = Pixels.random(rng, c["lmax"])
    while px.npix * nm < 8:
        px = Pixels.random(rng, c["lmax"])
    n = px.npix
    mask = rng.uniform(.3, 2, n)
    off = rng.random(n) < .25
    off[:3] = False
    off[-1] = True
    mask[off] = 0
    mp = rng.standard_normal((nm, n))
    t = [rng.standard_normal((nm, n)) * rng.uniform(.2, 3) for _ in range(int(rng.integers(1, 4)))]
    base = list(range(1, len(t) + 1))
    tol, kw = "1e-9", {}
    so = c["sort"]
    if so == "single":
        t, base = t[:1], [1]
    elif so == "nothing":                              # templates that vanish wherever the mask does not
        t, base = [x * off if rng.random() < .5 else 0 * x for x in t], []
    elif so == "double":
        t.append(rng.uniform(.5, 2) * t[0])
    elif so == "combination":
        t = (t + [rng.standard_normal((nm, n))])[:2]
        base = [1, 2]
        t.append(.7 * t[0] - .4 * t[1])
    elif so == "zero":
        k = int(rng.integers(0, len(t) + 1))
        t.insert(k, np.zeros((nm, n)))
        base = [i + 1 for i in range(len(t)) if i != k]
    elif so == "inside":                                # the same wherever the mask is not zero
        x = t[0].copy()
        x[:, off] += 1
        t.append(x)
    elif so == "faint":                                  # disjoint templates of very different amplitudes
        half = np.arange(n) % 2 == 0
        a, b = rng.standard_normal((nm, n)) * half, rng.standard_normal((nm, n)) * ~half
        up = rng.random() < .5                            # is the fainter one above the threshold?
        t = [a, b * 1e-3]
        kw["tol_pinv"] = 1e-9 if up else 1e-3
        base = [1, 2] if up else [1]
        if rng.random() < .5:
            t, base = t[::-1], [3 - i for i in base]
    if so in ("free", "single") and rng.random() < .3:
        kw["tol_pinv"] = 0.
    ru = np.random.default_rng([313] + c["seed"])         # any units will do
    if ru.random() < .4:
        u = 2.**int(ru.integers(-60, 61))
        t = [x * u for x in t]
    if ru.random() < .3:
        mp = mp * 2.**int(ru.integers(-60, 61))
    if ru.random() < .3:
        mask = mask * 2.**int(ru.integers(-30, 31))
    moi, lite = int(rng.random() < .3), bool(rng.random() < .3)
    if moi and so in ("inside", "nothing"):
        moi = 0
    niter = int(rng.integers(0, 2))
    ts = [px.store(x) for x in t]
    ts = ts if rng.random() < .5 else np.array(ts) if rng.random() < .5 else tuple(ts)
    f = must("NmtField", nmt.NmtField, px.store(mask), px.store(mp), spin=s, templates=ts, wcs=px.wcs, lmax=c["lmax"], lmax_mask=c["lmax"], n_iter=niter, n_iter_mask=0,
             masked_on_input=bool(moi), lite=lite, **kw)
    e = dict(op="Field", grid=px.grid(), s=s, lmax=c["lmax"], lmask=c["lmax"], niter=niter, nimask=0, moi=moi, aniso=0, m=hx([mask]), maps=hx(mp), temps=hx(t), base=base, tol=tol,
             mask=hx(must("get_mask", f.get_mask)), alm=hxalm(must("get_alms", f.get_alms)))
    fin = int(np.isfinite(np.asarray(f.iM)).all() and np.isfinite(np.asarray(f.alphas)).all())
    if so != "faint" and fin:
        e["iM"] = hx(np.asarray(f.iM))
    ev = [e, dict(op="Flag", name="finite_coefficients", obs=fin, exp=1)]
    if lite:
        _, err = attempt("get_templates", f.get_templates)
        ev.append(dict(op="Refused", call="templates of a lite field", err=err))
    else:
        e["map"] = hx(must("get_maps", f.get_maps))
        e["temp"] = hx(must("get_templates", f.get_templates))
        if fin:
            e["alphas"] = hx(np.asarray(f.alphas))
    return dict(ev=ev)
