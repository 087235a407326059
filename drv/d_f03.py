"""F03: mean change of pseudo-spectra through template removal, for signals and for noise."""
import numpy as np
from fldlib import *
from sphlib import *


def gen(tier, seed):
    rng = np.random.default_rng([321, seed])
    th = tier == "thorough"
    cs = []
    sp = [(0, 0, 0), (1, 0, 0), (2, 0, 0), (3, 0, 0), (2, 1, 0), (2, 0, 1), (2, 1, 1)]

    def one(tag, a, b, ens):
        nt = [int(x) for x in rng.choice([0, 1, 2, 3], 2, p=[.2, .3, .3, .2])]
        cs.append(dict(tag=tag, kind="bias", a=a, b=b, nt=nt if sum(nt) else [1, 1], lmax=int(rng.integers(max(a[0], b[0], 2), max(a[0], b[0], 2) + (1 if ens else 2))), ens=ens, same=int(a == b and rng.random() < .4)))
    k = 0
    for a in sp:
        for b in sp:
            pure = sum(a[1:]) + sum(b[1:]) > 0
            for r in range(3 if not th else 8):
                if th or k % 3 == 0 or a == b or not pure:
                    one("s%d%d%d-%d%d%d.%d" % (a + b + (r,)), a, b, int(r == 1))
            k += 1
    for a in sp:
        for r in range(5 if not th else 25):
            cs.append(dict(tag="n%d%d%d.%d" % (a + (r,)), kind="noise", a=a, nt=int(rng.integers(1, 4)), lmax=int(rng.integers(max(a[0], 2), 4)), ens=int(r % 4 == 1 and not sum(a[1:]))))
    for i, c in enumerate(cs):
        c["seed"] = [seed, i]
    cs.append(dict(tag="refused", kind="refused"))
    return cs


def field(rng, px, a, nt, lmax, sort, lk):
    """a field with nt independent templates (and perhaps others that add nothing), and what it is made of"""
    import pymaster as nmt
    s, q = a[0], a[1:]
    nm = 2 if s else 1
    n = px.npix
    mask = rng.uniform(.3, 2, n)
    moi = rng.random() < .25
    off = rng.random(n) < (0 if moi else .2)
    off[:4] = False
    mask[off] = 0
    u = 2.**int(rng.integers(-50, 51)) if rng.random() < .3 else 1.    # units of the templates are of no concern
    t = [u * rng.standard_normal((nm, n)) for _ in range(nt)]
    if nt > 1 and rng.random() < .5:
        t[1] += t[0]
    mp = rng.standard_normal((nm, n))
    base = list(range(1, nt + 1))
    if sort == "twice" and nt:
        t.append(t[0] * .7)
    if sort == "null":
        t.append(off * rng.standard_normal((nm, n)))
    niter, nim = int(rng.integers(0, 2)), int(rng.integers(0, 2))
    kw = {}
    if t:
        kw["templates"] = [px.store(x * mask if moi else x) for x in t]
    f = must("NmtField", nmt.NmtField, px.store(mask), px.store(mp * mask if moi else mp), spin=s, wcs=px.wcs, lmax=lmax, lmax_mask=lk, n_iter=niter, n_iter_mask=nim, masked_on_input=moi,
             purify_e=bool(q[0]), purify_b=bool(q[1]), **kw)
    d = dict(s=s, q=list(q), m=hx([mask]), temps=[hx(x) for x in t], base=base, lmax=lmax, lmask=lk, niter=niter, nimask=nim)
    e = dict(op="Alm", grid=px.grid(), f=d, maps=hx(mp), alm=hxalm(must("get_alms", f.get_alms)), tol="1e-9")
    if sum(q):
        e["map"] = hx(must("get_maps", f.get_maps))
    return f, d, e


def refused(rng):
    import pymaster as nmt
    n = 48
    K = dict(n_iter=0, n_iter_mask=0, lmax=3, lmax_mask=3)
    m, a, t = np.ones(n), rng.standard_normal((1, n)), rng.standard_normal((1, 1, n))
    f = nmt.NmtField(m, a, templates=t, **K)
    o = nmt.NmtField(m, a, templates=t, **dict(K, lmax=4))
    li = nmt.NmtField(m, a, templates=t, lite=True, **K)
    ln = nmt.NmtField(m, a, lite=True, **K)
    g2 = nmt.NmtField(m, rng.standard_normal((2, n)), **K)
    big = nmt.NmtField(np.ones(192), rng.standard_normal((1, 192)), **K)
    ct = catalog(rng, 0, 3, 3)
    ev = []

    def no(what, fn, *x):
        v, err = attempt(what, fn, *x)
        ev.append(dict(op="Refused", call=what, err=err))
    B, U = nmt.deprojection_bias, nmt.uncorr_noise_deprojection_bias
    c4 = np.ones((1, 4))
    for x, what in ((o, "another lmax"), (li, "a lite field"), (ln, "a lite field without templates"), (big, "another resolution"), (ct, "a catalog")):
        no("bias with " + what, B, f, x, c4)
        no("bias with " + what + " first", B, x, f, c4)
    no("spectra of the wrong number of components", B, f, g2, c4)
    no("spectra of the wrong length", B, f, f, np.ones((1, 5)))
    no("spectra of the wrong dimensions", B, f, f, np.ones(4))
    no("noise bias of a lite field", U, li, np.ones(n))
    no("noise bias of a lite field without templates", U, ln, np.ones(n))
    no("variance of another resolution", U, f, np.ones(192))
    no("noise bias of a catalog", U, ct, np.ones(n))
    return dict(ev=ev)


def run(c):
    import pymaster as nmt
    rng = np.random.default_rng([322] + c.get("seed", [0]))
    if c["kind"] == "refused":
        return refused(rng)
    lm, lk = c["lmax"], int(rng.integers(2, 5))
    px = Pixels.random(rng, lm, full=True) if rng.random() < .6 else Pixels("hpx", nside=2)
    sort = ["plain", "plain", "twice", "null"][int(rng.integers(0, 4))]
    nb = int(rng.integers(0, 2))
    arg = nb
    if rng.random() < .3:                            # the default, as it is when the function is called
        arg = None
        must("set_n_iter_default", nmt.set_n_iter_default, nb)
    kw = {} if arg is None else dict(n_iter=arg)
    if c["kind"] == "noise":
        f, d, ea = field(rng, px, c["a"], c["nt"], lm, sort, lk)
        if c["ens"] and px.npix > 60:
            c = dict(c, ens=0)
        if c["ens"]:
            nb = d["niter"]
            kw = dict(n_iter=nb)
        v = rng.uniform(.2, 3, px.npix) * (rng.random(px.npix) < .9)
        b = must("uncorr_noise_deprojection_bias", nmt.uncorr_noise_deprojection_bias, f, px.store(v), **kw)
        nmt.set_n_iter_default(3)
        return dict(ev=[ea, dict(op="NoiseBias", grid=px.grid(), f=d, v=hx(v), nb=nb, ensemble=c["ens"], bias=hx(b), tol="1e-9")])
    nm = [2 if x[0] else 1 for x in (c["a"], c["b"])]
    if c["ens"]:
        nb = 0
        kw = dict(n_iter=0)
    f, d, ea = field(rng, px, c["a"], c["nt"][0], lm, sort, lk)
    g, h, eb = (f, d, None) if c["same"] else field(rng, px, c["b"], c["nt"][1], lm, "plain", lk)
    if c["ens"] and d["niter"] + h["niter"] > 0:
        c = dict(c, ens=0)
    C = rng.uniform(-1, 2, (nm[0] * nm[1], lm + 1))
    keep = C.copy()
    b = must("deprojection_bias", nmt.deprojection_bias, f, g, C, **kw)
    nmt.set_n_iter_default(3)
    ev = ([ea] + ([eb] if eb else [])) if rng.random() < .25 else []
    ev.append(dict(op="Bias", grid=px.grid(), f=d, g=h, same=int(g is f), C=hx(C), nb=nb, ensemble=c["ens"], bias=hx(b), tol="1e-9"))
    ev.append(dict(op="Flag", name="guess_kept", obs=int(np.array_equal(C, keep)), exp=1))
    return dict(ev=ev)
