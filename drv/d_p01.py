"""P01: histories of default parameters, objects and functions that use them."""
import numpy as np
import binlib
from rec import hx, attempt, must
from sphlib import Pixels, hxalm


def gen(tier, seed):
    rng = np.random.default_rng([425, seed])
    hs = [h for h in binlib.behaviours() if len(h) >= 3]
    good = [h for h in hs if any(x["op"] == "Make" for x in h[:-1])]
    n, per = (30, 8) if tier == "quick" else (60, 12)
    cs = []
    for i in range(n):
        take = [good[j] for j in rng.integers(0, len(good), per)]
        cs.append(dict(tag="h%d" % i, kind=["hpx", "car", "pure", "hpx", "flat"][i % 5], hs=take, seed=[seed, i]))
    return cs


def run(c):
    import pymaster as nmt
    rng = np.random.default_rng([426] + c["seed"])
    ev = []

    def now():
        d = nmt.get_default_params()
        return [str(d["sht_calculator"]), hx(float(d["n_iter_default"])), hx(float(d["n_iter_mask_default"])), hx(float(d["tol_pinv_default"]))]

    def put(**k):
        ev.append(dict(k, now=now()))
    sets = dict(sht=nmt.set_sht_calculator, nit=nmt.set_n_iter_default, nitm=lambda x: nmt.set_n_iter_default(x, mask=True), tol=nmt.set_tol_pinv_default)
    NIT, TOL = [0, 1, 2, 3, 4], [0., 1e-10, 1e-3, .05, .3]
    BADN, BADT = [-1, -3, -.5, float("nan"), float("-inf")], [1.5, -.1, float("nan"), float("inf"), -1e-300]

    def value(p, x):
        """concrete values for the classes of the model"""
        if p == "sht":
            return ["libsharp", "DUCC", "", "healpix"][int(rng.integers(0, 4))] if x == "other" else x
        bad = float(x) == (2. if p == "tol" else -1.)
        if p == "tol":
            return float(rng.choice(BADT if bad else TOL))
        return float(rng.choice(BADN)) if bad else [int, float][int(rng.integers(0, 2))](rng.choice(NIT))

    def setit(p, v):
        _, err = attempt("set " + p, sets[p], v)
        put(op="Set", p=p, x=v if p == "sht" else hx(float(v)) if np.isfinite(v) else "nan" if v != v else "-1" if v < 0 else ("2" if p == "tol" else "-1"), err=err)

    def reset():
        for p, v in dict(sht="ducc", nit=3, nitm=3, tol=1e-10).items():
            setit(p, v)

    objs = {}

    def grid():
        return Pixels("car", N=int(rng.integers(5, 8)), M=8) if c["kind"] == "car" else Pixels("hpx", nside=2)
    px = grid()
    n = px.npix
    L = 4 if px.kind == "hpx" else 3

    def templates(nm, w, nt):
        """disjoint supports, very different amplitudes"""
        t = np.zeros([nt, nm, n])
        for p in range(nt):
            t[p, :, p::nt] = rng.standard_normal([nm, len(range(p, n, nt))])
            while True:
                a = 10.**rng.uniform(-2.5, 0)
                # squared amplitudes away from every cut (in units of the largest)
                t2 = t[p] * a
                norms = [((t[x] * w)**2).sum() for x in range(p)] + [((t2 * w)**2).sum()]
                r = np.array(norms) / max(norms)
                if all(abs(np.log(x / y)) > .05 for x in r for y in TOL + [.02, .2] if y > 0):
                    t[p] = t2
                    break
        return t

    def make(k, a, b, t):
        spin = 2 if c["kind"] == "pure" else int(rng.choice([0, 0, 1, 2]))
        nm = 2 if spin else 1
        q = [0, 0]
        if c["kind"] == "pure":
            q = [[1, 0], [0, 1], [1, 1]][int(rng.integers(0, 3))]
        w = rng.uniform(.3, 2, n)
        nt = int(rng.integers(0, 4)) if c["kind"] != "pure" else int(rng.integers(0, 2))
        tm = templates(nm, w[None], nt)
        mp = rng.standard_normal([nm, n])
        niter, nim = (int(rng.integers(0, 4)) if a else -1), (int(rng.integers(0, 4)) if b else -1)
        tol = float(rng.choice([.02, .2, 0.])) if t else ""
        kw = {}
        if a:
            kw["n_iter"] = niter
        if b:
            kw["n_iter_mask"] = nim
        if t:
            kw["tol_pinv"] = tol
        if nt:
            kw["templates"] = [px.store(x) for x in tm]
        f, err = attempt("NmtField", nmt.NmtField, px.store(w), px.store(mp), spin=spin, wcs=px.wcs, lmax=L, lmax_mask=L, purify_e=bool(q[0]), purify_b=bool(q[1]), **kw)
        e = dict(op="Make", k=k, grid=px.grid(), maps=hx(mp), err=err,
                 f=dict(s=spin, q=q, m=hx([w]), temps=[hx(x) for x in tm], lmax=L, lmask=L, niter=niter, nimask=nim, tol=hx(tol) if t else ""))
        if not err:
            objs[k] = (f, nm, nt)
            if rng.random() < .5:
                e["alm"] = hxalm(must("get_alms", f.get_alms))
        elif k in objs:
            del objs[k]
        put(**e)

    def look(k):
        if k not in objs:
            return
        f = objs[k][0]
        e = dict(op="Look", k=k, alm=hxalm(must("get_alms", f.get_alms)))
        a, err = attempt("get_mask_alms", f.get_mask_alms)
        if not err:
            e["malm"] = hxalm([a])
        put(err=err, **e)

    def biases(k):
        if k not in objs or c["kind"] == "pure" and rng.random() < .5:
            return
        f, nm, nt = objs[k]
        k2 = int(rng.choice(sorted(objs)))
        g, nm2, nt2 = objs[k2]
        if nt + nt2 == 0:
            return
        nb = int(rng.integers(0, 4)) if rng.random() < .4 else -1
        kw = {} if nb < 0 else dict(n_iter=nb)
        if rng.random() < .6:
            C = rng.uniform(-1, 2, [nm * nm2, L + 1])
            b, err = attempt("deprojection_bias", nmt.deprojection_bias, f, g, C, **kw)
            put(op="Bias", k=k, k2=k2, C=hx(C), niter=nb, err=err, bias=hx(b) if not err else [])
        elif nt:
            v = rng.uniform(.2, 3, n)
            b, err = attempt("uncorr_noise_deprojection_bias", nmt.uncorr_noise_deprojection_bias, f, px.store(v), **kw)
            put(op="NoiseBias", k=k, v=hx(v), niter=nb, err=err, bias=hx(b) if not err else [])

    def flat():
        ny, nx = 4, 5
        spin = int(rng.choice([0, 2]))
        nm = 2 if spin else 1
        w = rng.uniform(.3, 2, nx * ny)
        nt = int(rng.integers(1, 4))
        nonlocal n
        n, old = nx * ny, n
        tm = templates(nm, w[None], nt)
        n = old
        mp = rng.standard_normal([nm, nx * ny])
        tol = float(rng.choice([.02, .2, 0.])) if rng.random() < .4 else ""
        kw = {} if tol == "" else dict(tol_pinv=tol)
        s = lambda x: np.array(x).reshape([len(x), ny, nx])
        f = must("NmtFieldFlat", nmt.NmtFieldFlat, .3, .2, w.reshape([ny, nx]), s(mp), spin=spin, templates=[s(x) for x in tm], **kw)
        put(op="Flat", tol=hx(tol) if tol != "" else "", m=hx(w), maps=hx(mp), temps=[hx(x) for x in tm], map=[hx(x.ravel()) for x in must("get_maps", f.get_maps)])

    # operations without such parameters
    mask = (rng.random(48) < .8).astype(float)
    cat = (np.array([np.arccos(rng.uniform(-1, 1, 7)), rng.uniform(0, 6, 7)]), rng.uniform(.5, 2, 7), rng.standard_normal([1, 7]))

    def others():
        return dict(apodization=nmt.mask_apodization(mask, 40., apotype="Smooth"), c1=nmt.mask_apodization(mask, 60., apotype="C1"),
                    catalog=nmt.NmtFieldCatalog(cat[0], cat[1], cat[2], 4, 4).get_alms())
    first = others()

    def compare(which=None):
        for what, x in others().items():
            put(op="Other", what=what, same=int(np.allclose(x, first[what], rtol=1e-9, atol=1e-9)))

    def both():
        from pymaster.utils import NmtMapInfo, NmtAlmInfo, map2alm, alm2map
        old = nmt.get_default_params()["sht_calculator"]
        p = Pixels("hpx", nside=int(rng.choice([2, 4, 8])))
        s = int(rng.integers(0, 4))
        nm = 2 if s else 1
        mi, ai = NmtMapInfo(None, [p.npix]), NmtAlmInfo(int(rng.integers(max(s, 2), 3 * p.nside)))
        m, it = rng.standard_normal([nm, p.npix]), int(rng.integers(0, 4))
        a = rng.standard_normal([nm, ai.nelem]) + 1j * rng.standard_normal([nm, ai.nelem])
        if s:       # multipoles below the spin do not exist
            l = np.concatenate([np.arange(q, ai.lmax + 1) for q in range(ai.lmax + 1)])
            a[:, l < s] = 0
        a[:, :ai.lmax + 1] = a[:, :ai.lmax + 1].real
        out = []
        for b in ("ducc", "healpy"):
            nmt.set_sht_calculator(b)
            x = map2alm(m.copy(), s, mi, ai, n_iter=it)
            out.append([list(np.concatenate([y.real, y.imag])) for y in x] + [list(y) for y in alm2map(a, s, mi, ai)])
        nmt.set_sht_calculator(old)
        for j in range(len(out[0])):
            put(op="Both", a=[hx(out[0][j])], b=[hx(out[1][j])])
    put(op="Get")
    reset()
    for h in c["hs"]:
        for x in h:
            if x["op"] == "Set":
                setit(x["p"], value(x["p"], x["x"]))
            elif x["op"] == "Make":
                make(1 + int(rng.integers(0, 2)), x["a"], x["b"], x["t"])
            else:
                look(int(rng.choice(sorted(objs))) if objs else 1)
        if c["kind"] == "flat":
            flat()
        for k in sorted(objs):
            biases(k)
            look(k)
        if rng.random() < .3:
            compare()
        if rng.random() < .3:
            both()
    reset()
    return dict(ev=ev, nobj=2)
