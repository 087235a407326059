"""C01: catalog fields of every spin and position convention; what is subtracted when."""
import numpy as np
from fldlib import *
from sphlib import hxalm


def gen(tier, seed):
    rng = np.random.default_rng([401, seed])
    th = tier == "thorough"
    cs = []
    for r in range(4 if not th else 60):
        for s in range(4):
            for ll in (0, 1):
                lm = int(rng.integers(max(s, 1), 6 if r < 3 else 13))
                cs.append(dict(tag="s%dll%d.%d" % (s, ll, r), kind="cat", s=s, ll=ll, lmax=lm, lmask=int(rng.integers(1, 8)) if rng.random() < .7 else None, n=int(rng.choice([1, 2, 5, 12])),
                               weighted=int(rng.random() < .4), only=int(rng.random() < .15)))
    for r in range(8 if not th else 60):                # many sources, most without weight
        s = int(rng.integers(0, 4))
        cs.append(dict(tag="many%d.%d" % (s, r), kind="cat", s=s, ll=r % 2, lmax=int(rng.integers(max(s, 1), 8)), lmask=int(rng.integers(1, 8)) if rng.random() < .5 else None, n=int(rng.choice([3, 5, 12])),
                       weighted=int(rng.random() < .4), only=int(rng.random() < .1), many=int(10 ** rng.uniform(2, 5.6))))
    cs.append(dict(tag="refused", kind="refused"))
    for i, c in enumerate(cs):
        c["seed"] = [seed, i]
    return cs


def positions(rng, n, ll):
    if ll:
        p = np.array([rng.uniform(0, 360, n), np.degrees(np.arcsin(rng.uniform(-1, 1, n)))])
        edge = [[0, 360, 180, 10], [90, -90, 0, 45]]
    else:
        p = np.array([np.arccos(rng.uniform(-1, 1, n)), rng.uniform(0, 2 * np.pi, n)])
        edge = [[0, np.pi, np.pi / 2, .1], [0, 2 * np.pi, np.pi, .1]]
    for k in range(n):
        for a in range(2):
            if rng.random() < .1:
                p[a, k] = edge[a][int(rng.integers(0, 4))]
    return p


def values(rng, shape):
    """the same numbers in another representation"""
    a = rng.standard_normal(shape)
    k = int(rng.integers(0, 4))
    if k == 0:
        b = a.astype(np.float32)
        return b.astype(float), b
    if k == 1:
        b = np.round(3 * a).astype(int)
        return b.astype(float), b
    if k == 2:
        return a, a.tolist()
    return a, a


def make(rng, c, extra={}):
    import pymaster as nmt
    s, n = c["s"], c["n"]
    nm = 2 if s else 1
    pos = positions(rng, n, c["ll"])
    w = rng.uniform(.2, 3, n)
    if rng.random() < .2:
        w[int(rng.integers(0, n))] = 0
    if rng.random() < .2:
        w[int(rng.integers(0, n))] *= -1
    f, fa = values(rng, (nm, n))
    uw, uf = unit(rng), unit(rng)           # units are of no concern
    w, f = w * uw, f * uf
    fa = fa if uf == 1 else f
    full = pos, w
    if c.get("many"):
        N = c["many"] + n
        at = np.sort(np.concatenate([[0, N - 1], 1 + rng.choice(N - 2, n - 2, replace=False)]))
        P, W, F = positions(rng, 50, c["ll"])[:, rng.integers(0, 50, N)], np.zeros(N), rng.standard_normal((nm, N)) * (0 if c["weighted"] else uf)
        P[:, at], W[at], F[:, at] = pos, w, f
        full, fa = (P, W), F
    if nm == 1 and rng.random() < .4:
        fa = np.asarray(fa)[0] if not isinstance(fa, list) else fa[0]
    kw = dict(extra)
    if c["lmask"] is not None:
        kw["lmax_mask"] = c["lmask"]
    if c["ll"]:
        kw["lonlat"] = True
    if c["weighted"] or rng.random() < .3:
        kw["field_is_weighted"] = bool(c["weighted"])
    if s not in (0, 2) or c["only"] or rng.random() < .5:
        kw["spin"] = s
    pp, ww = full
    keep = [pp.copy(), ww.copy(), np.array(fa, copy=True)]
    a = (pp if rng.random() < .7 else pp.tolist(), ww if rng.random() < .7 else ww.tolist(), None if c["only"] else fa)
    o = must("NmtFieldCatalog", nmt.NmtFieldCatalog, *a, c["lmax"], **kw)
    kept = int(np.array_equal(keep[0], a[0]) and np.array_equal(keep[1], a[1]) and (c["only"] or np.array_equal(keep[2], a[2])))
    lk = c["lmax"] if c["lmask"] is None else c["lmask"]
    e = dict(op="Catalog", ll=c["ll"], pos=hx(pos), w=hx(w), s=s, lmax=c["lmax"], lmask=lk, f=hx(f), weighted=c["weighted"], malm=hxalm([must("get_mask_alms", o.get_mask_alms)]), nw=hx(float(o.Nw)),
             spin=int(o.spin))
    ev = [e, dict(op="Flag", name="arguments_kept", obs=kept, exp=1)]
    if c["only"]:
        _, err = attempt("get_alms", o.get_alms)
        ev.append(dict(op="Refused", call="multipoles of a catalog without field", err=err))
    else:
        e["alm"] = hxalm(must("get_alms", o.get_alms))
        e["nf"] = hx(float(o.Nf))
    for what in ("get_maps", "get_mask", "get_templates"):
        _, err = attempt(what, getattr(o, what))
        ev.append(dict(op="Refused", call=what + " of a catalog", err=err))
    again = lambda: nmt.NmtFieldCatalog(*a, c["lmax"], **kw)
    return o, ev, again


def spectra(f, g, lm):
    import pymaster as nmt
    p = must("compute_coupled_cell", nmt.compute_coupled_cell, f, g)
    return dict(op="Spectra", a1=hxalm(must("get_alms", f.get_alms)), a2=hxalm(must("get_alms", g.get_alms)), lmax=lm, same=int(f is g), nf=hx(float(f.Nf)), pcl=hx(p))


def masks(f, g, lm):
    import pymaster as nmt
    w = must("from_fields", nmt.NmtWorkspace.from_fields, f, g, linbins(lm, 1))
    m = matrix(w)[:, 0] * 4 * np.pi
    n = min(lm, f.ainfo_mask.lmax) + 1
    return dict(op="Mask", lmask=int(f.ainfo_mask.lmax), a1=hxalm([must("get_mask_alms", f.get_mask_alms)]), a2=hxalm([must("get_mask_alms", g.get_mask_alms)]), same=int(f is g), nw=hx(float(f.Nw)), pcl=hx(m[:n]))


def refused(rng):
    import pymaster as nmt
    n = 5
    C = nmt.NmtFieldCatalog
    p = np.array([rng.uniform(.1, 3, n), rng.uniform(.1, 6, n)])
    d = np.array([rng.uniform(0, 360, n), rng.uniform(-80, 80, n)])
    w = rng.uniform(1, 2, n)
    f1, f2 = rng.standard_normal((1, n)), rng.standard_normal((2, n))
    ev = []

    def no(what, *a, **k):
        _, err = attempt(what, C, *a, **k)
        ev.append(dict(op="Refused", call=what, err=err))

    def put(q, a, v):
        q = q.copy()
        q[a, int(rng.integers(0, n))] = v
        return q
    no("positions transposed", p.T, w, f1, 4)
    no("too few positions", p[:, :-1], w, f1, 4)
    no("three coordinates", np.array([p[0], p[1], p[1]]), w, f1, 4)
    no("too few weights", p, w[:-1], f1, 4)
    for v in (-.01, 3.15, 90, np.nan):
        no("colatitude %s" % v, put(p, 0, v), w, f1, 4)
    for v in (-.01, 6.3, 180, np.nan):
        no("longitude %s" % v, put(p, 1, v), w, f1, 4)
    for v in (-.5, 360.5):
        no("longitude %s degrees" % v, put(d, 0, v), w, f1, 4, lonlat=True)
    for v in (-90.5, 91, 180):
        no("latitude %s degrees" % v, put(d, 1, v), w, f1, 4, lonlat=True)
    no("degrees taken for radians", d, w, f1, 4)
    no("two components for a scalar", p, w, f2, 4, spin=0)
    no("one component for spin 2", p, w, f1, 4, spin=2)
    no("one component for spin 1", p, w, f1, 4, spin=1)
    no("three components", p, w, np.ones((3, n)), 4)
    no("too few values", p, w, f1[:, :-1], 4)
    no("too many values", p, w, np.ones((1, n + 1)), 4)
    no("neither field nor spin", p, w, None, 4)
    no("short beam", p, w, f1, 4, beam=np.ones(4))
    no("beam of another type", p, w, f1, 4, beam=1.)
    a = nmt.NmtFieldCatalog(p, w, f1, 4)
    m = nmt.NmtFieldCatalog(p, w, None, 4, spin=0)
    b = nmt.NmtFieldCatalog(p, w, f1, 5)
    k = nmt.NmtFieldCatalog(p, w, f1, 4, lmax_mask=6)
    for x, what in ((m, "no field"), (b, "another lmax"), (k, "another lmax_mask")):
        for q in ((a, x), (x, a)):
            _, err = attempt("compute_coupled_cell", nmt.compute_coupled_cell, *q)
            ev.append(dict(op="Refused", call="spectrum with a catalog with " + what, err=err))
    return dict(ev=ev)


def run(c):
    import pymaster as nmt
    rng = np.random.default_rng([402] + c["seed"])
    if c["kind"] == "refused":
        return refused(rng)
    extra = {}
    lm = c["lmax"]
    if rng.random() < .4:
        extra["beam"] = rng.uniform(.5, 2, lm + 1 + int(rng.integers(0, 3)))
    o, ev, again = make(rng, c, extra)
    b = extra.get("beam", np.ones(lm + 1))
    ev.append(dict(op="Flag", name="beam", obs=int(np.array_equal(np.asarray(o.beam)[:lm + 1], b[:lm + 1])), exp=1))
    twin = must("NmtFieldCatalog", again)
    lk = lm if c["lmask"] is None else c["lmask"]
    other, _, _ = make(rng, dict(c, only=0, many=0, n=int(rng.integers(1, 6)), lmask=lk), {})
    hp = must("NmtField", nmt.NmtField, smooth_mask(rng, 2, "white"), rng.standard_normal((1, 48)), spin=0, n_iter=0, n_iter_mask=0, lmax=lm, lmax_mask=lk)
    pairs = [(o, o), (o, twin), (o, other), (other, o), (o, hp), (hp, o)]
    if not c["only"]:
        ev += [spectra(f, g, lm) for f, g in pairs]
    if c["s"] == 0:
        ev += [masks(f, g, lm) for f, g in pairs]
    return dict(ev=ev)
