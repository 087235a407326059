"""C02: clustering catalogs: data minus scaled randoms, and their noise."""
import numpy as np
from fldlib import *
from sphlib import hxalm
from d_c01 import positions, spectra, masks


def gen(tier, seed):
    rng = np.random.default_rng([411, seed])
    th = tier == "thorough"
    cs = []
    for r in range(12 if not th else 150):
        for ll in (0, 1):
            cs.append(dict(tag="ll%d.%d" % (ll, r), kind="cl", ll=ll, lmax=int(rng.integers(1, 6 if r < 9 else 13)), n=int(rng.choice([1, 2, 5, 12])), nr=int(rng.choice([1, 3, 10, 25]))))
    cs.append(dict(tag="refused", kind="refused"))
    for i, c in enumerate(cs):
        c["seed"] = [seed, i]
    return cs


def refused(rng):
    import pymaster as nmt
    n = 5
    C = nmt.NmtFieldCatalogClustering
    p, q = (np.array([rng.uniform(.1, 3, n), rng.uniform(.1, 6, n)]) for _ in range(2))
    d = np.array([rng.uniform(0, 360, n), rng.uniform(-80, 80, n)])
    w = rng.uniform(1, 2, n)
    ev = []

    def no(what, *a, **k):
        _, err = attempt(what, C, *a, **k)
        ev.append(dict(op="Refused", call=what, err=err))

    def put(q, a, v):
        q = q.copy()
        q[a, int(rng.integers(0, n))] = v
        return q

    def both(what, x, y, good=p, **k):
        no(what, x, y, good, w, 4, **k)
        no(what + " of randoms", good, w, x, y, 4, **k)
    both("positions transposed", p.T, w)
    both("too few positions", p[:, :-1], w)
    both("too few weights", p, w[:-1])
    for v in (-.01, 3.15, 90, np.nan):
        both("colatitude %s" % v, put(p, 0, v), w)
    for v in (-.01, 6.3, 180, np.nan):
        both("longitude %s" % v, put(p, 1, v), w)
    for v in (-.5, 360.5):
        both("longitude %s degrees" % v, put(d, 0, v), w, good=d, lonlat=True)
    for v in (-90.5, 91, 180):
        both("latitude %s degrees" % v, put(d, 1, v), w, good=d, lonlat=True)
    both("degrees taken for radians", d, w)
    f = C(p, w, q, w, 4)
    g = C(p, w, q, w, 5)
    for x in ((f, g), (g, f)):
        _, err = attempt("compute_coupled_cell", nmt.compute_coupled_cell, *x)
        ev.append(dict(op="Refused", call="spectrum with a catalog with another lmax", err=err))
    return dict(ev=ev)


def run(c):
    import pymaster as nmt
    rng = np.random.default_rng([412] + c["seed"])
    if c["kind"] == "refused":
        return refused(rng)
    lm = c["lmax"]
    p, q = positions(rng, c["n"], c["ll"]), positions(rng, c["nr"], c["ll"])
    if rng.random() < .15:
        q = p.copy()                                # the randoms where the data are
        c["nr"] = c["n"]
    w, x = rng.uniform(.2, 3, c["n"]), rng.uniform(.2, 3, c["nr"]) * 10.**rng.integers(-2, 3)
    if rng.random() < .2:
        w, x = np.ones(c["n"]), np.ones(c["nr"])
    if rng.random() < .2:
        w[0] = -w[0] * .1
    w, x = w * unit(rng), x * unit(rng)
    kw = dict(lonlat=True) if c["ll"] else {}

    def pad(pos, w):                 # among many sources without weight
        n = len(w)
        N = n + int(10 ** rng.uniform(2, 5.5))
        at = np.sort(np.concatenate([[0, N - 1], 1 + rng.choice(N - 2, max(n - 2, 0), replace=False)])[:n])
        P, W = positions(rng, 50, c["ll"])[:, rng.integers(0, 50, N)], np.zeros(N)
        P[:, at], W[at] = pos, w
        return P, W
    args = [a if rng.random() < .7 else a.tolist() for a in (pad(p, w) if rng.random() < .2 else (p, w)) + (pad(q, x) if rng.random() < .2 else (q, x))]
    keep = [np.array(a, copy=True) for a in args]

    def new():
        return must("NmtFieldCatalogClustering", nmt.NmtFieldCatalogClustering, *args, lm, **kw)
    o = new()
    ev = [dict(op="Flag", name="arguments_kept", obs=int(all(np.array_equal(a, b) for a, b in zip(args, keep))), exp=1)]
    ev.append(dict(op="Clustering", ll=c["ll"], pos=hx(p), posr=hx(q), w=hx(w), x=hx(x), lmax=lm, malm=hxalm([must("get_mask_alms", o.get_mask_alms)]), alm=hxalm(must("get_alms", o.get_alms)),
                   nw=hx(float(o.Nw)), nf=hx(float(o.Nf)), alpha=hx(float(o.alpha)), spin=int(o.spin)))
    for what in ("get_maps", "get_mask", "get_templates"):
        _, err = attempt(what, getattr(o, what))
        ev.append(dict(op="Refused", call=what + " of a catalog", err=err))
    ev.append(dict(op="Flag", name="beam", obs=int(np.array_equal(np.asarray(o.beam)[:lm + 1], np.ones(lm + 1))), exp=1))
    cat = catalog(rng, 0, lm, lm)
    for f, g in ((o, o), (o, new()), (o, cat), (cat, o)):
        ev += [spectra(f, g, lm), masks(f, g, lm)]
    return dict(ev=ev)
