"""A01: curved-sky apodisation: tapers around every pixel and of random masks, smoothing, refusals."""
import numpy as np
from rec import hx, ints, attempt, must, unit


def vecs(ns):
    import healpy as hp
    return np.array(hp.pix2vec(ns, np.arange(12 * ns * ns))).T


def brink(V, m, sc):
    """the pixels closest to the scale from the zeros, on either side"""
    z = np.where(m == 0)[0]
    if not len(z) or len(z) > 200:
        return np.zeros(0, int)
    d = np.abs(np.arccos(np.clip((V @ V[z].T).max(1), -1, 1)) - np.radians(sc))
    d[z] = 99
    return np.argsort(d)[:60]


def gen(tier, seed):
    rng = np.random.default_rng([401, seed])
    th = tier == "thorough"
    cs = []

    def scales(ns):
        px = np.degrees(1.02 / ns)
        return [float(x) for x in (px * rng.uniform(.3, 1.2), px * rng.uniform(1.2, 4), px * rng.uniform(4, 8), rng.uniform(60, 180))]
    for ns in (1, 2):
        for r in range(1 if not th else 5):
            for sc in scales(ns):
                cs.append(dict(tag="holes%d.%d" % (ns, len(cs)), kind="holes", ns=ns, sc=min(sc, 180.), type=str(rng.choice(["C1", "C2"])), n=12 * ns * ns))
    for ns, n in ((4, 60), (8, 20)) if not th else ((4, 192), (8, 200), (16, 60)):
        for r in range(1 if not th else 4):
            for sc in scales(ns):
                cs.append(dict(tag="holes%d.%d" % (ns, len(cs)), kind="holes", ns=ns, sc=min(sc, 180.), type=str(rng.choice(["C1", "C2"])), n=n))
    for ns in (2, 4, 8, 16, 32) + ((64, 128) if th else ()):
        for r in range(3 if not th else 20):
            cs.append(dict(tag="mask%d.%d" % (ns, r), kind="mask", ns=ns, sc=scales(ns)[r % 4], type=str(rng.choice(["C1", "C2"]))))
    for r in range(3 if not th else 30):      # discs much larger than the pixels
        cs.append(dict(tag="wide%d" % r, kind="mask", ns=32, sc=float(rng.uniform(40, 170)), few=True, type=str(rng.choice(["C1", "C2"]))))
    for r in range(2 if not th else 20):
        cs.append(dict(tag="between%d" % r, kind="between", ns=8 if r < 16 else 16))
    for ns in (2, 4) if not th else (2, 4, 8):
        for r in range(4 if not th else 12 if ns < 8 else 3):
            cs.append(dict(tag="smooth%d.%d" % (ns, r), kind="smooth", ns=ns, big=r == 3))
    cs.append(dict(tag="refused", kind="refused"))
    for i, c in enumerate(cs):
        c["seed"] = [seed, i]
    return cs


def run(c):
    import pymaster as nmt
    rng = np.random.default_rng([402] + c["seed"])
    apo = nmt.mask_apodization
    if c["kind"] == "refused":
        ev = []

        def no(why, m, *a, **k):
            before = hx(np.asarray(m, float))
            _, err = attempt("mask_apodization", apo, m, *a, **k)
            ev.append(dict(op="Refuse", why=why, err=err, m=before, after=hx(np.asarray(m, float))))
        m = np.ones(192)
        m[3] = 0
        for t in ("C1", "C2", "Smooth"):
            no("negative scale, %s" % t, m, -10., t)
            no("wrong number of pixels, %s" % t, m[:-1], 30., t)
            no("number of pixels that is no power of 2, %s" % t, np.ones(108), 30., t)
        for t in ("C3", "c1", "", "smooth", "C1 ", "C22"):
            no("type %r" % t, m, 30., t)
            no("type %r, scale 0" % t, m, 0., t)
        return dict(ev=ev)
    ns = c["ns"]
    n = 12 * ns * ns
    V = vecs(ns)
    if c["kind"] == "holes":
        hs = np.arange(n) if n <= c["n"] else np.unique(np.concatenate([rng.choice(min(60, n // 4), min(c["n"] // 3, n // 4), replace=False), n - 1 - rng.choice(min(60, n // 4), min(c["n"] // 3, n // 4), replace=False), rng.choice(n, c["n"] // 3, replace=False)]))
        out, err = [], ""
        for h in hs:
            u = unit(rng)
            m = np.ones(n) * u
            m[h] = 0
            o, e = attempt("mask_apodization", apo, m, c["sc"], c["type"])
            if o is None:
                err = e
                break
            out.append(hx(o / u))
        return dict(ev=[dict(op="Holes", nside=ns, type=c["type"], sc=hx(c["sc"]), holes=ints(hs + 1), out=[] if err else out, err=err, tol="1e-9", why="scale %.4g at nside %d" % (c["sc"], ns))])
    if c["kind"] == "mask":
        m = rng.uniform(.1, 2, n)
        m *= unit(rng)
        u = rng.random()
        if c.get("few"):
            m[rng.choice(n, int(rng.integers(1, 4)), replace=False)] = 0
        elif u < .4:        # few holes
            m[rng.choice(n, min(int(rng.integers(1, 12)), n // 4), replace=False)] = 0
        elif u < .8:      # few pixels away from the poles or around them
            x = V @ V[int(rng.integers(0, n)) if rng.random() < .6 else 0]
            m[(x > np.cos(rng.uniform(.2, 1.))) ^ (rng.random() < .5)] = 0
        else:
            m[rng.random(n) < rng.uniform(.1, .9)] = 0
        if rng.random() < .1 and not c.get("few"):
            m[:] = 1.
        kind = int(rng.integers(0, 4))
        arg = m if kind else (m > 0)
        if kind == 0:
            m = (m > 0).astype(float)
        elif kind == 1:
            arg = m = m.astype(np.float32)
        before = hx(np.asarray(m, float))
        kw = {} if c["type"] == "C1" and rng.random() < .3 else dict(apotype=c["type"])
        sc = 0. if rng.random() < .05 and not c.get("few") else c["sc"]
        o, err = attempt("mask_apodization", apo, arg, sc, **kw)
        at = np.arange(n) if n <= 192 else np.unique(np.concatenate([np.arange(24), n - 1 - np.arange(24), rng.choice(n, 100), np.where(m > 0)[0][:40], brink(V, m, sc), rng.permutation(np.where(m > 0)[0])[:60]]))
        return dict(ev=[dict(op="Taper", nside=ns, type=c["type"], sc=hx(sc), at=ints(at + 1), m=before, after=hx(np.asarray(arg, float)), out=[] if o is None else hx(o), err=err, tol="1e-9",
                             why="scale %.4g at nside %d" % (sc, ns))])
    if c["kind"] == "between":
        m = rng.uniform(.8, 1.2, n)
        x = unit(rng)
        m[int(rng.integers(0, n))] = 0
        sc = float(np.degrees(rng.uniform(.75, 1.15) * 8 / ns))
        before = hx(m)
        m *= x
        o, err = attempt("mask_apodization", apo, m, sc, "Smooth")
        return dict(ev=[dict(op="Between", nside=ns, sc=hx(sc), m=before, after=hx(m / x), out=[] if o is None else hx(o / x ** 2), err=err, tol="1e-5", why="")])
    # smooth: a scale for which few pixels lie on the edge of the holes
    while True:
        m = rng.uniform(.5, 2, n) if rng.random() < .5 else np.ones(n)
        k = int(rng.integers(0, 4))
        z = rng.choice(n, k, replace=False)
        m[z] = 0
        sc = float(rng.uniform(.12, 2.5) / ns) if not c["big"] else float(rng.uniform(1.3, 2))
        if k == 0:
            break
        d = np.arccos(np.clip((V @ V[z].T).max(1), -1, 1))
        edge = ((d > 2.5 * sc) & (d < 2.5 * sc + 1.75 / ns)).sum()
        if edge <= (7 if ns == 2 else 6) and (edge or rng.random() < .2 or c["big"]) and np.abs(d - 2.5 * sc).min() > 1e-6 and ((d > 2.5 * sc).any() or c["big"]):
            break
    sc = float(np.degrees(sc))
    before = hx(m)
    x = unit(rng)
    m *= x
    o, err = attempt("mask_apodization", apo, m, sc, "Smooth")
    return dict(ev=[dict(op="Smooth", nside=ns, sc=hx(sc), m=before, after=hx(m / x), out=[] if o is None else hx(o / x ** 2), err=err, tol="1e-9", why="scale %.4g at nside %d" % (sc, ns))])
