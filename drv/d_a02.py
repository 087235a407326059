"""A02: flat-sky apodisation: tapers of random masks of patches of every shape, smoothing, refusals."""
import numpy as np
from rec import hx, ints, attempt, must, unit


def gen(tier, seed):
    th = tier == "thorough"
    cs = []
    for r in range(40 if not th else 600):
        cs.append(dict(tag="cx%d" % r, kind="cx", i=r))
    for r in range(30 if not th else 300):
        cs.append(dict(tag="smooth%d" % r, kind="smooth", i=r))
    cs.append(dict(tag="refused", kind="refused"))
    for i, c in enumerate(cs):
        c["seed"] = [seed, i]
    return cs


def mask(rng, nx, ny):
    n = nx * ny
    m = rng.uniform(.1, 2, n) if rng.random() < .6 else np.ones(n)
    u = rng.random()
    if u < .4:
        m[rng.choice(n, min(int(rng.integers(1, 6)), n), replace=False)] = 0
    elif u < .7:      # an edge or a corner
        a = m.reshape(ny, nx)
        x, y = int(rng.integers(0, nx)), int(rng.integers(0, ny))
        if rng.random() < .5:
            a[:y] = 0
            a[:, :x] = 0
        else:
            a[y + 1:] = 0
            a[:, x + 1:] = 0
    elif u < .93:
        m[rng.random(n) < rng.uniform(.05, .95)] = 0
    return m.reshape(ny, nx)


def run(c):
    import pymaster as nmt
    rng = np.random.default_rng([412] + c["seed"])
    apo = nmt.mask_apodization_flat
    if c["kind"] == "refused":
        ev = []

        def no(why, m, *a, **k):
            m = np.asarray(m, float)
            before = hx(m.ravel())
            _, err = attempt("mask_apodization_flat", apo, m, *a, **k)
            ev.append(dict(op="Refuse", why=why, err=err, m=before, after=hx(m.ravel())))
        m = np.ones([5, 7])
        m[2, 3] = 0
        for t in ("C1", "C2", "Smooth"):
            no("negative scale, %s" % t, m, .1, .2, -1., t)
            no("flattened mask, %s" % t, m.ravel(), .1, .2, 1., t)
            no("cube, %s" % t, m[None], .1, .2, 1., t)
            for l in (0., -.1, float("nan")):
                no("width %r, %s" % (l, t), m, l, .2, 1., t)
                no("height %r, %s" % (l, t), m, .1, l, 1., t)
        for t in ("C3", "c1", "", "smooth", "C1 ", "C22"):
            no("type %r" % t, m, .1, .2, 1., t)
        return dict(ev=ev)
    big = c["kind"] == "cx"
    nx, ny = (int(x) for x in rng.integers(1 if c["i"] % 5 == 0 else 3, 14 if big else 10, 2))
    if c["i"] % 7 == 3:
        nx, ny = ny * 2, max(ny // 2, 1)
    if big and c["i"] % 8 == 5:
        nx, ny = (int(rng.integers(1, 3)), int(rng.integers(20, 60)))[::int(rng.choice([-1, 1]))]
    dx, dy = .01 * rng.uniform(.2, 3, 2)
    if rng.random() < .2:
        dy = dx
    lx, ly = float(nx * dx), float(ny * dy)
    m = mask(rng, nx, ny)
    t = ["C1", "C2"][int(rng.integers(0, 2))] if big else "Smooth"
    y, x = np.mgrid[:ny, :nx]
    Y, X = np.where(m == 0)
    d = np.unique(np.concatenate([[0.]] + [np.sqrt(((x - X[k]) * dx) ** 2 + ((y - Y[k]) * dy) ** 2).ravel() for k in range(len(X))]))
    while True:      # distances equal to the scale (to rounding) belong to either side; scales from below a pixel to beyond the patch
        sc = float(min(dx, dy) * 10 ** rng.uniform(-.7, 1.5)) if big else float(max(dx, dy) * 10 ** rng.uniform(-1.2, .8))
        if np.abs(d - (sc if big else 2.5 * sc)).min() > 1e-9 * sc:
            break
    deg = float(np.degrees(sc)) if c["i"] % 20 != 11 else 0.
    kind = int(rng.integers(0, 5))
    arg = m
    if kind == 0:
        m = (m > 0).astype(float)
        arg = m > 0
    elif kind == 1:
        arg = m.astype(np.float32)
        m = arg.astype(float)
    elif kind == 2:      # not contiguous
        arg = np.zeros([ny * 2, nx * 3])[::2, ::3]
        arg[...] = m
    elif kind == 3:
        arg = np.asfortranarray(m)
    u = unit(rng) if kind else 1.
    arg = arg * np.float32(u) if kind == 1 else arg * u if kind == 4 else arg
    if kind == 3:
        arg = np.asfortranarray(arg * u)
    elif kind == 2:
        arg *= u
    back = 1 / u ** (1 if big or sc == 0 or deg == 0 else 2)
    before = hx(m.ravel())
    kw = {} if t == "C1" and rng.random() < .3 else dict(apotype=t)
    o = must("mask_apodization_flat", apo, arg, lx, ly, deg, **kw)
    o = o * back
    h = dict(nx=nx, ny=ny, lx=hx(lx), ly=hx(ly), sc=hx(deg), type=t, m=before)
    ev = [dict(h, op="Taper", out=hx(o.ravel()), shape=ints(o.shape), after=hx(np.asarray(arg, float).ravel() / u), tol="1e-9" if big else "2e-4")]
    # modes along an axis of even length at its Nyquist frequency are the same for either sign, so transposing is exact
    o2 = must("mask_apodization_flat", apo, np.ascontiguousarray(arg.T), ly, lx, deg, **kw) * back
    ev.append(dict(op="Transpose", m=before, out=[hx(o.ravel()), hx(o2.T.ravel())], tol="1e-9"))
    return dict(ev=ev)
