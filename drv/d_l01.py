"""L01: flat-sky fields and their spectra: patches of every parity and aspect, spins, templates, purification, excluded strips."""
import numpy as np
from flatlib import *


def gen(tier, seed):
    rng = np.random.default_rng([411, seed])
    th = tier == "thorough"
    cs = []
    for r in range(3 if not th else 25):
        for s in range(4):
            for sort in ("none", "free", "double", "zero", "nothing"):
                cs.append(dict(tag="%s%d.%d" % (sort, s, r), kind="field", sort=sort, s=s, q=[0, 0]))
    for r in range(6 if not th else 50):
        for q in ((0, 1), (1, 0), (1, 1)):
            for sort in ("none", "free"):
                cs.append(dict(tag="pure%s%d%d.%d" % ((sort,) + q + (r,)), kind="field", sort=sort, s=2, q=list(q)))
    for r in range(30 if not th else 250):
        cs.append(dict(tag="cells%d" % r, kind="cells"))
    cs.append(dict(tag="refused", kind="refused"))
    for i, c in enumerate(cs):
        c["seed"] = [seed, i]
    return cs


def refused(rng):
    import pymaster as nmt
    m, a, b = np.ones((5, 6)), rng.standard_normal((1, 5, 6)), rng.standard_normal((2, 5, 6))
    ev = []

    def no(what, fn, *x, **k):
        _, err = attempt(what, fn, *x, **k)
        ev.append(dict(op="Refused", call=what, err=err))
    F = nmt.NmtFieldFlat
    no("negative width", F, -1., 1., m, a)
    no("negative height", F, 1., -1., m, a)
    no("no maps and no spin", F, 1., 1., m, None)
    no("three maps", F, 1., 1., m, np.ones((3, 5, 6)))
    no("one map with spin", F, 1., 1., m, a, spin=2)
    no("two maps without spin", F, 1., 1., m, b, spin=0)
    no("transposed maps", F, 1., 1., m, a.transpose(0, 2, 1))
    no("one transposed map", F, 1., 1., m, [b[0], b[1].T])
    no("purified scalar", F, 1., 1., m, a, purify_b=True)
    no("purified spin-1", F, 1., 1., m, b, spin=1, purify_e=True)
    no("purified mask-only scalar", F, 1., 1., m, None, spin=0, purify_e=True)
    no("templates of two components", F, 1., 1., m, a, templates=b[None])
    no("templates of one component", F, 1., 1., m, b, templates=a[None])
    no("templates of another shape", F, 1., 1., m, a, templates=np.ones((1, 1, 6, 5)))
    no("templates as a name", F, 1., 1., m, a, templates="dust")
    no("beam as a number", F, 1., 1., m, a, beam=1.)
    no("beam as a name", F, 1., 1., m, a, beam="gauss")
    f = F(1., 1., m, b, lite=True)
    no("maps of a lite field", f.get_maps)
    no("templates of a lite field", f.get_templates)
    e = F(1., 1., m, None, spin=2)
    no("maps of a mask-only field", e.get_maps)
    no("templates of a mask-only field", e.get_templates)
    bb = nmt.NmtBinFlat([1.], [9.])
    C = nmt.compute_coupled_cell_flat
    no("spectrum of a mask-only field", C, e, e, bb)
    no("spectrum with a mask-only field", C, f, e, bb)
    no("different pixels", C, f, F(1., 1., np.ones((6, 5)), np.ones((1, 6, 5))), bb)
    no("different widths", C, f, F(1.1, 1., m, b), bb)
    no("different heights", C, f, F(1., 1.1, m, b), bb)
    return dict(ev=ev)


def make(rng, p, s, q, sort="none", moi=0, lite=False):
    """-> field, description, inputs before and after"""
    import pymaster as nmt
    nm = 2 if s else 1
    m = p.mask(rng, rng.choice(["smooth", "white", "apodised"])) if rng.random() < .8 or moi else p.mask(rng, "binary")
    if m.max() == 0:
        m[0, 0] = 1
    if rng.random() < .5 and not moi:
        m[rng.random(m.shape) < .2] = 0
        m[0, 0], m[-1, -1] = 1, 0
    off = m == 0
    m *= unit(rng, p=.3)
    mp = p.maps(rng, s) * unit(rng, p=.3)
    t = [p.maps(rng, s) * rng.uniform(.2, 3) for _ in range(int(rng.integers(1, 3)))]
    base = list(range(1, len(t) + 1))
    if sort == "none":
        t, base = [], []
    elif sort == "double":
        t.append(t[0] * rng.uniform(.5, 2))
    elif sort == "zero":
        k = int(rng.integers(0, len(t) + 1))
        t.insert(k, np.zeros_like(mp))
        base = [i + 1 for i in range(len(t)) if i != k]
    elif sort == "nothing":
        t, base = [x * off if rng.random() < .5 and not moi else 0 * x for x in t], []
    kw = {}
    if t:
        kw["templates"] = t if rng.random() < .5 else np.array(t)
    if sort == "free" and rng.random() < .3:
        kw["tol_pinv"] = 1e-8
    if rng.random() < .5 or s not in (0, 2):
        kw["spin"] = s
    if rng.random() < .3:
        kw["beam"] = p.beam(rng)                      # has no effect on maps and coupled spectra
    keep = [x.copy() for x in [m, mp] + t]
    ms = mp if rng.random() < .5 else list(mp)
    f = must("NmtFieldFlat", nmt.NmtFieldFlat, p.lx, p.ly, m, ms, purify_e=bool(q[0]), purify_b=bool(q[1]), masked_on_input=bool(moi), lite=lite, **kw)
    same = int(all(np.array_equal(x, y) for x, y in zip([m, mp] + t, keep)))
    return f, desc(s, q, keep[0], keep[1], keep[2:], base, moi), same


def run(c):
    import pymaster as nmt
    rng = np.random.default_rng([412] + c["seed"])
    if c["kind"] == "refused":
        return refused(rng)
    p = gpatch(rng)
    geo = dict(nx=p.nx, ny=p.ny, lx=hx(p.lx), ly=hx(p.ly), tol="1e-8" if c.get("sort") in ("double", "zero") else "1e-9")
    ev = []
    if c["kind"] == "field":
        while p.nx * p.ny < 20:
            p = gpatch(rng)
        geo.update(nx=p.nx, ny=p.ny, lx=hx(p.lx), ly=hx(p.ly))
        s, q = c["s"], c["q"]
        lite, moi = rng.random() < .25, int(rng.random() < .3)
        f, d, same = make(rng, p, s, q, c["sort"], moi, lite)
        e = dict(op="Field", f=d, mask=hx(must("get_mask", f.get_mask).ravel()), ells=hx(must("get_ell_sampling", f.get_ell_sampling)), **geo)
        if not lite:
            e["map"] = [hx(x.ravel()) for x in must("get_maps", f.get_maps)]
            if d["temps"]:
                e["temp"] = [[hx(x.ravel()) for x in t] for t in must("get_templates", f.get_templates)]
            ev.append(dict(op="Flag", name="shapes", obs=[list(f.get_maps().shape), list(f.get_mask().shape)], exp=[[2 if s else 1, p.ny, p.nx], [p.ny, p.nx]]))
        ev += [e, dict(op="Flag", name="inputs_unchanged", obs=same, exp=1)]
        b, l0, lf = gbands(rng, p)
        ev.append(dict(op="Cells", f1=d, same=1, b=dict(l0=hx(l0), lf=hx(lf)), cut=[], cl=hx(must("compute_coupled_cell_flat", nmt.compute_coupled_cell_flat, f, f, b)), **geo))
        return dict(ev=ev)
    S = [int(rng.integers(0, 4)) for _ in range(2)]
    Q = [[int(x) for x in rng.integers(0, 2, 2)] if s == 2 and rng.random() < .4 else [0, 0] for s in S]
    f1, d1, s1 = make(rng, p, S[0], Q[0], rng.choice(["none", "free"]), int(rng.random() < .2), rng.random() < .4)
    f2, d2, s2 = make(rng, p, S[1], Q[1], rng.choice(["none", "free"]), int(rng.random() < .2), rng.random() < .4)
    for k in range(3):
        b, l0, lf = gbands(rng, p)
        cut = cuts(rng, p) if k else []
        kw = dict(ell_cut_x=cut[0], ell_cut_y=cut[1]) if cut else {}
        same = int(k == 2)
        cl = must("compute_coupled_cell_flat", nmt.compute_coupled_cell_flat, f1, f1 if same else f2, b, **kw)
        e = dict(op="Cells", f1=d1, same=same, b=dict(l0=hx(l0), lf=hx(lf)), cut=hx(cut), cl=hx(cl), **geo)
        if not same:
            e["f2"] = d2
        ev.append(e)
    return dict(ev=ev)
