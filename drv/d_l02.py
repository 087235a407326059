"""L02: flat-sky mode coupling: couple_cell and decouple_cell of workspaces of every kind."""
import numpy as np
from flatlib import *

PAIRS = [(0, 0), (0, 1), (0, 2), (2, 0), (3, 0), (1, 1), (2, 2), (1, 2), (2, 3)]


def gen(tier, seed):
    rng = np.random.default_rng([421, seed])
    th = tier == "thorough"
    cs = []
    for r in range(2 if not th else 14):
        for s in PAIRS:
            cs.append(dict(tag="s%d%d.%d" % (s + (r,)), kind="mcm", s=list(s)))
        for q in ((1, 0, 0, 0), (0, 1, 0, 1), (1, 1, 0, 1), (0, 1, 1, 1), (0, 0, 0, 1)):
            cs.append(dict(tag="pure%d%d%d%d.%d" % (q + (r,)), kind="mcm", s=[2, 2], q=list(q)))
        for q in ((0, 1), (1, 0), (1, 1)):
            cs.append(dict(tag="spure%d%d.%d" % (q + (r,)), kind="mcm", s=[[0, 2], [2, 0]][int(rng.integers(2))], q=list(q)))
        for s in (1, 2, 3):
            cs.append(dict(tag="teb%d.%d" % (s, r), kind="mcm", s=[0, s], teb=1))
        for q in ((0, 1), (1, 1)):
            cs.append(dict(tag="tebpure%d%d.%d" % (q + (r,)), kind="mcm", s=[0, 2], q=list(q), teb=1))
    cs.append(dict(tag="refused", kind="refused"))
    for i, c in enumerate(cs):
        c["seed"] = [seed, i]
    return cs


def refused(rng):
    import pymaster as nmt
    ev = []

    def no(what, fn, *x, **k):
        _, err = attempt(what, fn, *x, **k)
        ev.append(dict(op="Refused", call=what, err=err))
    m = .5 + rng.random((5, 6))
    F = nmt.NmtFieldFlat
    a = F(.5, .4, m, None, spin=0)
    b = F(.5, .4, m, None, spin=2)
    bb = nmt.NmtBinFlat([5., 25.], [25., 60.])
    new = nmt.NmtWorkspaceFlat
    W = lambda x, y, **k: new().compute_coupling_matrix(x, y, bb, **k)
    no("matrix of different pixels", W, a, F(.5, .4, np.ones((6, 5)), None, spin=0))
    no("matrix of different widths", W, a, F(.51, .4, m, None, spin=0))
    no("matrix of different heights", W, a, F(.5, .41, m, None, spin=2))
    no("TEB of two scalars", W, a, a, is_teb=True)
    no("TEB of spin and scalar", W, b, a, is_teb=True)
    no("TEB of two spins", W, b, b, is_teb=True)
    w = must("workspace", new)
    must("compute_coupling_matrix", w.compute_coupling_matrix, a, b, bb)
    l = np.linspace(0, 70, 20)
    x, y = np.ones((2, 20)), np.ones((2, 2))
    keep = w.couple_cell(l, x), w.decouple_cell(y)
    no("couple one spectrum of two", w.couple_cell, l, x[:1])
    no("couple four spectra of two", w.couple_cell, l, np.ones((4, 20)))
    no("couple spectra of other length", w.couple_cell, l, x[:, :19])
    no("couple a single spectrum", w.couple_cell, l, x[0])
    no("decouple one spectrum of two", w.decouple_cell, y[:1])
    no("decouple four spectra of two", w.decouple_cell, np.ones((4, 2)))
    no("decouple spectra of three bands", w.decouple_cell, np.ones((2, 3)))
    no("decouple with short noise", w.decouple_cell, y, cl_noise=y[:1])
    no("decouple with long noise", w.decouple_cell, y, cl_noise=np.ones((2, 3)))
    no("decouple with short bias", w.decouple_cell, y, cl_bias=y[:, :1])
    no("decouple with more biases", w.decouple_cell, y, cl_bias=np.ones((3, 2)))
    no("couple before computing", new().couple_cell, l, x)
    no("decouple before computing", new().decouple_cell, y)
    v = new()
    must("compute_coupling_matrix", v.compute_coupling_matrix, a, a, must("NmtBinFlat", nmt.NmtBinFlat, [1e-3, 12.], [2e-3, 60.]))
    no("decouple bands without modes", v.decouple_cell, np.ones((1, 2)))
    for u, v in zip([w.couple_cell(l, x), w.decouple_cell(y)], keep):
        ev.append(dict(op="Same", name="unchanged_by_refusals", obs=hx(u), exp=hx(v), tol="1e-10"))
    return dict(ev=ev)


def run(c):
    import pymaster as nmt
    rng = np.random.default_rng([422] + c["seed"])
    if c["kind"] == "refused":
        return refused(rng)
    s, teb = c["s"], c.get("teb", 0)
    q = c.get("q", [])
    if len(q) == 4:
        Q = [q[:2], q[2:]]
    else:
        Q = [[0, 0], [0, 0]]
        if q:
            Q[s.index(2)] = q
    big = sum(1 for x in s if x) == 2 or teb
    p = gpatch(rng, 3, 8 if big else 10)
    while p.nx * p.ny < 12:
        p = gpatch(rng, 3, 8 if big else 10)
    same = int(s[0] == s[1] and Q[0] == Q[1] and rng.random() < .4)
    fs = []
    for i in range(1 if same else 2):
        m = p.mask(rng, rng.choice(["smooth", "white", "apodised"]))
        if rng.random() < .3:
            m *= rng.random(m.shape) < .8
            m[0, 0], m[-1, 0] = 1, .5
        m = m * unit(rng, p=.3)
        kw = {}
        bm = []
        if rng.random() < .6:
            bm = p.beam(rng)
            if rng.random() < .2:
                bm = bm[:, :-2]                        # ends below the largest wave numbers
            kw["beam"] = bm
        maps = False if rng.random() < .5 else None
        if rng.random() < .3 and maps is None:
            kw["lite"] = True
        f = p.field(rng, s[i], mask=m, maps=maps, purify_e=bool(Q[i][0]), purify_b=bool(Q[i][1]), **kw)
        fs.append((f, dict(s=s[i], q=Q[i], m=hx(m.ravel()), beam=hx(bm) if len(bm) else [])))
    f1, f2 = fs[0], fs[-1]
    n = 7 if teb else (2 if s[0] else 1) * (2 if s[1] else 1)
    kx, ky, k = wavenumbers(p)
    some, sided = rng.random() < .75, rng.random() < .6
    for t in range(80):
        b, l0, lf = gbands(rng, p, nb=int(rng.integers(1, 4)), need=2)
        cut = cuts(rng, p) if some else []
        kept = np.ones(k.shape, bool)
        if cut:
            kept &= ~((kx >= cut[0][0]) & (kx <= cut[0][1]))[None, :] & ~((ky >= cut[1][0]) & (ky <= cut[1][1]))[:, None]
        bands = [(k >= x) & (k < y) for x, y in zip(l0, lf)]
        if cut and t < 40:         # strips that cross a band, most of them without their mirror image
            twice = kept & kept[-np.arange(p.ny)][:, -np.arange(p.nx)]
            if not any((x & kept & ~twice if sided else x & ~kept).sum() for x in bands):
                continue
        if all((kept & x).sum() for x in bands):
            break
    else:
        cut = []
    kw = dict(ell_cut_x=cut[0], ell_cut_y=cut[1]) if cut else {}
    if teb:
        kw["is_teb"] = True
    w = must("NmtWorkspaceFlat", nmt.NmtWorkspaceFlat)
    must("compute_coupling_matrix", w.compute_coupling_matrix, f1[0], f2[0], b, **kw)
    nb, top = len(l0), p.lmax()
    couple, solve = [], []
    for i in range(n + 2):
        ells = np.sort(rng.uniform(0, 1.3 * top, int(rng.integers(2, 25)))) if i % 2 else np.linspace(0, 1.2 * top, 40)
        cl = rng.standard_normal((n, len(ells)))
        if i < n:
            cl[[j for j in range(n) if j != i]] = 0     # one component at a time
        if i == n + 1:
            cl = cl.tolist() if rng.random() < .5 else cl
        out = must("couple_cell", w.couple_cell, ells, cl)
        couple.append(dict(ells=hx(ells), cl=hx(np.array(cl)), out=hx(out)))
    d, singular = attempt("decouple_cell", w.decouple_cell, np.zeros((n, nb)))    # a singular system is refused
    for i in range(0 if singular else n * nb + 2):
        x = rng.standard_normal((n, nb))
        if i < n * nb:
            x = np.zeros(n * nb)
            x[i] = 1
            x = x.reshape((n, nb))
        y = rng.standard_normal((n, nb)) if i >= n * nb else []
        z = rng.standard_normal((n, nb)) if i == n * nb + 1 else []
        kw = {}
        if len(y):
            kw["cl_noise"] = y
        if len(z):
            kw["cl_bias"] = z
        ks = [np.array(v) for v in (x, y, z)]
        out = must("decouple_cell", w.decouple_cell, x, **kw)
        assert all(np.array_equal(u, v) for u, v in zip(ks, (x, y, z)))
        solve.append(dict(cl=hx(x), noise=hx(y), bias=hx(z), out=hx(out)))
    e = dict(op="Mcm", f1=f1[1], same=same, teb=teb, b=dict(l0=hx(l0), lf=hx(lf)), cut=hx(cut), couple=couple, solve=solve, singular=int(bool(singular)), **geo(p))
    if not same:
        e["f2"] = f2[1]
    return dict(ev=[e, dict(op="Flag", name="shapes", obs=[np.array(couple[0]["out"]).shape == (n, nb), bool(singular) or d.shape == (n, nb)], exp=[True, True])])


def geo(p):
    return dict(nx=p.nx, ny=p.ny, lx=hx(p.lx), ly=hx(p.ly), tol="1e-10")
