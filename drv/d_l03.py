"""L03: flat-sky deprojection bias and the one-call flat-sky estimator."""
import numpy as np
from flatlib import *
import d_l01

SP = [(0, 0, 0), (1, 0, 0), (2, 0, 0), (3, 0, 0), (2, 1, 0), (2, 0, 1), (2, 1, 1)]


def gen(tier, seed):
    rng = np.random.default_rng([431, seed])
    th = tier == "thorough"
    cs = []
    for r in range(1 if not th else 6):
        for k, a in enumerate(SP):
            for l, b in enumerate(SP):
                if th or (k + l) % 2 == 0 or a == b:
                    cs.append(dict(tag="bias%d%d%d-%d%d%d.%d" % (a + b + (r,)), kind="bias", a=a, b=b, ens=int(r == 1)))
    for r in range(36 if not th else 250):
        a, b = SP[int(rng.integers(len(SP)))], SP[int(rng.integers(len(SP)))]
        cs.append(dict(tag="full%d" % r, kind="full", a=a, b=b))
    cs.append(dict(tag="refused", kind="refused"))
    for i, c in enumerate(cs):
        c["seed"] = [seed, i]
    return cs


def field(rng, p, a, sort=None, beam=False, maps=True):
    import pymaster as nmt
    s, q = a[0], list(a[1:])
    nm = 2 if s else 1
    m = .3 + rng.random((p.ny, p.nx)) * 1.5
    moi = int(rng.random() < .25)
    if not moi:
        m *= rng.random(m.shape) < .85
        m[0, 0], m[-1, -1] = 1, .4
    mp = p.maps(rng, s)
    sort = sort or rng.choice(["none", "one", "two", "double", "zero"])
    t = [] if sort == "none" else [p.maps(rng, s) for _ in range(2 if sort == "two" else 1)]
    base = list(range(1, len(t) + 1))
    if sort == "double":
        t.append(t[0] * .7)
    elif sort == "zero":
        t.append(0 * mp)
    kw = {}
    bm = []
    if beam and rng.random() < .5:
        bm = p.beam(rng)
        kw["beam"] = bm
    if t:
        kw["templates"] = t
    f = must("NmtFieldFlat", nmt.NmtFieldFlat, p.lx, p.ly, m, mp, spin=s, purify_e=bool(q[0]), purify_b=bool(q[1]), masked_on_input=bool(moi), **kw)
    d = desc(s, q, m, mp, t, base, moi)
    return f, d, dict(s=s, q=q, m=d["m"], beam=hx(bm) if len(bm) else []), sort


def refused(rng):
    import pymaster as nmt
    ev = []

    def no(what, fn, *x, **k):
        _, err = attempt(what, fn, *x, **k)
        ev.append(dict(op="Refused", call=what, err=err))
    m, a, b = .5 + rng.random((5, 6)), rng.standard_normal((1, 5, 6)), rng.standard_normal((2, 5, 6))
    F = nmt.NmtFieldFlat
    t = rng.standard_normal((1, 1, 5, 6))
    f, g = F(.5, .4, m, a, templates=t), F(.5, .4, m, b)
    li = F(.5, .4, m, a, templates=t, lite=True)
    ln = F(.5, .4, m, a, lite=True)
    mo = F(.5, .4, m, None, spin=0)
    ot = F(.5, .4, np.ones((6, 5)), rng.standard_normal((1, 6, 5)))
    wd = F(.51, .4, m, a)
    ht = F(.5, .41, m, a)
    bb = nmt.NmtBinFlat([5., 25.], [25., 60.])
    b3 = nmt.NmtBinFlat([5., 25., 40.], [25., 40., 60.])
    l = np.linspace(0, 70, 9)
    c, c2 = np.ones((1, 9)), np.ones((2, 9))
    B, M = nmt.deprojection_bias_flat, nmt.compute_full_master_flat
    w = nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(f, f, bb)
    w2 = nmt.NmtWorkspaceFlat()
    w2.compute_coupling_matrix(f, g, bb)
    w7 = nmt.NmtWorkspaceFlat()
    w7.compute_coupling_matrix(f, g, bb, is_teb=True)
    keep = [hx(M(f, f, bb, cl_guess=c, ells_guess=l, workspace=w)), hx(M(f, g, bb, workspace=w2)), hx(B(f, f, bb, l, c))]
    for x, what in ((li, "a lite field"), (ln, "a lite field without templates"), (mo, "a mask-only field"), (ot, "other pixels"), (wd, "another width"), (ht, "another height")):
        no("bias with " + what, B, f, x, bb, l, c)
        no("bias with " + what + " first", B, x, f, bb, l, c)
        no("estimate with " + what, M, f, x, bb)
        no("estimate with " + what + " first", M, x, f, bb)
        no("estimate with a workspace and " + what, M, f, x, bb, workspace=w)
        no("estimate with a workspace and " + what + " first", M, x, f, bb, workspace=w)
    no("bias with too few spectra", B, f, g, bb, l, c)
    no("bias with too many spectra", B, f, f, bb, l, c2)
    no("bias with spectra of other length", B, f, f, bb, l, c[:, 1:])
    no("estimate with too few noise spectra", M, f, g, bb, cl_noise=np.ones((1, 2)))
    no("estimate with noise in other bands", M, f, g, bb, cl_noise=np.ones((2, 3)))
    no("estimate with too few guess spectra", M, f, g, bb, cl_guess=c, ells_guess=l)
    no("estimate with guess spectra of other length", M, f, g, bb, cl_guess=c2, ells_guess=l[1:])
    no("estimate with guess spectra without multipoles", M, f, g, bb, cl_guess=c2)
    no("estimate in other bands than the workspace's", M, f, f, b3, workspace=w)
    no("estimate with a workspace of fewer components", M, f, g, bb, workspace=w)
    no("estimate with a workspace of fewer components (2)", M, g, g, bb, workspace=w2)
    no("estimate with a workspace of more components", M, f, f, bb, workspace=w2)
    no("estimate with a joint workspace", M, f, g, bb, workspace=w7)
    for x, y in zip([M(f, f, bb, cl_guess=c, ells_guess=l, workspace=w), M(f, g, bb, workspace=w2), B(f, f, bb, l, c)], keep):
        ev.append(dict(op="Same", name="unchanged_by_refusals", obs=hx(x), exp=y, tol="1e-9"))
    return dict(ev=ev)


def guess(rng, p, n):
    ells = np.sort(rng.uniform(0, 1.3 * p.lmax(), int(rng.integers(2, 9)))) if rng.random() < .5 else np.linspace(0, 1.2 * p.lmax(), 12)
    return ells, (rng.standard_normal((n, len(ells))) + (2 if rng.random() < .5 else 0)) * unit(rng, p=.3)


def run(c):
    import pymaster as nmt
    rng = np.random.default_rng([432] + c["seed"])
    if c["kind"] == "refused":
        return refused(rng)
    p = gpatch(rng, 3, 7)
    while p.nx * p.ny < 15 or c.get("ens") and not (p.nx % 2 and p.ny % 2):
        p = gpatch(rng, 3, 7)
    a, b = tuple(c["a"]), tuple(c["b"])
    same = int(a == b and rng.random() < .5)
    f1, d1, e1, s1 = field(rng, p, a, beam=c["kind"] == "full")
    f2, d2, e2, s2 = (f1, d1, e1, s1) if same else field(rng, p, b, "one" if s1 == "none" and c["kind"] == "bias" else None, beam=c["kind"] == "full")
    n = (2 if a[0] else 1) * (2 if b[0] else 1)
    kx, ky, k = wavenumbers(p)

    def bands(nb=None):
        for _ in range(300):
            bb, l0, lf = gbands(rng, p, nb=nb or int(rng.integers(1, 4)), need=2)
            cut = cuts(rng, p) if rng.random() < .6 else []
            kept = np.ones(k.shape, bool)
            if cut:
                kept &= ~((kx >= cut[0][0]) & (kx <= cut[0][1]))[None, :] & ~((ky >= cut[1][0]) & (ky <= cut[1][1]))[:, None]
            if all((kept & (k >= x) & (k < y)).sum() for x, y in zip(l0, lf)):
                return bb, l0, lf, cut
        return bb, l0, lf, []
    bb, l0, lf, cut = bands()
    kw = dict(ell_cut_x=cut[0], ell_cut_y=cut[1]) if cut else {}
    ells, cl = guess(rng, p, n)
    geo = dict(nx=p.nx, ny=p.ny, lx=hx(p.lx), ly=hx(p.ly), tol="1e-8")
    B = dict(l0=hx(l0), lf=hx(lf))
    g = dict(ells=hx(ells), cl=hx(cl))
    if c["kind"] == "bias":
        ev = []
        keep = ells.copy(), cl.copy()
        for i in range(2):
            x = cl if i == 0 or rng.random() < .5 else [list(v) for v in cl]
            out = must("deprojection_bias_flat", nmt.deprojection_bias_flat, f1, f2, bb, ells, x, **kw)
            e = dict(op="Bias", f1=d1, same=same, b=B, cut=hx(cut), guess=g, ensemble=int(c["ens"]), bias=hx(out), **geo)
            if not same:
                e["f2"] = d2
            ev.append(e)
            bb, l0, lf, cut = bands()
            kw = dict(ell_cut_x=cut[0], ell_cut_y=cut[1]) if cut else {}
            B = dict(l0=hx(l0), lf=hx(lf))
            if c["ens"]:
                break
        ev.append(dict(op="Flag", name="inputs_unchanged", obs=[hx(ells), hx(cl)], exp=[hx(v) for v in keep]))
        return dict(ev=ev)
    noise = rng.standard_normal((n, len(l0))) * .1 if rng.random() < .5 else []
    wcut, w1, w2, wsame, WB = cut, e1, e2, same, B
    if rng.random() < .6:
        w = must("NmtWorkspaceFlat", nmt.NmtWorkspaceFlat)
        wk, wb = dict(kw), bb
        g1, g2 = f1, f2
        if rng.random() < .5:                          # a workspace computed for other masks, cuts and bands
            g1, _, w1, _ = field(rng, p, a, beam=True)
            g2, w2, wsame = (g1, w1, 1) if same else field(rng, p, b, beam=True)[:3:2] + (0,)
            wb, m0, mf, wcut = bands(len(l0))
            if len(m0) != len(l0):
                wb, m0, mf, wcut = bb, l0, lf, cut
            WB = dict(l0=hx(m0), lf=hx(mf))
            wk = dict(ell_cut_x=wcut[0], ell_cut_y=wcut[1]) if wcut else {}
        must("compute_coupling_matrix", w.compute_coupling_matrix, g1, g2, wb, **wk)
        try:
            w.decouple_cell(np.zeros((n, len(l0))))
        except RuntimeError:                           # singular
            return dict(ev=[])
        kw["workspace"] = w
    if len(noise):
        kw["cl_noise"] = noise
    if rng.random() < .6:
        kw["cl_guess"], kw["ells_guess"], G = cl, ells, [g]
    else:
        G = []
    keep = [np.array(x) for x in (noise, cl, ells)]
    out, err = attempt("compute_full_master_flat", nmt.compute_full_master_flat, f1, f2, bb, **kw)
    if "singular" in err:
        return dict(ev=[])
    if err:
        out = must("compute_full_master_flat", nmt.compute_full_master_flat, f1, f2, bb, **kw)
    e = dict(op="Full", f1=d1, same=same, b=B, cut=hx(cut), noise=hx(noise), guess=G, w1=w1, wsame=wsame, wcut=hx(wcut), wb=WB, out=hx(out), **geo)
    if not same:
        e["f2"] = d2
    if not wsame:
        e["w2"] = w2
    ev = [e, dict(op="Flag", name="inputs_unchanged", obs=[hx(noise), hx(cl), hx(ells)], exp=[hx(v) for v in keep])]
    if "workspace" in kw:
        x = rng.standard_normal((n, len(l0)))
        F = must("NmtWorkspaceFlat", nmt.NmtWorkspaceFlat)
        must("compute_coupling_matrix", F.compute_coupling_matrix, g1, g2, wb, **wk)
        ev.append(dict(op="Same", name="workspace_unchanged", obs=hx(kw["workspace"].decouple_cell(x)), exp=hx(F.decouple_cell(x)), tol="1e-9"))
    return dict(ev=ev)
