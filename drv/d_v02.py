"""V02: Gaussian covariances of flat-sky bandpowers: kernels of all pairings, all spins, beams, purified workspaces, files, refusals."""
import os
from flatlib import *

COMBOS = [(a, b, c, d) for a in (0, 2) for b in (0, 2) for c in (0, 2) for d in (0, 2)]


class Lab:
    def __init__(self, rng, specs, big=False, teb=False):
        """specs: (spin1, spin2, bands) of the workspaces wanted"""
        import pymaster as nmt
        self.nmt, self.rng = nmt, rng
        self.p = p = gpatch(rng, 5 if not big else 6, 8 if not big else 10)
        self.dir = os.path.join(os.environ["NMT_SCRATCH"], "v%x" % rng.integers(1 << 60))
        os.makedirs(self.dir)
        self.masks = [p.mask(rng, k) + .1 for k in rng.choice(["smooth", "white", "apodised", "smooth"], 4)]
        ru = np.random.default_rng([353, int(1e9 * p.lx) % 1000003])          # units are of no concern
        u = unit(ru, 30)
        self.masks, self.ucl = [m * u * unit(ru, 30, .2) for m in self.masks], unit(ru)
        k = wavenumbers(p)[2]

        def bands(ok):
            while True:
                b = gbands(rng, p, nb=int(rng.integers(1, 4)), need=4)
                if len(b[1]) and all(((k >= l) & (k < h)).sum() >= 4 for l, h in zip(*b[1:])) and ok(b):
                    return b
        first = bands(lambda b: True)
        n = len(first[1])
        self.bands = [first, bands(lambda b: len(b[1]) == n and not (np.array_equal(b[1], first[1]) and np.array_equal(b[2], first[2])))]    # as many, with other edges
        x = self.bands[0][2].copy()  # only the last edge differs
        x[-1] *= 1.05
        self.bands.append((must("NmtBinFlat", nmt.NmtBinFlat, self.bands[0][1], x), self.bands[0][1], x))
        self.bands.append(bands(lambda b: len(b[1]) != n))
        ms = [0, 1, 2, 3] + [int(x) for x in rng.integers(0, 4, 2)]
        self.fields = [p.field(rng, 0 if k < 4 else 2, self.masks[m], False) for k, m in enumerate(ms)]
        self.hf = [m + 1 for m in ms]
        self.wsp, self.hw = [], []
        for s1, s2, b in specs:
            m1, m2 = int(rng.integers(0, 4)), int(rng.integers(0, 4))
            b1, b2 = (p.beam(rng) if rng.random() < .4 else None for _ in range(2))
            q1 = [int(rng.random() < .25), int(rng.random() < .25)] if s1 else [0, 0]
            q2 = [int(rng.random() < .25), int(rng.random() < .25)] if s2 else [0, 0]
            f1 = p.field(rng, s1, self.masks[m1], False, beam=b1, purify_e=bool(q1[0]), purify_b=bool(q1[1]))
            f2 = p.field(rng, s2, self.masks[m2], False, beam=b2, purify_e=bool(q2[0]), purify_b=bool(q2[1]))
            if s1 == s2 and rng.random() < .3:
                f2, m2, b2, q2 = f1, m1, b1, q1
            w = must("NmtWorkspaceFlat", nmt.NmtWorkspaceFlat)
            must("compute_coupling_matrix", w.compute_coupling_matrix, f1, f2, self.bands[b][0])
            self.wsp.append(w)
            self.hw.append(dict(s1=s1, s2=s2, q1=q1, q2=q2, m1=m1 + 1, m2=m2 + 1, b1=[] if b1 is None else hx(b1), b2=[] if b2 is None else hx(b2), bands=b + 1, teb=0))
        self.cw = [must("NmtCovarianceWorkspaceFlat", nmt.NmtCovarianceWorkspaceFlat) for _ in range(2)]

    def header(self):
        p = self.p
        return dict(nw=2, nf=1, nx=p.nx, ny=p.ny, lx=hx(p.lx), ly=hx(p.ly), masks=[hx(m.ravel()) for m in self.masks], fields=self.hf,
                    bands=[dict(l0=hx(l0), lf=hx(lf)) for _, l0, lf in self.bands], wsp=self.hw)

    def kernels(self, w, f, b=0, nones=0):
        """nones: leave the second pair (and the second bands) to the defaults"""
        F = [self.fields[k] for k in f]
        kw = {}
        if nones in (0, 1):
            kw["flb1"] = F[2]
        if nones in (0, 2):
            kw["flb2"] = F[3]
        f = (f[0], f[1], f[2] if "flb1" in kw else f[0], f[3] if "flb2" in kw else f[1])
        t = self.rng.integers(0, 3)
        if t:
            kw["bin_b"] = self.bands[b][0] if t == 1 else must("NmtBinFlat", self.nmt.NmtBinFlat, *self.bands[b][1:])
        _, err = attempt("compute_coupling_coefficients", self.cw[w - 1].compute_coupling_coefficients, F[0], F[1], self.bands[b][0], **kw)
        return dict(op="Kernels", w=w, f=[k + 1 for k in f], b=b + 1, err=err, why="fields %s" % (f,))

    def save(self, w, f, place=1):
        p = os.path.join(self.dir, "c%d.fits" % f) if place else os.path.join(self.dir, "none", "c.fits")
        _, err = attempt("write_to", self.cw[w - 1].write_to, p)
        return dict(op="Save", w=w, f=f, place=place, err=err, why="path %s" % p)

    def fetch(self, w, f):
        p = os.path.join(self.dir, "c%d.fits" % f if f else "nothing.fits")
        _, err = attempt("read_from", self.cw[w - 1].read_from, p)
        return dict(op="Fetch", w=w, f=f, err=err, why="file %d" % f)

    def larr(self):
        k = self.p.lmax()
        n = int(self.rng.integers(4, 12))
        return np.sort(self.rng.uniform(0, k * 1.2, n)) if self.rng.random() < .5 else np.linspace(0, k * 1.2, n)

    def guess(self, sp, n):
        m = [2 if s else 1 for s in sp]
        mk = lambda k: self.rng.standard_normal((k, n)) * self.ucl
        return dict(ac=mk(m[0] * m[2]), ad=mk(m[0] * m[3]), bc=mk(m[1] * m[2]), bd=mk(m[1] * m[3]))

    def ask(self, w, sp, a, b, g=None, why="", wb=True, larr=None):
        larr = self.larr() if larr is None else larr
        g = self.guess(sp, len(larr)) if g is None else g
        H = lambda: {k: hx(v) for k, v in g.items()}
        before, hl = H(), hx(larr)
        args = (self.cw[w - 1], *sp, larr, g["ac"], g["ad"], g["bc"], g["bd"], self.wsp[a]) + ((self.wsp[b],) if wb else ())
        o, err = attempt("gaussian_covariance_flat", self.nmt.gaussian_covariance_flat, *args)
        assert hx(larr) == hl
        return dict(op="Cov", w=w, sp=list(sp), a=a + 1, b=b + 1 if wb else a + 1, larr=hl, cl=before, after=H(), shape={k: list(v.shape) for k, v in g.items()},
                    out=[] if o is None else hx(o), oshape=[] if o is None else list(o.shape), err=err, why=why or "spins %s" % (sp,))

    def close(self):
        for f in os.listdir(self.dir):
            os.remove(os.path.join(self.dir, f))
        os.rmdir(self.dir)


def gen(tier, seed):
    rng = np.random.default_rng([351, seed])
    cs = []
    for r in range(1 if tier == "quick" else 8):
        for sp in COMBOS:
            cs.append(dict(tag="%d%d%d%d.%d" % (*sp, r), kind="combo", sp=sp, big=r > 3))
        cs.append(dict(tag="history.%d" % r, kind="history"))
        cs.append(dict(tag="refused.%d" % r, kind="refused"))
    cs.append(dict(tag="uniform", kind="uniform"))
    for i, c in enumerate(cs):
        c["seed"] = [seed, i]
    return cs


def run(c):
    rng = np.random.default_rng([352] + c["seed"])
    R = lambda *a: int(rng.integers(*a))
    if c["kind"] == "uniform":       # more pairs of modes than a 32-bit integer counts
        import pymaster as nmt
        p = Patch(217, 216, .5, .6)
        k = np.sort(wavenumbers(p)[2].ravel())
        b = must("NmtBinFlat", nmt.NmtBinFlat, [k[1] * .5], [k[-1] * 1.01])
        f = p.field(rng, 0, np.ones((p.ny, p.nx)), False)
        w, cw = nmt.NmtWorkspaceFlat(), nmt.NmtCovarianceWorkspaceFlat()
        must("compute_coupling_matrix", w.compute_coupling_matrix, f, f, b)
        must("compute_coupling_coefficients", cw.compute_coupling_coefficients, f, f, b)
        g = rng.uniform(.5, 2, 4)
        o = must("gaussian_covariance_flat", nmt.gaussian_covariance_flat, cw, 0, 0, 0, 0, np.array([0., 1e5]), *[np.full((1, 2), x) for x in g], w)
        return dict(ev=[dict(op="Uniform", modes=p.nx * p.ny - 1, ac=hx(g[0]), ad=hx(g[1]), bc=hx(g[2]), bd=hx(g[3]), out=hx(o.ravel()))], nw=0, nf=0)
    if c["kind"] == "combo":
        sp = tuple(c["sp"])
        L = Lab(rng, [(sp[0], sp[1], 0), (sp[2], sp[3], 0)], c["big"])
        try:
            fs = lambda: [R(0, 6) for _ in range(4)]
            ev = [L.kernels(1, [0, 1, 2, 3]), L.ask(1, sp, 0, 1)]
            if sp[:2] == sp[2:]:
                ev += [L.kernels(1, [0, 1, 0, 1], nones=3), L.ask(1, sp, 0, 0, wb=False)]
            ev += [L.kernels(2, fs(), nones=R(0, 4)), L.ask(2, sp, 0, 1)]
        finally:
            L.close()
    elif c["kind"] == "history":
        L = Lab(rng, [(0, 0, 0), (0, 2, 0), (2, 2, 0), (2, 0, 0), (0, 0, 3), (2, 2, 3)], big=True)
        try:
            def Q(w):
                return [L.ask(w, (0, 0, 0, 0), 0, 0), L.ask(w, (0, 2, 0, 0), 1, 0), L.ask(w, (2, 2, 2, 2), 2, 2)]
            S = lambda w: [L.ask(w, (0, 0, 2, 2), 4, 5)]
            ev = Q(1) + [L.save(1, 1), L.fetch(1, 1), L.kernels(1, [0, 1, 2, 3])] + Q(1) + [L.save(1, 1, 0), L.save(1, 1), L.kernels(1, [3, 3, 1, 0], b=3)] + S(1) + Q(1)
            ev += [L.fetch(2, 1)] + Q(2) + S(2) + [L.fetch(2, 0)] + Q(2) + [L.save(1, 1), L.fetch(2, 1)] + S(2) + Q(2)
            ev += [L.kernels(2, [2, 2, 2, 2], nones=3), L.fetch(1, 0)] + S(1) + Q(2) + [L.fetch(2, 1), L.fetch(2, 1)] + S(2) + [L.kernels(1, [1, 0, 3, 2], nones=1)] + Q(1)
        finally:
            L.close()
    else:
        ev = []
        L = Lab(rng, [(0, 0, 0), (0, 2, 0), (2, 2, 0), (2, 0, 0), (0, 0, 1), (0, 0, 2), (0, 0, 3), (2, 0, 1)])
        nmt, p = L.nmt, L.p
        try:
            ev += [L.kernels(1, [0, 1, 2, 3]), L.ask(1, (0, 2, 2, 0), 1, 3)]

            def no(what, fn):
                _, err = attempt(what, fn)
                ev.append(dict(op="Refuse", err=err, why=what))
            A, B = L.fields[:2]
            K = L.cw[0].compute_coupling_coefficients
            bs = [b for b, _, _ in L.bands]
            for q in range(4):
                def at(x, q=q):
                    return lambda: K(*[x if k == q else A for k in range(2)], bs[0], flb1=x if q == 2 else B, flb2=x if q == 3 else B)
                for nm, o in (("nx", Patch(p.nx + 1, p.ny, p.lx, p.ly)), ("ny", Patch(p.nx, p.ny + 1, p.lx, p.ly)), ("width", Patch(p.nx, p.ny, p.lx * 1.1, p.ly)),
                              ("height", Patch(p.nx, p.ny, p.lx, p.ly * 1.1))):
                    no("field %d of other %s" % (q, nm), at(o.field(rng, 0, np.ones((o.ny, o.nx)), False)))
            for j, nm in ((1, "edges"), (2, "end"), (3, "number")):
                if j < 3 or len(L.bands[0][1]) > 1:
                    no("second bands of another %s" % nm, lambda: K(A, B, bs[0], bin_b=bs[j]))
                    no("first bands of another %s" % nm, lambda: K(A, B, bs[j], flb1=B, flb2=B, bin_b=bs[0]))
            # the kernels are what they were
            ev += [L.ask(1, (0, 2, 2, 0), 1, 3)]
            for sp, a, b in (((0, 0, 0, 2), 0, 0), ((0, 2, 0, 0), 0, 0), ((2, 2, 2, 2), 1, 2), ((0, 0, 2, 2), 0, 1), ((2, 2, 0, 0), 3, 0)):
                ev.append(L.ask(1, sp, a, b, why="spins %s with workspaces of others" % (sp,)))
            for a, b in ((4, 0), (0, 4), (5, 0), (0, 5), (6, 0), (0, 6), (4, 4), (5, 5), (6, 6)):
                ev.append(L.ask(1, (0, 0, 0, 0), a, b, why="bands of workspaces %d and %d" % (a, b)))
            ev.append(L.ask(1, (2, 0, 2, 0), 3, 7, why="bands of workspaces 3 and 7"))
            sp = (0, 2, 2, 0)
            x = L.larr()
            for k in ("ac", "ad", "bc", "bd"):
                for nm, ch in (("short", lambda v: v[:, :-1]), ("long", lambda v: np.concatenate([v, v[:, :1]], axis=1)), ("few", lambda v: v[:-1]), ("many", lambda v: np.concatenate([v, v[:1]]))):
                    g = L.guess(sp, len(x))
                    g[k] = ch(g[k])
                    if len(g[k]):
                        ev.append(L.ask(1, sp, 1, 3, g, larr=x, why="%s too %s" % (k, nm)))
            ev.append(L.ask(1, sp, 1, 3, L.guess(sp, len(x) - 1), larr=x, why="all spectra too short"))
            teb = nmt.NmtWorkspaceFlat()
            must("compute_coupling_matrix", teb.compute_coupling_matrix, p.field(rng, 0, L.masks[0], False), p.field(rng, 2, L.masks[0], False), bs[0], is_teb=True)
            call = nmt.gaussian_covariance_flat
            G = lambda sp: [x] + list(L.guess(sp, len(x)).values())
            no("joint T-E-B workspace", lambda: call(L.cw[0], 0, 2, 0, 2, *G((0, 2, 0, 2)), teb, teb))
            no("empty covariance workspace", lambda: call(L.cw[1], 0, 0, 0, 0, *G((0, 0, 0, 0)), L.wsp[0]))
            no("empty workspace", lambda: call(L.cw[0], 0, 0, 0, 0, *G((0, 0, 0, 0)), nmt.NmtWorkspaceFlat()))
            ev += [L.ask(1, (0, 0, 2, 0), 0, 3), L.kernels(2, [0, 1, 2, 3], b=1), L.ask(2, (0, 0, 0, 0), 4, 4), L.ask(2, (2, 0, 0, 0), 7, 4), L.ask(2, (2, 0, 0, 0), 3, 4, why="bands of workspace 3")]
        finally:
            L.close()
    return dict(ev=ev, **L.header())
