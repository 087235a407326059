"""W05: the one-call estimator with new and supplied workspaces, biases, noise, options; what it leaves alone."""
from wsplib import *
from sphlib import Pixels


class Full(Lab):
    """fields with maps, templates and purification; one workspace pair per option"""

    def __init__(self, rng, kind):
        import pymaster as nmt
        self.nmt, self.rng, self.kind = nmt, rng, kind
        (s1, q1), (s2, q2), same = kind
        self.lmax = L = int(rng.integers(max(s1, s2, 2) + 1, 6))
        self.teb = False
        self.n = (2 if s1 else 1) * (2 if s2 else 1)
        self.dir = os.path.join(os.environ["NMT_SCRATCH"], "w%x" % rng.integers(1 << 60))
        os.makedirs(self.dir)
        self.pairs, self.hdr, self.opts = [], [], []
        px = Pixels("hpx", nside=4) if rng.random() < .6 else Pixels("car", N=9, M=20, up=1)
        lk = L + int(rng.integers(0, 3))
        self.anyt = 0

        def fld(s, q):
            nm = 2 if s else 1
            b = beam(rng, L + int(rng.integers(0, 3))) if rng.random() < .7 else None
            m = smooth_mask(rng, 4, "smooth") if px.kind == "hpx" else rng.uniform(.5, 1.5, px.npix)
            nt = int(rng.integers(0, 3))
            self.anyt += nt
            kw = dict(templates=[px.store(rng.standard_normal((nm, px.npix))) for _ in range(nt)]) if nt else {}
            return must("NmtField", nmt.NmtField, px.store(np.abs(m) + .3), px.store(rng.standard_normal((nm, px.npix))), spin=s, lmax=L, lmax_mask=lk, n_iter=int(rng.integers(0, 2)), n_iter_mask=0,
                        beam=b, purify_e=bool(q[0]), purify_b=bool(q[1]), wcs=px.wcs, **kw)
        self.f = fld(s1, q1)
        self.g = self.f if same else fld(s2, q2)
        pure = sum(q1) + sum(q2) > 0
        opts = [dict(), dict(normalization="FKP")] + ([] if pure or L < 4 else [dict(l_toeplitz=3, l_exact=2, dl_band=1)])
        for o in opts:
            norm = o.get("normalization", "MASTER")
            self.opts.append(o)
            self.pairs.append((self.f, self.g, norm))
            w = must("from_fields", nmt.NmtWorkspace.from_fields, self.f, self.g, linbins(L), **{k: v for k, v in o.items() if k != "normalization"})
            self.hdr.append(dict(n=self.n, lmax=L, mat=hx(matrix(w)), b1=hx(self.f.beam), b2=hx(self.g.beam), w2="mean" if px.kind == "hpx" else "grid", grid=px.grid(), m1=hx(must("get_mask", self.f.get_mask)), m2=hx(must("get_mask", self.g.get_mask))))
        lo = max(s1, s2) if not pure else max(s1, s2, 2)
        self.schemes = [scheme(rng, L, lo=lo) for _ in range(3)] + [scheme(rng, L + 1, lo=lo)]
        self.bins = [must("NmtBin", binlib.construct, q) for q in self.schemes]
        nr = self.n * (L + 1)
        self.mats = [np.diag(rng.uniform(3, 6, nr)) + rng.normal(size=(nr, nr)) * .3 for _ in range(2)]
        self.beams = [(beam(rng, L + int(rng.integers(0, 3))), beam(rng, L)) for _ in range(3)]
        self.other = None
        self.reset()

    def state(self):
        return [x.copy() for f in (self.f, self.g) for x in (f.get_alms(), f.get_maps(), f.get_mask(), f.get_mask_alms(), np.asarray(f.beam))]

    def full(self, w, pair=1, b=1, guess=None, noise=None):
        nmt = self.nmt
        opt = self.opts[pair - 1]
        n, L = self.n, self.lmax
        gs = self.spectra() if guess else None
        ns = self.spectra() if noise else None
        pcl = must("compute_coupled_cell", nmt.compute_coupled_cell, self.f, self.g)
        bias = must("deprojection_bias", nmt.deprojection_bias, self.f, self.g, gs) if guess else None
        H = lambda x: [] if x is None else hx(x)
        keep = self.state() + [x.copy() for x in (gs, ns) if x is not None]
        kw = {}
        if guess or self.rng.random() < .2:
            kw["cl_guess"] = gs
        if noise or self.rng.random() < .2:
            kw["cl_noise"] = ns
        if w:
            kw["workspace"] = self.w[w - 1]
            if self.rng.random() < .5:
                kw["b"] = self.bins[int(self.rng.integers(0, 3))]                  # ignored
            if self.rng.random() < .3:
                kw.update(normalization="FKP" if self.rng.random() < .5 else "MASTER")   # of no effect
        else:
            kw["b"] = self.bins[b - 1]
            kw.update(opt)
        o, err = attempt("compute_full_master", nmt.compute_full_master, self.f, self.g, **kw)
        now = self.state() + [x for x in (gs, ns) if x is not None]
        kept = int(all(np.array_equal(x, y) for x, y in zip(keep, now)))
        return dict(op="Full", w=w, pair=pair, bins=b, norm=self.pairs[pair - 1][2], valid=1, pcl=hx(pcl), bias=H(bias), noise=H(ns), out=H(o), err=err, kept=kept, why="options %s" % (opt,))

    def bad(self):
        nmt, L, n = self.nmt, self.lmax, self.n
        ev = []

        def no(what, *a, **k):
            _, err = attempt(what, nmt.compute_full_master, *a, **k)
            ev.append(dict(op="Full", w=0, pair=1, bins=1, norm="MASTER", valid=0, pcl=[], bias=[], noise=[], out=[], err=err, kept=1, why=what))
        f, g, b = self.f, self.g, self.bins[0]
        o = self.bystander()
        no("neither bins nor workspace", f, g)
        no("bins with another lmax", f, g, self.bins[3])
        no("workspace not computed", f, g, workspace=nmt.NmtWorkspace())
        no("noise of the wrong length", f, g, b, cl_noise=np.ones((n, L + 2)))
        no("noise of the wrong number", f, g, b, cl_noise=np.ones((n + 1, L + 1)))
        no("guess of the wrong length", f, g, b, cl_guess=np.ones((n, L)))
        no("guess of the wrong number", f, g, b, cl_guess=np.ones((n + 1, L + 1)))
        no("unknown normalisation", f, g, b, normalization="master")
        no("inconsistent Toeplitz parameters", f, g, b, l_toeplitz=2, l_exact=3, dl_band=1)
        no("field without maps", f, o["lmax"], b)
        no("field of another resolution", f, must("NmtField", nmt.NmtField, np.ones(768), np.ones((1, 768)), n_iter=0, n_iter_mask=0, lmax=L, lmax_mask=f.ainfo_mask.lmax), b)
        return ev


SP = [(0, (0, 0)), (1, (0, 0)), (2, (0, 0)), (3, (0, 0)), (2, (0, 1)), (2, (1, 0)), (2, (1, 1))]


def gen(tier, seed):
    rng = np.random.default_rng([331, seed])
    cs = []
    for r in range(1 if tier == "quick" else 8):
        for i, a in enumerate(SP):
            for j, b in enumerate(SP):
                if tier == "thorough" or (i + j) % 3 == 0 or i == j:
                    cs.append(dict(tag="%d%d%d-%d%d%d.%d" % (a[0], *a[1], b[0], *b[1], r), kind="full", fields=[a, b, int(i == j and rng.random() < .5)], seed=[seed, len(cs)]))
    return cs


def run(c):
    rng = np.random.default_rng([332] + c["seed"])
    lab = Full(rng, [(c["fields"][0][0], tuple(c["fields"][0][1])), (c["fields"][1][0], tuple(c["fields"][1][1])), c["fields"][2]])
    np_ = len(lab.pairs)
    ev = []
    R = lambda: int(rng.integers(0, 2))
    try:
        for p in range(1, np_ + 1):
            ev.append(lab.full(0, p, int(rng.integers(1, 4)), R(), R()))
        ev.append(lab.full(0, 1, 1, 1, 1))
        p, b = int(rng.integers(1, np_ + 1)), int(rng.integers(1, 4))
        if lab.opts[p - 1].get("l_toeplitz"):
            p = 1
        ev += [lab.compute(1, p, b), lab.full(1, 1, 1, R(), R()), lab.get(1)]
        ev += [lab.set_beams(1, 1), lab.full(1, 1, 1, 1, R())]
        ev += [lab.set_bins(1, int(rng.integers(1, 4))), lab.full(1, 1, 1, R(), 1), lab.set_matrix(1, 1), lab.full(1, 1, 1, R(), R())]
        ev += [lab.write(1, 1), lab.load(2, 1, R()), lab.full(2, 1, 1, R(), R()), lab.compute(2, 2, 1), lab.full(2, 1, 1, R(), R()), lab.get(2), lab.full(0, 1, 2, 1, 0), lab.get(1)]
        ev += lab.bad()
    finally:
        lab.close()
    return dict(ev=ev, **lab.header())
