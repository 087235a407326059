"""V01: Gaussian covariances of curved-sky spectra: kernels of all pairings, all spins, binning, normalisation, files, refusals."""
import os
from fldlib import *
import binlib
from wsplib import scheme
from sphlib import Pixels

COMBOS = [(a, b, c, d) for a in (0, 2) for b in (0, 2) for c in (0, 2) for d in (0, 2)]


class Lab:
    def __init__(self, rng, px, lmax, lmask, niter, specs):
        """specs: list of (spin1, spin2, normalisation, smaller lmax?) of the workspaces wanted"""
        import pymaster as nmt
        self.nmt, self.rng, self.px, self.lmax, self.lmask, self.niter = nmt, rng, px, lmax, lmask, niter
        self.dir = os.path.join(os.environ["NMT_SCRATCH"], "v%x" % rng.integers(1 << 60))
        os.makedirs(self.dir)
        kinds = rng.choice(["smooth", "white", "cap", "smooth"], 4) if px.kind == "hpx" else [None] * 4
        self.masks = [np.abs(smooth_mask(rng, px.nside, k)) + (.2 if k != "cap" else 0) if k else rng.uniform(.2, 1.8, px.npix) for k in kinds]
        ru = np.random.default_rng([343, int(1e9 * self.masks[0][-1]) % 1000003])          # units are of no concern
        u = unit(ru, 30)
        self.masks, self.ucl = [m * u * unit(ru, 30, .2) for m in self.masks], unit(ru)
        ms = [0, 1, 2, 3] + [int(x) for x in rng.integers(0, 4, 2)]
        self.fields = [self.field(m, 0 if k < 4 else 2) for k, m in enumerate(ms)]
        self.hf = [dict(mask=m + 1) for m in ms]
        self.wsp, self.hw = [], []
        for s1, s2, norm, small in specs:
            L = lmax - 1 if small else lmax
            m1, m2 = int(rng.integers(0, 4)), int(rng.integers(0, 4))
            b1, b2 = beam(rng, L), beam(rng, L)
            f1 = self.field(m1, s1, L, b1)
            f2 = f1 if s1 == s2 and rng.random() < .3 else self.field(m2, s2, L, b2)
            if f2 is f1:
                m2, b2 = m1, b1
            sc = scheme(rng, L, lo=max(s1, s2))
            w = must("NmtWorkspace.from_fields", nmt.NmtWorkspace.from_fields, f1, f2, must("NmtBin", binlib.construct, sc), normalization=norm)
            self.wsp.append(w)
            self.hw.append(dict(n=(2 if s1 else 1) * (2 if s2 else 1), lmax=L, mat=hx(matrix(w)), b1=hx(b1), b2=hx(b2), bins=len(self.hw) + 1, norm=norm, m1=m1 + 1, m2=m2 + 1, sc=sc))
        self.cw = [must("NmtCovarianceWorkspace", nmt.NmtCovarianceWorkspace) for _ in range(2)]

    def field(self, m, spin, lmax=None, b=None, **kw):
        return must("NmtField", self.nmt.NmtField, self.px.store(self.masks[m]), None, spin=spin, lmax=lmax or self.lmax, lmax_mask=self.lmask, n_iter=0, n_iter_mask=self.niter, wcs=self.px.wcs, beam=b, **kw)

    def header(self):
        return dict(nw=2, nf=1, lmax=self.lmax, lmask=self.lmask, niter=self.niter, grid=self.px.grid(), masks=hx(np.array(self.masks)), fields=self.hf,
                    wsp=[{k: v for k, v in h.items() if k != "sc"} for h in self.hw], schemes=[binlib.event("x", h["sc"], "") for h in self.hw])

    def kernels(self, w, f, s0=0, t=(-1, -1, -1), new=False, nones=0):
        """nones: leave the second pair to its defaults"""
        F = [self.fields[k] for k in f]
        kw = dict(spin0_only=bool(s0)) if s0 or self.rng.random() < .5 else {}
        if t[0] > 0:
            kw.update(l_toeplitz=t[0], l_exact=t[1], dl_band=t[2])
        if nones == 0:
            kw.update(flb1=F[2], flb2=F[3])
        elif nones == 1:
            kw.update(flb1=F[2])
            f = (f[0], f[1], f[2], f[1])
        elif nones == 2:
            kw.update(flb2=F[3])
            f = (f[0], f[1], f[0], f[3])
        else:
            f = (f[0], f[1], f[0], f[1])
        if new:
            x, err = attempt("from_fields", self.nmt.NmtCovarianceWorkspace.from_fields, F[0], F[1], **kw)
            if x is not None:
                self.cw[w - 1] = x
        else:
            _, err = attempt("compute_coupling_coefficients", self.cw[w - 1].compute_coupling_coefficients, F[0], F[1], **kw)
        return dict(op="Kernels", w=w, f=[k + 1 for k in f], s0=s0, t=list(t), valid=1, err=err, why="fields %s, Toeplitz %s" % (f, t))

    def save(self, w, f, place=1):
        p = os.path.join(self.dir, "c%d.fits" % f) if place else os.path.join(self.dir, "none", "c.fits")
        _, err = attempt("write_to", self.cw[w - 1].write_to, p)
        return dict(op="Save", w=w, f=f, place=place, err=err, why="path %s" % p)

    def fetch(self, w, f, s0=0, new=False):
        p = os.path.join(self.dir, "c%d.fits" % f if f else "nothing.fits")
        kw = dict(force_spin0_only=True) if s0 else {}
        if new:
            x, err = attempt("from_file", self.nmt.NmtCovarianceWorkspace.from_file, p, **kw)
            if x is not None:
                self.cw[w - 1] = x
        else:
            _, err = attempt("read_from", self.cw[w - 1].read_from, p, **kw)
        return dict(op="Fetch", w=w, f=f, s0=s0, err=err, why="file %d" % f)

    def guess(self, sp, extra=0):
        n = [2 if s else 1 for s in sp]
        L = self.lmax + 1 + extra
        mk = lambda k: self.rng.standard_normal((k, L)) * np.exp(-.2 * np.arange(L)) * self.ucl
        return dict(ac=mk(n[0] * n[2]), ad=mk(n[0] * n[3]), bc=mk(n[1] * n[2]), bd=mk(n[1] * n[3]))

    def ask(self, w, sp, a, b, coupled, g=None, why="", wb=True):
        g = self.guess(sp, int(self.rng.integers(0, 3))) if g is None else g
        H = lambda: {k: hx(v) for k, v in g.items()}
        before = H()
        args = (self.cw[w - 1], *sp, g["ac"], g["ad"], g["bc"], g["bd"], self.wsp[a]) + ((self.wsp[b],) if wb else ())
        kw = dict(coupled=True) if coupled else {}
        o, err = attempt("gaussian_covariance", self.nmt.gaussian_covariance, *args, **kw)
        return dict(op="Coupled" if coupled else "Cov", w=w, sp=list(sp), a=a + 1, b=b + 1 if wb else a + 1, cl=before, after=H(), shape={k: list(v.shape) for k, v in g.items()},
                    out=[] if o is None else hx(o), oshape=[] if o is None else list(o.shape), err=err, why=why or "spins %s" % (sp,))

    def close(self):
        for f in os.listdir(self.dir):
            os.remove(os.path.join(self.dir, f))
        os.rmdir(self.dir)


def gen(tier, seed):
    rng = np.random.default_rng([341, seed])
    cs = []
    for r in range(1 if tier == "quick" else 6):
        for i, sp in enumerate(COMBOS):
            cs.append(dict(tag="%d%d%d%d.%d" % (*sp, r), kind="combo", sp=sp, seed=[seed, len(cs)], pix=int(rng.integers(0, 3)) if tier == 'thorough' else 1 if i == 6 else 2 * int(rng.integers(0, 2)), deep=tier == "thorough"))
        cs.append(dict(tag="history.%d" % r, kind="history", seed=[seed, len(cs)], pix=0))
        cs.append(dict(tag="refused.%d" % r, kind="refused", seed=[seed, len(cs)], pix=0))
    return cs


def lab(rng, c, specs):
    lmax = int(rng.integers(4, 6))
    lmask = lmax + int(rng.integers(-1, 3))
    if c["pix"] == 0:
        px = Pixels("hpx", nside=2)
    elif c["pix"] == 1:
        px = Pixels("hpx", nside=4)
    else:
        px = Pixels("car", N=int(rng.integers(lmax, lmax + 3)), M=2 * int(rng.integers(lmax, lmax + 3)), up=int(rng.integers(0, 2)), left=int(rng.integers(0, 2)), lon=90)
    lmask = min(lmask, px.dlmax)
    return Lab(rng, px, lmax, lmask, int(rng.integers(0, 3 if c.get('deep') else 2)), specs)


def run(c):
    rng = np.random.default_rng([342] + c["seed"])
    R = lambda *a: int(rng.integers(*a))
    if c["kind"] == "combo":
        sp = tuple(c["sp"])
        L = lab(rng, c, [(sp[0], sp[1], "MASTER", R(0, 4) == 0), (sp[2], sp[3], "MASTER" if R(0, 3) else "FKP", R(0, 4) == 0)])
        try:
            fs = lambda: [R(0, 6) for _ in range(4)]
            toep = (L.lmax - 1, 2, R(0, 2))
            ev = [L.kernels(1, [0, 1, 2, 3], new=True), L.ask(1, sp, 0, 1, True), L.ask(1, sp, 0, 1, False)]
            if sp[:2] == sp[2:]:
                ev += [L.kernels(1, [0, 1, 0, 1], nones=3), L.ask(1, sp, 0, 0, True, wb=False), L.ask(1, sp, 0, 0, False, wb=False)]
            ev += [L.kernels(2, fs(), t=toep, nones=R(0, 3)), L.ask(2, sp, 0, 1, True), L.ask(2, sp, 0, 1, False)]
            if not any(sp):
                ev += [L.kernels(2, fs(), s0=1, nones=R(0, 4)), L.ask(2, sp, 0, 1, True), L.ask(2, sp, 0, 1, False)]
        finally:
            L.close()
    elif c["kind"] == "history":
        L = lab(rng, c, [(0, 0, "MASTER", False), (0, 2, "FKP", False), (2, 2, "MASTER", True), (2, 0, "MASTER", False)])
        try:
            Q = lambda w, cp: [L.ask(w, (0, 0, 0, 0), 0, 0, cp), L.ask(w, (0, 2, 0, 0), 1, 0, cp), L.ask(w, (2, 2, 2, 2), 2, 2, cp)]
            ev = Q(1, True) + [L.save(1, 1), L.fetch(1, 1), L.kernels(1, [0, 1, 2, 3])] + Q(1, False) + [L.save(1, 1, 0), L.save(1, 1), L.kernels(1, [3, 3, 1, 0], s0=1)] + Q(1, True)
            ev += [L.fetch(2, 1)] + Q(2, True) + [L.fetch(2, 1, 1)] + Q(2, False) + [L.fetch(2, 0)] + Q(2, True) + [L.save(1, 1), L.fetch(2, 1, new=True)] + Q(2, False)
            ev += [L.kernels(2, [2, 2, 2, 2], nones=3), L.fetch(1, 0, new=True)] + Q(1, False) + Q(2, True) + [L.kernels(2, [0, 1, 2, 3], t=(L.lmax, 2, 1)), L.kernels(2, [1, 0, 2, 3], t=(2, 3, 1))] + Q(2, False)
        finally:
            L.close()
    else:
        ev = []
        L = lab(rng, c, [(0, 0, "MASTER", False), (0, 2, "MASTER", False), (2, 2, "MASTER", True), (2, 0, "MASTER", False)])
        nmt = L.nmt
        try:
            ev += [L.kernels(1, [0, 1, 2, 3]), L.ask(1, (0, 2, 2, 2), 1, 2, True)]

            def no(what, fn):
                _, err = attempt(what, fn)
                ev.append(dict(op="Refuse", err=err, why=what))

            def fld(**k):
                kw = dict(lmax=L.lmax, lmax_mask=L.lmask, n_iter=0, n_iter_mask=L.niter)
                m = k.pop("mask", L.masks[0])
                return must("NmtField", nmt.NmtField, m, k.pop("maps", None), spin=k.pop("spin", 0), **{**kw, **k})
            A, B = L.fields[:2]
            K = L.cw[0].compute_coupling_coefficients
            npx = len(L.masks[0])
            for q in range(4):
                def at(x, q=q):
                    return lambda: K(*[x if k == q else A for k in range(2)], flb1=x if q == 2 else B, flb2=x if q == 3 else B)
                no("field %d of another resolution" % q, at(fld(mask=np.ones(12 * (L.px.nside * 2)**2))))
                no("field %d of another lmax" % q, at(fld(lmax=L.lmax - 1)))
                no("field %d of another lmax_mask" % q, at(fld(lmax_mask=L.lmask - 1)))
                no("anisotropic field %d" % q, at(fld(spin=2, mask_22=L.masks[0] * 2, mask_12=L.masks[0] * 0)))
                if q == 0:
                    no("catalog", at(catalog(rng, 0, L.lmax, L.lmask)))
            for t in ((2, 3, 1), (L.lmax, 2, 1), (3, 0, 1), (3, -1, 1), (3, 2, -1), (3, 2, L.lmax), (3, 2, -5)):
                no("Toeplitz parameters %s" % (t,), lambda: K(A, B, l_toeplitz=t[0], l_exact=t[1], dl_band=t[2]))
            # the kernels are what they were
            ev += [L.ask(1, (0, 2, 2, 2), 1, 2, True), L.ask(1, (0, 2, 2, 2), 1, 2, False)]
            for cp in (True, False):
                for sp, a, b in (((0, 0, 0, 2), 0, 0), ((0, 2, 0, 0), 0, 0), ((2, 2, 2, 2), 1, 2), ((0, 0, 2, 2), 0, 1), ((2, 2, 0, 0), 3, 0)):
                    ev.append(L.ask(1, sp, a, b, cp, why="spins %s with workspaces of others" % (sp,)))
                sp = (0, 2, 2, 2)
                for k in ("ac", "ad", "bc", "bd"):
                    g = L.guess(sp)
                    g[k] = g[k][:, :-1]
                    ev.append(L.ask(1, sp, 1, 2, cp, g, why="%s too short" % k))
                    g = L.guess(sp)
                    g[k] = g[k][:-1]
                    ev.append(L.ask(1, sp, 1, 2, cp, g, why="too few spectra in %s" % k))
                    g = L.guess(sp)
                    g[k] = np.concatenate([g[k], g[k][:1]])
                    ev.append(L.ask(1, sp, 1, 2, cp, g, why="too many spectra in %s" % k))
                g = {k: v[:, :-1] for k, v in L.guess(sp).items()}
                ev.append(L.ask(1, sp, 1, 2, cp, g, why="all spectra too short"))
            # coefficients up to a smaller lmax than the workspaces'
            lo = [fld(lmax=L.lmax - 1, mask=m) for m in L.masks]
            cw = must("from_fields", nmt.NmtCovarianceWorkspace.from_fields, *lo)
            for a, b, sp in ((0, 0, (0, 0, 0, 0)), (2, 0, (2, 2, 0, 0)), (0, 2, (0, 0, 2, 2))):
                g = L.guess(sp)
                for cp in (True, False):
                    no("coefficients up to a smaller lmax", lambda: nmt.gaussian_covariance(cw, *sp, g["ac"], g["ad"], g["bc"], g["bd"], L.wsp[a], L.wsp[b], coupled=cp))
            ev += [L.ask(1, (0, 2, 2, 2), 1, 2, True), L.ask(1, (0, 2, 2, 2), 1, 2, False)]
            teb = must("from_fields", nmt.NmtWorkspace.from_fields, fld(), fld(spin=2), linbins(L.lmax), is_teb=True)
            g = L.guess((0, 2, 0, 2))
            no("joint T-E-B workspace", lambda: nmt.gaussian_covariance(L.cw[0], 0, 2, 0, 2, g["ac"], g["ad"], g["bc"], g["bd"], teb, teb))
            g = L.guess((0, 0, 0, 0))
            no("empty covariance workspace", lambda: nmt.gaussian_covariance(L.cw[1], 0, 0, 0, 0, g["ac"], g["ad"], g["bc"], g["bd"], L.wsp[0]))
            no("empty workspace", lambda: nmt.gaussian_covariance(L.cw[0], 0, 0, 0, 0, g["ac"], g["ad"], g["bc"], g["bd"], nmt.NmtWorkspace()))
            ev += [L.ask(1, (0, 0, 2, 0), 0, 3, True), L.ask(1, (0, 0, 2, 0), 0, 3, False)]
        finally:
            L.close()
    return dict(ev=ev, **L.header())
