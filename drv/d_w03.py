"""W03: objects of every kind written to and read from files."""
import os
import numpy as np
from fldlib import *
from flatlib import patch
from wsplib import scheme
import binlib
from rec import Escaped


def gen(tier, seed):
    rng = np.random.default_rng([320, seed])
    th = tier == "thorough"
    hs = {"curved": [], "plain": []}
    for b in binlib.behaviours():
        hs[b["kind"]].append(b["h"])
    # a history is worth replaying if it reads something that was written
    good = {k: [h for h in v if h[-1]["op"] in ("Load", "Write", "Update") and any(x["op"] == "Write" for x in h)] for k, v in hs.items()}
    cs = []
    objs = [("curved", i) for i in range(len(Curved.CONF))] + [("flat", i) for i in range(len(Flat.CONF))] + [("covar", i) for i in range(3)] + [("covarflat", i) for i in range(2)]
    for j, (kind, conf) in enumerate(objs):
        pool = good["curved" if kind == "curved" else "plain"]
        for r in range(1 if not th else 6):
            few = kind == "curved" and Curved.CONF[conf][2].get("wide")
            take = [pool[i] for i in rng.permutation(len(pool))[:(4 if few else 16) if not th else 20 if few else 60]]
            cs.append(dict(tag="%s%d.%d" % (kind, conf, r), kind=kind, conf=conf, hs=take))
    for i, c in enumerate(cs):
        c["seed"] = [seed, i]
    return cs


def fix(rng, nmt, f):
    return must("NmtField", f)


class Curved:
    kind = "curved"
    #        s1 s2 options
    CONF = [(0, 0, {}), (0, 2, {}), (2, 2, {}), (2, 0, {}), (1, 2, {}), (0, 2, dict(teb=1)), (0, 1, dict(teb=1)), (2, 2, dict(pure=(0, 1))), (0, 2, dict(pure=(1, 1))), (2, 2, dict(aniso=1)),
            (0, 2, dict(aniso=1)), (0, 0, dict(toe=1)), (2, 2, dict(toe=1)), (0, 0, dict(cat=1)), (2, 2, dict(cat=1)), (3, 3, {}),
            (2, 2, dict(wide=1)), (0, 2, dict(wide=1, teb=1))]
    nexts = [3, 4, 3, 4]

    def __init__(self, rng, conf):
        import pymaster as nmt
        self.nmt = nmt
        s1, s2, o = self.CONF[conf]
        L = self.L = int(rng.integers(5, 8)) if not o.get("wide") else int(rng.integers(68, 75)) if not o.get("teb") else 40      # wide: more bandpowers than fit in a byte
        self.o = o
        ns = 4 if not o.get("wide") else 16 if o.get("teb") else 32
        self.n = 7 if o.get("teb") else (2 if s1 else 1) * (2 if s2 else 1)

        def fld(s):
            m = np.abs(smooth_mask(rng, ns, "smooth")) + .3
            k = dict(spin=s, lmax=L, lmax_mask=L + int(rng.integers(0, 3)) if not o else L + 2, n_iter_mask=0, beam=beam(rng, L))
            if o.get("pure") and s == 2:
                k.update(purify_e=bool(o["pure"][0]), purify_b=bool(o["pure"][1]))
                k["lmax_mask"] = L
            if o.get("pure"):
                k["lmax_mask"] = L
            if o.get("aniso") and s:
                k["mask_12"], k["mask_22"] = .2 * m, m * (1 + .2 * smooth_mask(rng, ns, "smooth"))
            elif o.get("aniso"):
                k["mask_12"] = None
                k.pop("mask_12")
            maps = rng.standard_normal((2 if s else 1, 12 * ns**2))
            return must("NmtField", nmt.NmtField, m, maps, n_iter=0, **k)
        self.pairs = []
        for i in range(2):
            if o.get("cat"):
                f = catalog(rng, s1, L, L + 1, n=20, beam=beam(rng, L))
                self.pairs.append((f, f))
            else:
                f1 = fld(s1)
                f2 = f1 if s1 == s2 and i else fld(s2)
                if not o:
                    while f2.ainfo_mask.lmax != f1.ainfo_mask.lmax:
                        f2 = fld(s2)
                self.pairs.append((f1, f2))
        self.norm = ["MASTER", "MASTER" if o.get("aniso") else "FKP"]
        self.q = [scheme(rng, L, lo=max(s1, s2)) for _ in range(4)]
        if o.get("wide"):
            self.q = [dict(how="arrays", ells=list(range(2, L + 1)), bpws=list(range(L - 1)), ws=[1.] * (L - 1), fs=[float(x) for x in rng.uniform(.5, 2, L - 1)], lmax=L, pre="f") for _ in range(4)]
            self.r = rng.normal(size=(self.n * (L + 1), 2)), rng.normal(size=self.n * (L + 1))
        self.bins = [must("NmtBin", binlib.construct, q) for q in self.q]
        self.beams = [(beam(rng, L), beam(rng, L)) for _ in range(2)]
        self.cl = rng.normal(size=(self.n, L + 1))
        self.noise = rng.normal(size=(self.n, L + 1))
        self.s = (s1, s2)
        if self.n != 7 and not o:
            self.cw = must("NmtCovarianceWorkspace", nmt.NmtCovarianceWorkspace.from_fields, *self.pairs[0])
            nm = (2 if s1 else 1, 2 if s2 else 1)
            self.g = [rng.normal(size=(a * b, L + 1)) for a, b in ((nm[0], nm[0]), (nm[0], nm[1]), (nm[1], nm[0]), (nm[1], nm[1]))]

    def cov(self, w, coupled):
        s1, s2 = self.s
        return self.nmt.gaussian_covariance(self.cw, s1, s2, s1, s2, *self.g, w, coupled=coupled)

    def questions(self):
        if self.o.get("wide"):           # large answers in projection
            return [("matrix", 1, lambda w: w.get_coupling_matrix() @ self.r[0]), ("couple", 1, lambda w: w.couple_cell(self.cl)), ("windows", 1, lambda w: np.einsum("abcd,cd", w.get_bandpower_windows(), self.r[1].reshape((self.n, -1)))),
                    ("decouple", 0, lambda w: w.decouple_cell(self.cl)), ("decouple_noise", 0, lambda w: w.decouple_cell(self.cl, cl_noise=self.noise))]
        q = [("matrix", 1, lambda w: w.get_coupling_matrix()), ("couple", 1, lambda w: w.couple_cell(self.cl)), ("windows", 1, lambda w: w.get_bandpower_windows()),
             ("decouple", 0, lambda w: w.decouple_cell(self.cl)), ("decouple_noise", 0, lambda w: w.decouple_cell(self.cl, cl_noise=self.noise))]
        if hasattr(self, "cw"):
            q += [("covariance", 0, lambda w: self.cov(w, False)), ("covariance_coupled", 1, lambda w: self.cov(w, True))]
        if self.n != 7 and not self.o.get("cat"):
            q += [("full_master", 0, lambda w: self.nmt.compute_full_master(*self.pairs[0], workspace=w))]
        return q

    def make(self, i, part=0):
        b = (i - 1) % 2
        k = dict(l_toeplitz=self.L - 1, l_exact=3, dl_band=2) if self.o.get("toe") else {}
        w = self.nmt.NmtWorkspace.from_fields(*self.pairs[b], self.bins[b], is_teb=bool(self.o.get("teb")), normalization=self.norm[b], **k)
        return w

    def fresh(self, i):
        b = (i - 1) % 2
        if i <= 2:
            return self.make(i)
        w = self.make(b + 1)
        self.update(w, b + 1)
        return w

    def update(self, w, i):
        b = (i - 1) % 2
        w.update_beams(*self.beams[b])
        w.update_bins(self.bins[2 + b])

    def blank(self):
        return self.nmt.NmtWorkspace()

    def write(self, w, p):
        w.write_to(p)

    def load(self, w, p, want, new):
        if new:
            return self.nmt.NmtWorkspace.from_file(p, read_unbinned_MCM=bool(want))
        w.read_from(p, read_unbinned_MCM=bool(want))
        return w


class Plain:
    nexts = [0, 0]
    partial = False

    def fresh(self, i):
        return self.make(i)

    def write(self, w, p):
        w.write_to(p)

    def load(self, w, p, want, new):
        w = self.blank() if new else w
        w.read_from(p)
        return w


class Flat(Plain):
    CONF = [(0, 0, {}), (0, 2, {}), (2, 2, {}), (2, 0, {}), (0, 2, dict(teb=1)), (2, 2, dict(pure=1)), (1, 1, {}), (2, 2, dict(cut=1))]

    def __init__(self, rng, conf):
        import pymaster as nmt
        self.nmt = nmt
        s1, s2, o = self.CONF[conf]
        p = self.p = patch(rng)
        self.o = o
        pk = dict(purify_b=True) if o.get("pure") else {}
        mk = lambda s: p.field(rng, s, mask=p.mask(rng, "apodised") if pk else None, beam=p.beam(rng) if rng.random() < .7 else None, **pk)
        self.f = [(mk(s1), mk(s2)) for _ in range(2)]
        self.b = [p.bins(rng) for _ in range(2)]
        self.n = 7 if o.get("teb") else (2 if s1 else 1) * (2 if s2 else 1)
        self.cut = [dict(ell_cut_x=[-1.2 * 2 * np.pi / p.lx, 1.2 * 2 * np.pi / p.lx]) if o.get("cut") else {} for _ in range(2)]
        self.ells = np.linspace(0, p.lmax() * 1.2, 20)
        self.cl = rng.normal(size=(self.n, 20))
        self.pcl = [rng.normal(size=(self.n, len(b[1]))) for b in self.b]
        self.noise = [rng.normal(size=(self.n, len(b[1]))) for b in self.b]

    def pick(self, w, x):
        return x[0 if w.wsp.bin.n_bands == len(self.b[0][1]) else 1]

    def questions(self):
        q = [("couple", 0, lambda w: w.couple_cell(self.ells, self.cl)), ("decouple", 0, lambda w: w.decouple_cell(self.pick(w, self.pcl))),
             ("decouple_noise", 0, lambda w: w.decouple_cell(self.pick(w, self.pcl), cl_noise=self.pick(w, self.noise)))]
        if self.n != 7:
            q += [("full_master", 0, lambda w: self.nmt.compute_full_master_flat(*self.f[0], self.pick(w, self.b)[0], workspace=w))]
        return q

    def make(self, i, part=0):
        w = self.nmt.NmtWorkspaceFlat()
        w.compute_coupling_matrix(*self.f[i - 1], self.b[i - 1][0], is_teb=bool(self.o.get("teb")), **self.cut[i - 1])
        return w

    def blank(self):
        return self.nmt.NmtWorkspaceFlat()


COMBOS = [(0, 0, 0, 0), (0, 2, 0, 2), (2, 2, 2, 2), (0, 0, 2, 2), (2, 0, 0, 2)]


class Covar(Plain):
    partial = True

    def __init__(self, rng, conf):
        import pymaster as nmt
        self.nmt = nmt
        L = self.L = int(rng.integers(4, 7))
        self.toe = conf == 1
        mk = lambda s: must("NmtField", nmt.NmtField, np.abs(smooth_mask(rng, 4, "smooth")) + .2, None, spin=s, lmax=L, lmax_mask=L + conf, n_iter_mask=0)
        self.f = [[mk(0) for _ in range(4)] for _ in range(2)]
        self.b = must("NmtBin", binlib.construct, scheme(rng, L, lo=2))
        f0, f2 = mk(0), mk(2)
        self.w = {(a, b): must("NmtWorkspace", nmt.NmtWorkspace.from_fields, f2 if a else f0, f2 if b else f0, self.b) for a in (0, 2) for b in (0, 2)}
        nm = lambda s: 2 if s else 1
        self.g = {c: [rng.normal(size=(nm(x) * nm(y), L + 1)) for x, y in ((c[0], c[2]), (c[0], c[3]), (c[1], c[2]), (c[1], c[3]))] for c in COMBOS}

    def questions(self):
        def f(c, cpl):
            return lambda w: self.nmt.gaussian_covariance(w, *c, *self.g[c], self.w[c[:2]], self.w[c[2:]], coupled=cpl)
        return [("covariance_%d%d%d%d%s" % (c + ("c" if cpl else "",)), int(any(c)), f(c, cpl)) for c in COMBOS for cpl in (False, True)]

    def make(self, i, part=0):
        k = dict(l_toeplitz=self.L - 1, l_exact=2, dl_band=2) if self.toe else {}
        return self.nmt.NmtCovarianceWorkspace.from_fields(*self.f[i - 1], spin0_only=bool(part), **k)

    def blank(self):
        return self.nmt.NmtCovarianceWorkspace()

    def load(self, w, p, want, new):
        if new:
            return self.nmt.NmtCovarianceWorkspace.from_file(p, force_spin0_only=not want)
        w.read_from(p, force_spin0_only=not want)
        return w


class CovarFlat(Plain):
    def __init__(self, rng, conf):
        import pymaster as nmt
        self.nmt = nmt
        p = patch(rng)
        mk = lambda s: p.field(rng, s)
        self.f = [[mk(0) for _ in range(4)] for _ in range(2)]
        self.b = p.bins(rng, gaps=False)[0]
        f0, f2 = mk(0), mk(2)
        self.w = {}
        for a in (0, 2):
            for b in (0, 2):
                self.w[a, b] = must("NmtWorkspaceFlat", nmt.NmtWorkspaceFlat)
                must("compute_coupling_matrix", self.w[a, b].compute_coupling_matrix, f2 if a else f0, f2 if b else f0, self.b)
        self.l = np.linspace(0, p.lmax(), 15)
        nm = lambda s: 2 if s else 1
        self.g = {c: [rng.normal(size=(nm(x) * nm(y), 15)) for x, y in ((c[0], c[2]), (c[0], c[3]), (c[1], c[2]), (c[1], c[3]))] for c in COMBOS}

    def questions(self):
        def f(c):
            return lambda w: self.nmt.gaussian_covariance_flat(w, *c, self.l, *self.g[c], self.w[c[:2]], self.w[c[2:]])
        return [("covariance_%d%d%d%d" % c, 0, f(c)) for c in COMBOS]

    def make(self, i, part=0):
        f = self.f[i - 1]
        w = self.nmt.NmtCovarianceWorkspaceFlat()
        w.compute_coupling_coefficients(f[0], f[1], self.b, flb1=f[2], flb2=f[3])
        return w

    def blank(self):
        return self.nmt.NmtCovarianceWorkspaceFlat()


KINDS = dict(curved=Curved, flat=Flat, covar=Covar, covarflat=CovarFlat)


def flat(x):
    return hx(np.asarray(x, float).flatten())


def run(c):
    rng = np.random.default_rng([321] + c["seed"])
    curved = c["kind"] == "curved"
    ids = 4 if curved else 2
    for t in range(9):
        try:
            K = KINDS[c["kind"]](rng, c["conf"])
            qs = K.questions()
            ans = [[flat(must(n, fn, w)) for n, _, fn in qs] for w in [must("make", K.fresh, i) for i in range(1, ids + 1)]]
            break
        except Escaped as e:
            # some ingredients have no solution; others are then drawn
            if "singular" not in e.what or t == 8:
                raise
    d = os.path.join(os.environ["NMT_SCRATCH"], "s%x" % rng.integers(1 << 60))
    os.makedirs(d)
    path = lambda f: os.path.join(d, "f%d.fits" % f)
    hdr = dict(no=2, nf=2, kind="curved" if curved else "plain", tol="1e-10" if curved and K.o.get("wide") else "1e-12", next=K.nexts, questions=[dict(name=n, full=f) for n, f, _ in qs], answers=ans)
    ev = []

    def ask(k, o, some=None):
        for j in (range(len(qs)) if some is None else rng.permutation(len(qs))[:some]):
            n, _, fn = qs[int(j)]
            a, err = attempt(n, fn, o)
            ev.append(dict(op="Ask", k=k, q=int(j) + 1, out=[] if a is None else flat(a), err=err))
    for h in c["hs"]:
        ev.append(dict(op="Reset"))
        o = [K.blank(), K.blank()]
        cur = [0, 0]
        filed = [0, 0]
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        for x in h:
            k = x["k"]
            if x["op"] == "Make":
                part = x["part"] if K is not None and getattr(K, "partial", False) else 0
                w, err = attempt("make", K.make, x["id"], part)
                o[k - 1] = w
                cur[k - 1] = x["id"]
                e = dict(op="Make", k=k, id=x["id"], part=part, err=err)
            elif x["op"] == "Write":
                p = path(x["f"])
                _, err = attempt("write_to", K.write, o[k - 1], p)
                if not err:
                    filed[x["f"] - 1] = cur[k - 1]
                e = dict(op="Write", k=k, f=x["f"], err=err)
            elif x["op"] == "Load":
                want = x["want"] if getattr(K, "partial", curved) else 1
                w, err = attempt("read_from", K.load, o[k - 1], path(x["f"]), want, rng.random() < .5)
                if not err:
                    o[k - 1] = w
                    cur[k - 1] = filed[x["f"] - 1]
                e = dict(op="Load", k=k, f=x["f"], want=want, err=err)
            else:
                _, err = attempt("update", K.update, o[k - 1], cur[k - 1] or 1)
                if not err:
                    cur[k - 1] = K.nexts[cur[k - 1] - 1]
                e = dict(op="Update", k=k, err=err)
            ev.append(e)
        k = h[-1]["k"]
        ask(k, o[k - 1])
        ask(3 - k, o[2 - k], 2)
        # what a file holds is only visible by reading it
        for f in (1, 2):
            if filed[f - 1]:
                w, err = attempt("read_from", K.load, o[2 - k], path(f), 1, False)
                ev.append(dict(op="Load", k=3 - k, f=f, want=1, err=err))
                ask(3 - k, o[2 - k], 3)
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    os.rmdir(d)
    return dict(ev=ev, **hdr)
