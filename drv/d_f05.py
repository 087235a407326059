"""F05: histories of constructions, changes to the caller's arrays and to the defaults, and requests: answers depend on the snapshots alone."""
import zlib
import numpy as np
from fldlib import *
from sphlib import *
from binlib import behaviours, chunks

LM, LK = 4, 5
KINDS = ["s0", "s0t", "s2", "s2p", "s2pt", "s2a", "s1t", "cat0", "cat2", "mo0", "clu"]
ONE = ["alms", "malms", "mask", "maps", "temps", "amask", "aalms", "noise"]
TWO = ["pcl", "matrix", "cov", "bias", "full"]
DEF = {1: (3, 3, 1e-10), 2: (1, 0, 1e-3)}


def gen(tier, seed):
    rng = np.random.default_rng([321, seed])
    th = tier == "thorough"
    hs = [b for b in behaviours() if b and b[-1]["op"] in ("One", "Two")]
    ix = rng.permutation(len(hs))[:(500 if not th else 6000)]
    cs = [dict(tag="replay:%d" % i, kind="replay", hs=c) for i, c in enumerate(chunks([hs[j] for j in ix], 25))]
    cs += [dict(tag="random:%d" % i, kind="random", n=50) for i in range(20 if not th else 200)]
    for i, c in enumerate(cs):
        c["seed"] = [seed, i]
    return cs


class World:
    def __init__(self, rng, nobj=2, nsrc=2):
        import pymaster as nmt
        self.nmt, self.rng, self.nobj, self.nsrc = nmt, rng, nobj, nsrc
        px = self.px = Pixels("hpx", nside=2) if rng.random() < .6 else Pixels("car", N=6, M=12, left=1, up=1)
        self.kind = [str(k) for k in rng.choice(KINDS, nsrc)]
        if px.kind == "car" or rng.random() < .5:
            self.kind = [str(k) for k in rng.choice(KINDS[:7], nsrc)]
        self.prist = [{v: self.arrays(k) for v in (1, 2)} for k in self.kind]
        self.store = [{n: a.copy() for n, a in p[1].items()} for p in self.prist]
        self.ver = [1] * nsrc
        self.dflt = 1
        self.obj = [None] * nobj
        self.refs = {}
        self.bins = linbins(LM)
        self.guess = {}
        self.default(1)

    def arrays(self, k):
        rng, n, st = self.rng, self.px.npix, self.px.store
        sp = 0 if k in ("cat0", "clu", "mo0") else int(k[1]) if k[0] == "s" else 2
        nm = 2 if sp else 1
        if k in ("cat0", "cat2"):
            return dict(pos=np.array([np.arccos(rng.uniform(-1, 1, 20)), rng.uniform(0, 6.28, 20)]), w=rng.uniform(.5, 2, 20), f=rng.standard_normal((nm, 20)), beam=rng.uniform(.5, 2, LM + 1))
        if k == "clu":
            return dict(pos=np.array([np.arccos(rng.uniform(-1, 1, 20)), rng.uniform(0, 6.28, 20)]), w=rng.uniform(.5, 2, 20),
                        rpos=np.array([np.arccos(rng.uniform(-1, 1, 50)), rng.uniform(0, 6.28, 50)]), rw=rng.uniform(.5, 2, 50))
        a = dict(mask=st(rng.uniform(.5, 2, n)).copy(), beam=rng.uniform(.5, 2, LM + 1))
        if k != "mo0":
            a["maps"] = st(rng.standard_normal((nm, n))).copy()
        if k.endswith("t"):
            a["temps"] = st(rng.standard_normal((2, nm, n))).copy()
        if k == "s2a":
            a["m22"], a["m12"] = st(rng.uniform(.5, 2, n)).copy(), st(rng.uniform(-.2, .2, n)).copy()
        return a

    def make(self, k, a, lite):
        nmt = self.nmt
        kd = self.kind[k]
        if kd in ("cat0", "cat2"):
            return nmt.NmtFieldCatalog(a["pos"], a["w"], a["f"], LM, lmax_mask=LK, spin=int(kd[3]), beam=a["beam"])
        if kd == "clu":
            return nmt.NmtFieldCatalogClustering(a["pos"], a["w"], a["rpos"], a["rw"], LM)
        sp = 0 if kd == "mo0" else int(kd[1])
        kw = dict(purify_b=True) if kd.startswith("s2p") else {}
        if kd == "s2a":
            kw.update(mask_22=a["m22"], mask_12=a["m12"])
        if "temps" in a:
            kw["templates"] = a["temps"]
        return nmt.NmtField(a["mask"], a.get("maps"), spin=sp, wcs=self.px.wcs, lmax=LM, lmax_mask=LM if kd == "never" else LK, beam=a["beam"], lite=bool(lite), **kw)

    def default(self, d):
        a, b, t = DEF[d]
        self.nmt.set_n_iter_default(a)
        self.nmt.set_n_iter_default(b, mask=True)
        self.nmt.set_tol_pinv_default(t)

    def kept(self):
        ok = all(np.array_equal(self.store[k][n], self.prist[k][self.ver[k]][n]) for k in range(self.nsrc) for n in self.store[k])
        return int(ok and all(np.array_equal(g, h) for g, h in self.guess.values()))

    def spectra(self, n, L):
        if (n, L) not in self.guess:
            g = np.random.default_rng([n, L]).uniform(.5, 1, (n, L)) * np.array([3. if i in (0, 3) else .2 for i in range(n)])[:, None]
            self.guess[n, L] = (g, g.copy())
        return self.guess[n, L][0]

    def one(self, q, f):
        if q == "noise":
            return [float(f.Nw), float(f.Nf), float(f.alpha or 0), float(f.spin)]
        g = dict(alms="get_alms", malms="get_mask_alms", mask="get_mask", maps="get_maps", temps="get_templates", amask="get_anisotropic_mask", aalms="get_anisotropic_mask_alms")[q]
        return getattr(f, g)()

    def two(self, q, x, y):
        nmt = self.nmt
        n = (2 if x.spin else 1) * (2 if y.spin else 1)
        if q == "pcl":
            return nmt.compute_coupled_cell(x, y)
        if q == "matrix":
            w = nmt.NmtWorkspace.from_fields(x, y, self.bins)
            m = w.get_coupling_matrix()
            d = w.couple_cell(self.spectra(n, LM + 1))
            r = [m.copy(), d.copy(), w.get_bandpower_windows().copy()]
            m[:] = np.nan
            return np.concatenate([z.ravel() for z in r])
        if q == "bias":
            return nmt.deprojection_bias(x, y, self.spectra(n, LM + 1))
        if q == "full":
            return nmt.compute_full_master(x, y, self.bins, cl_guess=self.spectra(n, LM + 1))
        if q == "cov":
            c = nmt.NmtCovarianceWorkspace.from_fields(x, y, y, x)
            w = nmt.NmtWorkspace.from_fields(x, y, self.bins)
            v = nmt.NmtWorkspace.from_fields(y, x, self.bins)
            s = lambda a, b: self.spectra((2 if a.spin else 1) * (2 if b.spin else 1), LM + 1)
            return nmt.gaussian_covariance(c, x.spin, y.spin, y.spin, x.spin, s(x, y), s(x, x), s(y, y), s(y, x), w, wb=v)

    def ask(self, fn, q, *a):
        v, err = attempt(q, fn, q, *a)
        if err:
            return [], err
        z = np.asarray(v)
        flat = z.astype(complex).ravel()
        flat = np.concatenate([flat.real, flat.imag])
        p = np.random.default_rng(zlib.crc32(q.encode())).standard_normal((4, len(flat)))
        d = hx(np.append(p @ flat, float(len(flat))))
        if q in TWO and self.rng.random() < .5 and isinstance(v, np.ndarray) and v.flags.writeable:
            v[...] = np.nan                                # answers belong to the caller
        return d, ""

    def need(self, q, a, b, same, d):
        self.refs[q, a, b, same, d] = None

    def do(self, h):
        op = h["op"]
        if op == "Reset":
            self.default(1)
            self.dflt = 1
            for k in range(self.nsrc):
                self.ver[k] = 1
                for n in self.store[k]:
                    self.store[k][n][...] = self.prist[k][1][n]
            self.obj = [None] * self.nobj
            return h
        if op == "Make":
            k = h["src"] - 1
            cat = self.kind[k] in ("cat0", "cat2", "clu")
            lite = 1 if cat else h["lite"]
            if self.kind[k] == "mo0":
                lite = h["lite"]
            f, err = attempt("field", self.make, k, self.store[k], lite)
            self.obj[h["o"] - 1] = (f, k + 1, self.ver[k], self.dflt, lite)
            return dict(h, lite=lite, kept=self.kept(), err=err)
        if op == "Mutate":
            k = h["src"] - 1
            self.ver[k] = 3 - self.ver[k]
            for n in self.store[k]:
                self.store[k][n][...] = self.prist[k][self.ver[k]][n]
            return h
        if op == "Default":
            self.dflt = 3 - self.dflt
            self.default(self.dflt)
            return h
        if op == "One":
            f, k, v, d, lite = self.obj[h["o"] - 1]
            val, err = self.ask(self.one, h["q"], f)
            self.need(h["q"], (k, v, d), (), 0, 0)
            return dict(h, val=val, err=err, kept=self.kept())
        x, y = self.obj[h["x"] - 1], self.obj[h["y"] - 1]
        val, err = self.ask(self.two, h["q"], x[0], y[0])
        self.need(h["q"], x[1:4], y[1:4], int(h["x"] == h["y"]), self.dflt if h["q"] in ("bias", "full") else 0)
        return dict(h, val=val, err=err, kept=self.kept())

    def references(self):
        out = []
        for (q, a, b, same, d) in self.refs:
            fs = []
            for s in (a, b):
                if s and not (same and fs):
                    self.default(s[2])
                    fs.append(must("reference field", self.make, s[0] - 1, {n: z.copy() for n, z in self.prist[s[0] - 1][s[1]].items()}, 0))
            if same:
                fs.append(fs[0])
            self.default(d or 1)
            val, err = self.ask(self.one if not b else self.two, q, *fs)
            out.append(dict(key=dict(q=q, a=list(a), b=list(b), same=same, d=d), val=val, err=err))
        self.default(1)
        self.nmt.set_n_iter_default(3)
        self.nmt.set_n_iter_default(3, mask=True)
        self.nmt.set_tol_pinv_default(1e-10)
        return out


def run(c):
    rng = np.random.default_rng([322] + c["seed"])
    w = World(rng)
    ev = []
    if c["kind"] == "replay":
        for h in c["hs"]:
            ev.append(w.do(dict(op="Reset")))
            for x in h:
                x = dict(x)
                if x["op"] == "One":
                    x["q"] = str(rng.choice(ONE))
                elif x["op"] == "Two":
                    x["q"] = str(rng.choice(TWO))
                ev.append(w.do(x))
    else:
        for o in (1, 2):
            ev.append(w.do(dict(op="Make", o=o, src=int(rng.integers(1, 3)), lite=int(rng.random() < .4))))
        for _ in range(c["n"]):
            r = rng.random()
            x, y = (int(z) for z in rng.integers(1, 3, 2))
            if r < .15:
                h = dict(op="Make", o=x, src=y, lite=int(rng.random() < .4))
            elif r < .3:
                h = dict(op="Mutate", src=x)
            elif r < .38:
                h = dict(op="Default")
            elif r < .65:
                h = dict(op="One", o=x, q=str(rng.choice(ONE)))
            else:
                h = dict(op="Two", x=x, y=y, q=str(rng.choice(TWO)))
            ev.append(w.do(h))
    return dict(nobj=2, nsrc=2, refs=w.references(), kinds=w.kind, ev=ev)
