"""Workspaces under arbitrary histories of public calls: ingredients, execution, recording."""
import os, shutil
import numpy as np
from fldlib import *
import binlib


def scheme(rng, lmax, overlap=True, lo=0):
    """a request for a scheme that has exactly this lmax; most bands at or above lo"""
    if rng.random() < .3:
        nlb = int(rng.integers(1, max(2, lmax // 2)))
        if (lmax - 1) // nlb >= 1 and lo <= 2:
            return dict(how="linear", lmax=lmax, nlb=nlb, pre="f", fs=[float(x) for x in rng.uniform(.5, 3, lmax + 1)])
    ells = list(range(int(rng.integers(lo, min(lmax, lo + 2) + 1)), lmax + 1))
    if rng.random() < .4:
        ells = [int(x) for x in rng.permutation(ells)]
    if overlap and rng.random() < .4:
        ells += [int(x) for x in rng.choice(np.arange(lo, lmax + 1), int(rng.integers(1, 4)))]
    n = len(ells)
    nb = int(rng.integers(1, min(n, 5) + 1))
    bpws = np.concatenate([np.arange(nb), rng.integers(-1 if n > nb + 2 else 0, nb, n - nb)])
    if rng.random() < .6:
        bpws = np.sort(bpws)
    fs = rng.uniform(.3, 4, n) if rng.random() < .7 else np.ones(n)
    return dict(how="arrays", ells=ells, bpws=ints(bpws), ws=[float(x) for x in rng.uniform(.2, 3, n)], fs=[float(x) for x in fs], lmax=lmax, pre="f")


class Lab:
    """ingredients of one case"""
    KINDS = [(0, 0, 0), (0, 2, 0), (2, 2, 0), (2, 0, 0), (1, 2, 0), (0, 1, 1), (0, 2, 1), (2, 2, 2), (0, 0, 2)]   # spins; 1: joint TEB; 2: catalog auto

    def __init__(self, rng, kind, lmax=None, singular=False):
        import pymaster as nmt
        self.nmt, self.rng = nmt, rng
        s1, s2, k = kind
        self.kind = kind
        smax = max(s1, s2)
        self.lmax = L = int(lmax or rng.integers(max(3, smax + 1), 6))
        self.teb = k == 1
        self.n = 7 if self.teb else (2 if s1 else 1) * (2 if s2 else 1)
        self.nside = 4
        self.dir = os.path.join(os.environ["NMT_SCRATCH"], "w%x" % rng.integers(1 << 60))
        os.makedirs(self.dir)
        self.pairs, self.hdr = [], []
        for i in range(2):
            um = unit(np.random.default_rng([317, i, rng.bit_generator.state["state"]["state"] % 1000003]), 40, .3)
            if k == 2 and i == 1:
                f1 = f2 = catalog(rng, s1, L, L + 2, n=30, beam=beam(rng, L))
                norm = "FKP"
            else:
                def fld(s):
                    b = beam(rng, L + int(rng.integers(0, 4))) if rng.random() < .8 else None
                    return must("NmtField", nmt.NmtField, (np.abs(smooth_mask(rng, self.nside, rng.choice(["smooth", "white"]))) + .3) * um, None, spin=s, lmax=L,
                                lmax_mask=L + int(rng.integers(0, 3)), n_iter_mask=0, beam=b)
                lm = rng.bit_generator.state
                f1 = fld(s1)
                f2 = f1 if s1 == s2 and rng.random() < .3 else must("NmtField", nmt.NmtField, np.abs(smooth_mask(rng, self.nside, "smooth")) + .3, None, spin=s2, lmax=L,
                                                                   lmax_mask=f1.ainfo_mask.lmax, n_iter_mask=0, beam=beam(rng, L))
                norm = "MASTER" if i == 0 else "FKP"
            self.pairs.append((f1, f2, norm))
            w = must("from_fields", nmt.NmtWorkspace.from_fields, f1, f2, linbins(L), is_teb=self.teb)
            h = dict(n=self.n, lmax=L, mat=hx(matrix(w)), b1=hx(f1.beam), b2=hx(f2.beam))
            if f1.is_catalog:
                h.update(w2="noise", noise=hx(float(f1.Nw)))
            else:
                h.update(w2="mean", m1=hx(must("get_mask", f1.get_mask)), m2=hx(must("get_mask", f2.get_mask)))
            self.hdr.append(h)
        lo = smax if not singular else 0
        self.schemes = [scheme(rng, L, lo=lo) for _ in range(3)] + [scheme(rng, L + 1, lo=lo)]
        if singular:
            q = self.schemes[1] = dict(how="arrays", ells=list(range(L + 1)), bpws=[0 if l < max(smax, 1) else 1 for l in range(L + 1)], ws=[1.] * (L + 1), fs=[1.] * (L + 1), lmax=L, pre="f")
        self.bins = [must("NmtBin", binlib.construct, q) for q in self.schemes]
        nr = self.n * (L + 1)
        self.mats = [np.diag(rng.uniform(3, 6, nr)) + rng.normal(size=(nr, nr)) * .3 for _ in range(2)]
        # a matrix that is not symmetric in any way and has no empty rows
        self.beams = [(beam(rng, L + int(rng.integers(0, 3))), beam(rng, L)) for _ in range(3)]
        rn = np.random.default_rng([int(1e6 * self.beams[0][0][1]) % 1000003])
        if rn.random() < .5:                             # one that differs very little, in places
            x = self.beams[1][0].copy()
            x[rn.random(len(x)) < .5] *= 1 + 1e-5
            self.beams[2] = (x, self.beams[1][1].copy())
            if rn.random() < .5:
                self.beams[0] = (x.copy(), self.beams[1][1].copy())
        if rn.random() < .5:
            self.mats[1] = self.mats[0] * (1 + 1e-5 * (rn.random((nr, nr)) < .3))
        self.other = None
        self.reset()

    def header(self):
        return dict(nw=2, nf=2, pairs=self.hdr, schemes=[binlib.event("x", q, "") for q in self.schemes],
                    mats=[hx(m) for m in self.mats], beams=[[hx(a), hx(b)] for a, b in self.beams])

    def reset(self):
        self.w = [must("NmtWorkspace", self.nmt.NmtWorkspace) for _ in range(2)]
        for f in os.listdir(self.dir):
            os.remove(os.path.join(self.dir, f))
        return dict(op="Reset")

    def bystander(self):
        """fields that do not go with the others"""
        if self.other is None:
            rng, nmt = self.rng, self.nmt
            s1, s2 = [x[0] if isinstance(x, (tuple, list)) else x for x in self.kind[:2]]
            mk = lambda ns, L, s: must("NmtField", nmt.NmtField, np.abs(smooth_mask(rng, ns, "smooth")) + .3, None, spin=s, lmax=L, n_iter_mask=0)
            self.other = dict(res=mk(8, self.lmax, s2), lmax=mk(4, self.lmax + 1, s2), spin0=mk(4, self.lmax, 0), spin2=mk(4, self.lmax, 2),
                              cat=catalog(rng, 0, self.lmax, self.lmax), big=mk(4, self.lmax + 1, s1))
        return self.other

    # ---------------------------------------------------------------- requests
    def compute(self, w, pair, b, norm=None, why=""):
        f1, f2, nm = self.pairs[pair - 1]
        nm = norm or nm
        _, err = attempt("compute_coupling_matrix", self.w[w - 1].compute_coupling_matrix, f1, f2, self.bins[b - 1], is_teb=self.teb, normalization=nm)
        ok = self.schemes[b - 1]["lmax"] == self.lmax and nm in ("MASTER", "FKP") and not (nm == "FKP" and (f1.is_catalog or f2.is_catalog) and f1 is not f2)
        return dict(op="Compute", w=w, pair=pair, bins=b, norm=nm, valid=int(ok), err=err, why=why or "bins %d, normalisation %s" % (b, nm))

    BAD = ["lmax", "norm", "resolution", "field_lmax", "teb_spins", "fkp_catalog", "toeplitz_range", "toeplitz_pure"]

    def bad_compute(self, w, k):
        o, nmt = self.bystander(), self.nmt
        f1, f2, nm = self.pairs[0]
        W = self.w[w - 1].compute_coupling_matrix
        why = self.BAD[k % len(self.BAD)]
        b = self.bins[0]
        call = dict(lmax=lambda: W(f1, f2, self.bins[3], is_teb=self.teb), norm=lambda: W(f1, f2, b, is_teb=self.teb, normalization="Master"),
                    resolution=lambda: W(f1, o["res"], b, is_teb=self.teb), field_lmax=lambda: W(f1, o["lmax"], b, is_teb=self.teb),
                    teb_spins=lambda: W(*((o["spin2"], o["spin0"]) if w == 1 else (o["spin0"], o["spin0"])), b, is_teb=True),
                    fkp_catalog=lambda: W(o["spin0"], o["cat"], linbins(self.lmax), normalization="FKP"),
                    toeplitz_range=lambda: W(f1, f2, b, is_teb=self.teb, l_toeplitz=2, l_exact=3, dl_band=1),
                    toeplitz_pure=lambda: W(f1, f2, b, is_teb=self.teb, l_toeplitz=self.lmax + 3, l_exact=2, dl_band=1))[why]
        _, err = attempt("compute_coupling_matrix", call)
        return dict(op="Compute", w=w, pair=1, bins=1, norm="MASTER", valid=0, err=err, why=why)

    def set_beams(self, w, b, short=0):
        b1, b2 = self.beams[b - 1]
        if short == 1:
            b1 = b1[:self.lmax]
        elif short == 2:
            b2 = b2[:self.lmax]
        a = (b1, b2) if short != 3 else (None, b2)
        _, err = attempt("update_beams", self.w[w - 1].update_beams, *a)
        return dict(op="Beams", w=w, b=b, l1=len(b1) if short != 3 else 0, l2=len(b2), err=err, why="beams of %d and %d values" % (len(b1), len(b2)))

    def set_bins(self, w, s):
        _, err = attempt("update_bins", self.w[w - 1].update_bins, self.bins[s - 1])
        return dict(op="Bins", w=w, s=s, err=err, why="scheme with lmax %d" % self.schemes[s - 1]["lmax"])

    def set_matrix(self, w, m, bad=0):
        M = self.mats[m - 1]
        if bad == 1:
            M = M[:-1, :-1]
        elif bad == 2:
            M = M[:, :-1]
        elif bad == 3:
            M = np.pad(M, 1)
        keep = M.copy()
        _, err = attempt("update_coupling_matrix", self.w[w - 1].update_coupling_matrix, M)
        return dict(op="Matrix", w=w, m=m, rows=M.shape[0], cols=M.shape[1], err=err, why="matrix of shape %s" % (M.shape,))

    def path(self, f):
        return os.path.join(self.dir, "file%d.fits" % f)

    def write(self, w, f, place=1):
        p = self.path(f) if place else os.path.join(self.dir, "missing", "x.fits")
        _, err = attempt("write_to", self.w[w - 1].write_to, p)
        return dict(op="Write", w=w, f=f, place=place, err=err, why="path %s" % os.path.basename(p))

    def load(self, w, f, unb, fresh=False):
        p = self.path(f) if f else os.path.join(self.dir, "nothing_here" + "_" * int(self.rng.integers(0, 2)) * 180)
        if fresh:
            x, err = attempt("from_file", self.nmt.NmtWorkspace.from_file, p, read_unbinned_MCM=bool(unb))
            if x is not None:
                self.w[w - 1] = x
        else:
            _, err = attempt("read_from", self.w[w - 1].read_from, p, read_unbinned_MCM=bool(unb))
        return dict(op="Load", w=w, f=f, unb=unb, err=err, why="file %d" % f)

    # ---------------------------------------------------------------- answers
    def get(self, w):
        m, err = attempt("get_coupling_matrix", self.w[w - 1].get_coupling_matrix)
        return dict(op="Get", w=w, err=err, out=[] if m is None else hx(m), why="matrix")

    def spectra(self, extra=0, short=0, n=None):
        r = self.rng
        L = self.lmax + 1 + extra - short
        return r.normal(size=(n or self.n, L)) * np.exp(-np.arange(L) * r.uniform(0, .3))

    def couple(self, w, cl=None):
        cl = self.spectra(extra=int(self.rng.integers(0, 3))) if cl is None else cl
        c0 = hx(cl)
        o, err = attempt("couple_cell", self.w[w - 1].couple_cell, cl)
        return dict(op="Couple", w=w, cl=c0, after=hx(cl), shape=list(cl.shape), out=[] if o is None else hx(o), err=err, why="spectra of shape %s" % (cl.shape,))

    def decouple(self, w, cl=None, noise=None, bias=None, plain=False):
        if cl is None:
            cl = self.spectra(extra=int(self.rng.integers(0, 3)))
            if not plain:
                noise = self.spectra(extra=cl.shape[1] - self.lmax - 1) if self.rng.random() < .5 else None
                bias = self.spectra(extra=cl.shape[1] - self.lmax - 1) if self.rng.random() < .5 else None
        H = lambda x: [] if x is None else hx(x)
        c0 = [H(cl), H(noise), H(bias)]
        o, err = attempt("decouple_cell", self.w[w - 1].decouple_cell, cl, cl_noise=noise, cl_bias=bias)
        return dict(op="Decouple", w=w, cl=c0[0], noise=c0[1], bias=c0[2], after=[H(cl), H(noise), H(bias)], shape=list(cl.shape),
                    nsh=[] if noise is None else list(noise.shape), bsh=[] if bias is None else list(bias.shape), out=H(o), err=err, why="spectra of shape %s" % (cl.shape,))

    def windows(self, w):
        o, err = attempt("get_bandpower_windows", self.w[w - 1].get_bandpower_windows)
        return dict(op="Windows", w=w, err=err, out=[] if o is None else hx(o), wshape=[] if o is None else list(o.shape), finite=int(o is not None and np.isfinite(o).all()), why="windows")

    def round(self, w, b):
        """b: the scheme in use"""
        bp = self.rng.normal(size=(self.n, self.bins[b - 1].get_n_bands()))
        W = self.w[w - 1]
        o, err = attempt("decouple(couple(unbin))", lambda: W.decouple_cell(W.couple_cell(self.bins[b - 1].unbin_cell(bp))))
        return dict(op="Round", w=w, bp=hx(bp), out=[] if o is None else hx(o), err=err)

    def probe(self, ws=(1, 2), deep=True):
        ev = []
        for i in ws:
            ev.append(self.get(i))
            ev.append(self.decouple(i))
            if deep:
                ev.append(self.couple(i))
                ev.append(self.windows(i))
        return ev

    def close(self):
        self.w = []
        for f in os.listdir(self.dir):
            os.remove(os.path.join(self.dir, f))
        os.rmdir(self.dir)
