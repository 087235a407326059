"""W04: bad requests among good ones.

Every lab builds a set of objects from a seed and offers uses (calls that answer), changes (valid calls that alter objects)
and faults (calls the documentation excludes).  The same script runs twice on two identical labs, once without its faults."""
import os, resource, shutil, signal, warnings
from fldlib import *
from flatlib import Patch, patch
from wsplib import scheme
import binlib

warnings.simplefilter("ignore")
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)


def flat(*xs):
    out = []
    for x in xs:
        if x is None:
            continue
        a = np.asarray(x)
        out += list(np.ravel(np.stack([a.real, a.imag]) if np.iscomplexobj(a) else a).astype(float))
    return np.array(out)


class Base:
    def __init__(self, seed, variant, name):
        import pymaster as nmt
        self.nmt, self.v = nmt, variant
        self.rng = np.random.default_rng(seed)
        self.dir = os.path.join(os.environ["NMT_SCRATCH"], name)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.keep = []
        self.uses, self.changes, self.faults = {}, {}, {}
        self.build()
        self.uses["files left open"] = lambda: np.array([1. + self.held()])
        self.uses["arrays given"] = lambda: flat(*self.keep) if self.keep else np.zeros(1)

    def mine(self, x):
        """an array that is handed to the library: it must come back as it was"""
        self.keep.append(x)
        return x

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, f):
        return os.path.join(self.dir, f)

    def bad_files(self, good):
        """unreadable files, from one that can be read"""
        out = {"missing file": self.path("nothing"), "a directory": self.dir, "missing directory": self.path("no/such/file"), "empty name": ""}
        with open(self.path("garbage"), "wb") as f:
            f.write(b"\0not a FITS file" * 300)
        out["garbage"] = self.path("garbage")
        open(self.path("empty"), "wb").close()
        out["empty file"] = self.path("empty")
        data = open(good, "rb").read()
        for frac in (.3, .6, .9):
            n = int(len(data) * frac) // 2880 * 2880
            with open(self.path("cut%d" % (frac * 10)), "wb") as f:
                f.write(data[:n])
            out["file cut at %d of %d bytes" % (n, len(data))] = self.path("cut%d" % (frac * 10))
        from astropy.io import fits
        fits.PrimaryHDU(np.ones((3, 3))).writeto(self.path("other.fits"), overwrite=True)
        out["another FITS file"] = self.path("other.fits")
        return out

    def held(self):
        """how many files of this lab's directory are open"""
        n = 0
        for d in os.listdir("/proc/self/fd"):
            try:
                n += os.readlink("/proc/self/fd/" + d).startswith(self.dir)
            except OSError:
                pass
        return n

    def full_disk(self, write, frac):
        """write where only part of the file can be written (what cfitsio still holds when it closes the file is its own affair)"""
        def attempt_it():
            write(self.path("whole.fits"))
            n = os.path.getsize(self.path("whole.fits"))
            old = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (int(n * frac) // 2880 * 2880, old[1]))
            try:
                write(self.path("half.fits"))
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, old)
        return attempt_it

    def full_disks(self, write):
        return {"full disk at %d%%" % (100 * x): self.full_disk(write, x) for x in (0., .2, .4, .6)}

    def bad_places(self):
        return {"missing directory": self.path("no/such/file"), "a directory": self.dir, "name too long": self.path("x" * 300), "no name": None}


class BinLab(Base):
    VARIANTS = [0, 1]

    def build(self):
        nmt, rng = self.nmt, self.rng
        L = int(rng.integers(6, 14))
        if self.v == 0:
            q = scheme(rng, L)
            b = must("NmtBin", binlib.construct, q)
        else:
            b = must("NmtBin.from_edges", nmt.NmtBin.from_edges, [2, 4, 5], [4, 5, L + 1], is_Dell=True)
        nb = b.get_n_bands()
        cl = self.mine(rng.normal(size=(2, L + 1)))
        cb = self.mine(rng.normal(size=(2, nb)))
        self.uses = {"bin_cell": lambda: b.bin_cell(cl), "unbin_cell": lambda: b.unbin_cell(cb), "bin_cell 1D": lambda: b.bin_cell(cl[0]), "unbin_cell 1D": lambda: b.unbin_cell(cb[1]),
                     "lists": lambda: np.concatenate([flat(b.get_ell_list(i), b.get_weight_list(i), b.get_ell_min(i), b.get_ell_max(i)) for i in range(nb)]),
                     "centres": lambda: flat(b.get_effective_ells(), b.get_nell_list(), b.get_n_bands(), b.lmax)}
        F = self.faults
        for d in (1, L, -L):
            F["bin_cell of %+d" % d] = lambda d=d: b.bin_cell(np.ones((2, L + 1 + d)))
        F["bin_cell of a number"] = lambda: b.bin_cell(1.)
        F["bin_cell 3D"] = lambda: b.bin_cell(np.ones((2, 2, L + 1)))
        F["bin_cell text"] = lambda: b.bin_cell(np.array(["x"] * (L + 1)))
        F["bin_cell short"] = lambda: b.bin_cell(cl[:, :-1])
        F["bin_cell none"] = lambda: b.bin_cell(None)
        for d in (1, -1, 4):
            F["unbin_cell of %+d" % d] = lambda d=d: b.unbin_cell(np.ones((2, nb + d)))
        F["unbin_cell 3D"] = lambda: b.unbin_cell(np.ones((2, 2, nb)))
        F["unbin_cell none"] = lambda: b.unbin_cell(None)
        for f in ("get_ell_list", "get_weight_list", "get_ell_min", "get_ell_max"):
            for i in (-1, nb, nb + 7, 10**6, -10**6):
                F["%s(%d)" % (f, i)] = lambda f=f, i=i: getattr(b, f)(i)
        ar, on = np.arange, np.ones
        N = lambda **k: lambda: nmt.NmtBin(**k)
        F["weights too few"] = N(bpws=ar(4) // 2, ells=ar(4) + 2, lmax=6, weights=on(3))
        F["weights too many"] = N(bpws=ar(4) // 2, ells=ar(4) + 2, lmax=6, weights=on(5))
        F["bpws too few"] = N(bpws=ar(3) // 2, ells=ar(4) + 2, lmax=6, weights=on(4))
        F["bpws too many"] = N(bpws=ar(5) // 2, ells=ar(4) + 2, lmax=6, weights=on(4))
        F["f_ell too short"] = N(bpws=ar(4) // 2, ells=ar(4) + 2, lmax=6, weights=on(4), f_ell=on(3))
        F["negative multipoles"] = N(bpws=ar(4) // 2, ells=ar(4) - 2, lmax=6, weights=on(4))
        F["very negative multipoles"] = N(bpws=ar(4) // 2, ells=ar(4) - 10**6, lmax=6, weights=on(4))
        F["no bands"] = N(bpws=-on(4, int), ells=ar(4) + 2, lmax=6, weights=on(4))
        F["zero weights"] = N(bpws=ar(4) // 2, ells=ar(4) + 2, lmax=6, weights=np.zeros(4))
        F["no multipoles"] = N(bpws=[], ells=[], lmax=6, weights=[])
        F["no ells"] = N(bpws=ar(4), ells=None, lmax=6)
        F["no bpws"] = N(bpws=None, ells=ar(4), lmax=6)
        F["band width 0"] = lambda: nmt.NmtBin.from_lmax_linear(10, 0)
        F["band width -2"] = lambda: nmt.NmtBin.from_lmax_linear(10, -2)
        F["band wider than all"] = lambda: nmt.NmtBin.from_lmax_linear(10, 30)
        F["nside width 0"] = lambda: nmt.NmtBin.from_nside_linear(4, 0)
        F["f_ell of another length"] = lambda: nmt.NmtBin.from_lmax_linear(10, 2, f_ell=on(7))
        F["edges of different number"] = lambda: nmt.NmtBin.from_edges([2, 4], [4, 6, 8])
        F["edges inverted"] = lambda: nmt.NmtBin.from_edges([6, 8], [2, 4])
        F["edges none"] = lambda: nmt.NmtBin.from_edges([], [])
        F["negative edges"] = lambda: nmt.NmtBin.from_edges([-5, 4], [4, 6])
        F["unknown option"] = lambda: nmt.NmtBin(bpws=ar(4), ells=ar(4), lmax=6, weights=on(4), nlb=3)


class FlatBinLab(Base):
    VARIANTS = [0]

    def build(self):
        nmt, rng = self.nmt, self.rng
        nb = int(rng.integers(2, 6))
        e = np.sort(rng.uniform(10, 300, nb + 1))
        b = must("NmtBinFlat", nmt.NmtBinFlat, self.mine(e[:-1].copy()), self.mine(e[1:].copy()))
        l = self.mine(np.linspace(0, 400, 23))
        cl, cb = self.mine(rng.normal(size=(2, 23))), self.mine(rng.normal(size=(2, nb)))
        self.uses = {"bin_cell": lambda: b.bin_cell(l, cl), "unbin_cell": lambda: b.unbin_cell(cb, l), "centres": lambda: flat(b.get_effective_ells(), b.get_n_bands())}
        F, on = self.faults, np.ones
        for d in (1, -1, 5):
            F["bin_cell lengths %+d" % d] = lambda d=d: b.bin_cell(l, on((2, 23 + d)))
            F["unbin_cell bands %+d" % d] = lambda d=d: b.unbin_cell(on((2, nb + d)), l)
        F["bin_cell 3D"] = lambda: b.bin_cell(l, on((2, 2, 23)))
        F["bin_cell nothing"] = lambda: b.bin_cell(l, None)
        F["unbin_cell 3D"] = lambda: b.unbin_cell(on((2, 2, nb)), l)
        F["unbin_cell nothing"] = lambda: b.unbin_cell(None, l)
        F["edges of different number"] = lambda: nmt.NmtBinFlat(e[:-1], e)
        F["edges text"] = lambda: nmt.NmtBinFlat(["a"], ["b"])


class FieldLab(Base):
    VARIANTS = [0, 1, 2, 3]         # spin 0; spin 2 with templates; purified; anisotropic

    def build(self):
        nmt, rng, v = self.nmt, self.rng, self.v
        n, L, s = 192, int(rng.integers(3, 6)), 0 if v == 0 else 2
        nm = 2 if s else 1
        m = self.mine(np.abs(smooth_mask(rng, 4, "smooth")) + .3)
        mp = self.mine(rng.standard_normal((nm, n)))
        t = self.mine(rng.standard_normal((2, nm, n)))
        a = self.mine(np.array([.2 * rng.random(n), .2 * rng.random(n)]))
        bm = self.mine(beam(rng, L + 2))
        kw = dict(lmax=L, lmax_mask=L + 1, n_iter=0, n_iter_mask=0, beam=bm)
        if v in (0, 1):
            kw["templates"] = t
        if v == 2:
            kw.update(purify_b=True)
        if v == 3:
            kw.update(mask_22=m + a[0], mask_12=a[1])
        f = must("NmtField", nmt.NmtField, m, mp, spin=s, **kw)
        self.uses = {"maps": lambda: f.get_maps(), "alms": lambda: flat(f.get_alms()), "mask": f.get_mask, "mask_alms": lambda: flat(f.get_mask_alms()), "beam": lambda: flat(f.beam, f.lmax if hasattr(f, "lmax") else 0),
                     "pcl": lambda: nmt.compute_coupled_cell(f, f)}
        if v in (0, 1):
            self.uses["templates"] = f.get_templates
            self.uses["bias"] = lambda: nmt.deprojection_bias(f, f, np.ones((nm * nm, L + 1)), n_iter=0)
        if v == 3:
            self.uses["aniso"] = lambda: flat(f.get_anisotropic_mask(), f.get_anisotropic_mask_alms())
        F = self.faults
        K = lambda **k: dict(kw, **k)
        N = lambda *x, **k: lambda: nmt.NmtField(*x, **k)
        F["map too short"] = N(m, mp[:, :-1], spin=s, **kw)
        F["map of another resolution"] = N(m, np.ones((nm, 48)), spin=s, **kw)
        F["mask of no resolution"] = N(m[:-1], mp, spin=s, **kw)
        F["mask 2D"] = N(np.array([m, m]), mp, spin=s, **kw)
        F["three maps"] = N(m, np.ones((3, n)), spin=s, **kw)
        F["no maps at all"] = N(m, np.ones((0, n)), spin=s, **kw)
        F["wrong number for the spin"] = N(m, np.ones((3 - nm, n)), spin=s, **kw)
        F["1D maps"] = N(m, np.ones(n), spin=s, **kw)
        F["no maps and no spin"] = N(m, None, **K(templates=None))
        if v != 3:
            F["two maps, spin 0"] = N(m, np.ones((2, n)), spin=0, **K(purify_b=False))
        F["one map, spin 2"] = N(m, np.ones((1, n)), spin=2, **kw)
        for d in (1, 2):
            F["beam short by %d" % d] = N(m, mp, spin=s, **K(beam=np.ones(L + 1 - d)))
        F["beam a number"] = N(m, mp, spin=s, **K(beam=1.))
        F["beam text"] = N(m, mp, spin=s, **K(beam="gauss"))
        F["purify spin 0"] = N(m, np.ones((1, n)), spin=0, lmax=L, purify_b=True)
        F["purify spin 1"] = N(m, np.ones((2, n)), spin=1, lmax=L, purify_e=True)
        F["purify spin 3"] = N(m, np.ones((2, n)), spin=3, lmax=L, purify_e=True)
        F["templates of another resolution"] = N(m, mp, spin=s, **K(templates=np.ones((1, nm, 48)), mask_22=None, mask_12=None))
        F["templates too short"] = N(m, mp, spin=s, **K(templates=t[:, :, :-1], mask_22=None, mask_12=None))
        F["templates of another number of maps"] = N(m, mp, spin=s, **K(templates=np.ones((1, 3 - nm, n)), mask_22=None, mask_12=None))
        F["templates 2D"] = N(m, mp, spin=s, **K(templates=np.ones((nm, n)), mask_22=None, mask_12=None))
        F["templates a number"] = N(m, mp, spin=s, **K(templates=3., mask_22=None, mask_12=None))
        F["only one anisotropic mask"] = N(m, np.ones((2, n)), spin=2, lmax=L, mask_22=m)
        F["only the other anisotropic mask"] = N(m, np.ones((2, n)), spin=2, lmax=L, mask_12=a[1])
        F["anisotropic mask of another resolution"] = N(m, np.ones((2, n)), spin=2, lmax=L, mask_22=np.ones(48), mask_12=np.zeros(48))
        F["anisotropic spin 0"] = N(m, np.ones((1, n)), spin=0, lmax=L, mask_22=m, mask_12=a[1])
        F["anisotropic and purified"] = N(m, np.ones((2, n)), spin=2, lmax=L, mask_22=m, mask_12=a[1], purify_b=True)
        F["anisotropic not positive"] = N(m, np.ones((2, n)), spin=2, lmax=L, mask_22=m, mask_12=2 * m + 1)
        F["negative lmax"] = N(m, mp, spin=s, **K(lmax=-5))
        F["negative lmax_mask"] = N(m, mp, spin=s, **K(lmax_mask=-5))
        F["negative spin"] = N(m, np.ones((2, n)), spin=-2, lmax=L)
        F["negative spin, no maps"] = N(m, None, spin=-2, lmax=L)
        F["map not positional"] = N(m)
        F["unknown option"] = N(m, mp, spin=s, **K(nside=4))
        F["other resolution"] = lambda: nmt.compute_coupled_cell(f, nmt.NmtField(np.ones(768), np.ones((1, 768)), lmax=L, n_iter=0, n_iter_mask=0))
        F["other lmax"] = lambda: nmt.compute_coupled_cell(f, nmt.NmtField(m, np.ones((1, n)), lmax=L + 1, n_iter=0, n_iter_mask=0))
        F["field without maps"] = lambda: nmt.compute_coupled_cell(f, nmt.NmtField(m, None, spin=2, lmax=L, lmax_mask=L + 1, n_iter_mask=0))
        F["maps of a field without maps"] = lambda: nmt.NmtField(m, None, spin=2, lmax=L, n_iter_mask=0).get_maps()
        F["alms of a field without maps"] = lambda: nmt.NmtField(m, None, spin=2, lmax=L, n_iter_mask=0).get_alms()
        F["maps of a lite field"] = lambda: nmt.NmtField(m, mp, spin=s, **K(lite=True)).get_maps()
        if "templates" in kw:
            F["templates of a lite field"] = lambda: nmt.NmtField(m, mp, spin=s, **K(lite=True)).get_templates()
            F["bias of lite fields"] = lambda: (lambda g: nmt.deprojection_bias(g, g, np.ones((nm * nm, L + 1))))(nmt.NmtField(m, mp, spin=s, **K(lite=True)))
            F["bias with a lite field"] = lambda: nmt.deprojection_bias(f, nmt.NmtField(m, mp, spin=s, **K(lite=True)), np.ones((nm * nm, L + 1)))
        else:
            F["templates where there are none"] = f.get_templates
        if v != 3:
            F["anisotropic mask where there is none"] = f.get_anisotropic_mask
            F["anisotropic mask alms where there are none"] = f.get_anisotropic_mask_alms
        for sh in ((nm * nm, L), (nm * nm, L + 2), (nm * nm + 1, L + 1), (nm * nm, L + 1, 1), (L + 1,) if nm > 1 else (L,)):
            F["bias guess %s" % (sh,)] = lambda sh=sh: nmt.deprojection_bias(f, f, np.ones(sh), n_iter=0)
        F["bias other lmax"] = lambda: nmt.deprojection_bias(f, nmt.NmtField(m, np.ones((1, n)), lmax=L + 1, n_iter=0, n_iter_mask=0), np.ones((nm, L + 1)))
        F["bias other resolution"] = lambda: nmt.deprojection_bias(f, nmt.NmtField(np.ones(768), np.ones((1, 768)), lmax=L, n_iter=0, n_iter_mask=0), np.ones((nm, L + 1)))
        for k in (48, n - 1, 1):
            F["variance of %d pixels" % k] = lambda k=k: nmt.uncorr_noise_deprojection_bias(f, np.ones(k))
        F["variance 2D"] = lambda: nmt.uncorr_noise_deprojection_bias(f, np.ones((2, n)))


class FlatFieldLab(Base):
    VARIANTS = [0, 1, 2]

    def build(self):
        nmt, rng, v = self.nmt, self.rng, self.v
        p = patch(rng)
        s = 0 if v == 0 else 2
        nm = 2 if s else 1
        m, mp = self.mine(p.mask(rng)), self.mine(p.maps(rng, s))
        t = self.mine(rng.standard_normal((2, nm, p.ny, p.nx)))
        bm = self.mine(p.beam(rng))
        kw = dict(beam=bm)
        if v in (0, 1):
            kw["templates"] = t
        if v == 2:
            kw["purify_b"] = True
        f = must("NmtFieldFlat", nmt.NmtFieldFlat, p.lx, p.ly, m, mp, spin=s, **kw)
        e = np.linspace(.3, 1, 4) * p.lmax()
        b = must("NmtBinFlat", nmt.NmtBinFlat, e[:-1].copy(), e[1:].copy())
        l = self.mine(np.linspace(0, p.lmax(), 20))
        g = self.mine(np.ones((nm * nm, 20)))
        self.uses = {"maps": f.get_maps, "mask": f.get_mask, "pcl": lambda: nmt.compute_coupled_cell_flat(f, f, b), "sampling": f.get_ell_sampling}
        if v != 2:
            self.uses["templates"] = f.get_templates
            self.uses["bias"] = lambda: nmt.deprojection_bias_flat(f, f, b, l, g)
        F = self.faults
        K = lambda **k: dict(kw, **k)
        N = lambda lx=p.lx, ly=p.ly, mask=m, maps=mp, spin=s, **k: lambda: nmt.NmtFieldFlat(lx, ly, mask, maps, spin=spin, **K(**k))
        on = np.ones
        F["lx negative"] = N(lx=-1.)
        F["ly negative"] = N(ly=-1.)
        F["lx zero"] = N(lx=0.)
        F["map of another shape"] = N(maps=on((nm, p.ny, p.nx + 1)))
        F["map transposed"] = N(maps=on((nm, p.nx + 1, p.ny)))
        F["map flattened"] = N(maps=on((nm, p.ny * p.nx)))
        F["mask flattened"] = N(mask=m.flatten())
        F["mask of another shape"] = N(mask=on((p.ny + 1, p.nx)))
        F["three maps"] = N(maps=on((3, p.ny, p.nx)))
        F["two maps, spin 0"] = N(maps=on((2, p.ny, p.nx)), spin=0, purify_b=False)
        F["one map, spin 2"] = N(maps=on((1, p.ny, p.nx)), spin=2)
        F["no maps and no spin"] = N(maps=None, spin=None, templates=None)
        F["beam 1D"] = N(beam=on(10))
        F["beam of three rows"] = N(beam=on((3, 10)))
        F["beam text"] = N(beam="gauss")
        F["templates of another shape"] = N(templates=on((2, nm, p.ny, p.nx + 1)))
        F["templates of other maps"] = N(templates=on((2, 3 - nm, p.ny, p.nx)))
        F["templates 3D"] = N(templates=on((2, p.ny, p.nx)))
        F["templates a number"] = N(templates=1.)
        F["purify spin 0"] = N(maps=on((1, p.ny, p.nx)), spin=0, purify_b=True, templates=None)
        F["purify spin 1"] = N(maps=on((2, p.ny, p.nx)), spin=1, purify_e=True, templates=None)
        F["negative spin"] = N(maps=on((2, p.ny, p.nx)), spin=-2, templates=None, purify_b=False)
        F["negative spin, no maps"] = N(maps=None, spin=-2, templates=None, purify_b=False)
        F["unknown option"] = N(lmax=3)
        F["maps of a lite field"] = lambda: nmt.NmtFieldFlat(p.lx, p.ly, m, mp, spin=s, **K(lite=True)).get_maps()
        F["maps of a field without maps"] = lambda: nmt.NmtFieldFlat(p.lx, p.ly, m, None, spin=s).get_maps()
        other = lambda: nmt.NmtFieldFlat(p.lx, p.ly, on((p.ny, p.nx + 1)), on((1, p.ny, p.nx + 1)))
        wide = lambda: nmt.NmtFieldFlat(p.lx * 1.5, p.ly, m, on((1, p.ny, p.nx)))
        empty = lambda: nmt.NmtFieldFlat(p.lx, p.ly, m, None, spin=0)
        for nme, o in (("shape", other), ("size", wide), ("no maps", empty)):
            F["pcl, " + nme] = lambda o=o: nmt.compute_coupled_cell_flat(f, o(), b)
            F["bias, " + nme] = lambda o=o: nmt.deprojection_bias_flat(f, o(), b, l, on((nm, 20)))
            F["pcl reversed, " + nme] = lambda o=o: nmt.compute_coupled_cell_flat(o(), f, b)
        for sh in ((nm * nm, 19), (nm * nm + 1, 20), (nm * nm, 20, 1)):
            F["bias guess %s" % (sh,)] = lambda sh=sh: nmt.deprojection_bias_flat(f, f, b, l, on(sh))
        if "templates" in kw:
            F["templates of a lite field"] = lambda: nmt.NmtFieldFlat(p.lx, p.ly, m, mp, spin=s, **K(lite=True)).get_templates()
            F["bias of a lite field"] = lambda: (lambda q: nmt.deprojection_bias_flat(q, q, b, l, g))(nmt.NmtFieldFlat(p.lx, p.ly, m, mp, spin=s, **K(lite=True)))


class CatalogLab(Base):
    VARIANTS = [0, 1, 2]

    def build(self):
        nmt, rng, v = self.nmt, self.rng, self.v
        n, L, s = 7, int(rng.integers(3, 7)), 0 if v != 1 else 2
        nm = 2 if s else 1
        pos = self.mine(np.array([np.arccos(rng.uniform(-1, 1, n)), rng.uniform(0, 2 * np.pi, n)]))
        w, fl, bm = self.mine(rng.uniform(.5, 2, n)), self.mine(rng.standard_normal((nm, n))), self.mine(beam(rng, L))
        if v < 2:
            f = must("NmtFieldCatalog", nmt.NmtFieldCatalog, pos, w, fl, L, lmax_mask=L + 1, spin=s, beam=bm)
        else:
            rpos = self.mine(np.array([np.arccos(rng.uniform(-1, 1, 3 * n)), rng.uniform(0, 2 * np.pi, 3 * n)]))
            rw = self.mine(rng.uniform(.5, 2, 3 * n))
            f = must("NmtFieldCatalogClustering", nmt.NmtFieldCatalogClustering, pos, w, rpos, rw, L)
        self.uses = {"alms": lambda: flat(f.get_alms()), "mask_alms": lambda: flat(f.get_mask_alms()), "noise": lambda: flat(f.Nw, f.Nf), "pcl": lambda: nmt.compute_coupled_cell(f, f)}
        F, on = self.faults, np.ones
        if v < 2:
            N = lambda p=pos, q=w, x=fl, l=L, **k: lambda: nmt.NmtFieldCatalog(p, q, x, l, **dict(dict(spin=s, lmax_mask=L + 1, beam=bm), **k))
            F["weights too few"] = N(q=w[:-1])
            F["weights too many"] = N(q=on(n + 1))
            F["field too short"] = N(x=fl[:, :-1])
            F["field too long"] = N(x=on((nm, n + 1)))
            F["three fields"] = N(x=on((3, n)))
            F["fields of another spin"] = N(x=on((3 - nm, n)))
            F["positions 1D"] = N(p=pos[0])
            F["positions transposed"] = N(p=pos.T)
            F["positions 3 rows"] = N(p=on((3, n)))
            F["colatitude out of range"] = N(p=pos + np.array([[4.], [0.]]))
            F["latitudes"] = N(p=np.array([-on(n), pos[1]]), lonlat=False)
            F["degrees out of range"] = N(p=np.array([pos[1], on(n) * 100]), lonlat=True)
            F["beam short"] = N(beam=on(L))
            F["beam a number"] = N(beam=2.)
            F["negative spin"] = N(spin=-1)
            F["negative spin, no values"] = N(x=None, spin=-1)
            F["negative lmax"] = N(l=-3)
            F["maps of a catalog"] = f.get_maps
            F["mask of a catalog"] = f.get_mask
            F["templates of a catalog"] = f.get_templates
            F["alms of a mask"] = lambda: nmt.NmtFieldCatalog(pos, w, None, L, spin=s).get_alms()
        else:
            N = lambda p=pos, q=w, r=rpos, x=rw, l=L, **k: lambda: nmt.NmtFieldCatalogClustering(p, q, r, x, l, **k)
            F["weights too few"] = N(q=w[:-1])
            F["weights too many"] = N(q=on(n + 1))
            F["random weights too few"] = N(x=rw[:-1])
            F["random weights too many"] = N(x=on(3 * n + 1))
            F["positions transposed"] = N(p=pos.T)
            F["random positions transposed"] = N(r=rpos.T)
            F["positions out of range"] = N(p=pos + np.array([[4.], [0.]]))
            F["random positions out of range"] = N(r=rpos + np.array([[4.], [0.]]))
            F["degrees out of range"] = N(p=np.array([pos[1], on(n) * 100]), lonlat=True)
            F["negative lmax"] = N(l=-3)
            F["maps"] = f.get_maps
        F["other lmax"] = lambda: nmt.compute_coupled_cell(f, nmt.NmtFieldCatalog(pos, w, on((1, n)), L + 1, spin=0))
        F["unknown option"] = N(nside=4)


class WorkspaceLab(Base):
    VARIANTS = [0, 1, 2, 3]         # 0x0, 0x2, 2x2 purified, TEB

    def build(self):
        nmt, rng, v = self.nmt, self.rng, self.v
        L = int(rng.integers(4, 7))
        s1, s2 = [(0, 0), (0, 2), (2, 2), (0, 2)][v]
        fld = lambda s, **k: must("NmtField", nmt.NmtField, np.abs(smooth_mask(rng, 4, "smooth")) + .3, rng.standard_normal((2 if s else 1, 192)), spin=s, **dict(dict(lmax=L, lmax_mask=L + 1, n_iter=0, n_iter_mask=0, beam=beam(rng, L)), **k))
        f, g = fld(s1), fld(s2, purify_b=v == 2)
        n = 7 if v == 3 else (2 if s1 else 1) * (2 if s2 else 1)
        sch = [scheme(rng, L, overlap=False, lo=2) for _ in range(3)]
        bins = [must("NmtBin", binlib.construct, q) for q in sch]
        wrong = must("NmtBin", nmt.NmtBin, bpws=np.arange(L + 2) // 2, ells=np.arange(L + 2), weights=np.ones(L + 2), lmax=L + 1)
        less = must("NmtBin", nmt.NmtBin, bpws=np.arange(L) // 2, ells=np.arange(L), weights=np.ones(L), lmax=L - 1)
        w = must("from_fields", nmt.NmtWorkspace.from_fields, f, g, bins[0], is_teb=v == 3)
        must("write_to", w.write_to, self.path("good.fits"))
        cl, c2 = self.mine(rng.normal(size=(n, L + 1))), self.mine(rng.normal(size=(n, L + 1)))
        nr = n * (L + 1)
        M = self.mine(np.diag(rng.uniform(3, 6, nr)) + rng.normal(size=(nr, nr)) * .3)
        bs = [self.mine(beam(rng, L + 1)) for _ in range(2)]
        self.uses = {"matrix": w.get_coupling_matrix, "couple": lambda: w.couple_cell(cl), "decouple": lambda: w.decouple_cell(cl), "decouple with noise": lambda: w.decouple_cell(cl, cl_bias=c2, cl_noise=.5 * c2),
                     "windows": w.get_bandpower_windows, "pcl": lambda: nmt.compute_coupled_cell(f, g)}
        if v != 3:
            self.uses["full"] = lambda: nmt.compute_full_master(f, g, bins[0])
            self.uses["full with it"] = lambda: nmt.compute_full_master(f, g, workspace=w)

        def saved():
            w.write_to(self.path("new.fits"))
            return nmt.NmtWorkspace.from_file(self.path("new.fits")).decouple_cell(cl)
        self.uses["saved and read"] = saved
        self.changes = {"bins 1": lambda: w.update_bins(bins[1]), "bins 2": lambda: w.update_bins(bins[2]), "bins 0": lambda: w.update_bins(bins[0]), "beams": lambda: w.update_beams(bs[0], bs[1]),
                        "beams reversed": lambda: w.update_beams(bs[1], bs[0]), "matrix": lambda: w.update_coupling_matrix(M), "read": lambda: w.read_from(self.path("good.fits")),
                        "compute": lambda: w.compute_coupling_matrix(f, g, bins[1], is_teb=v == 3)}
        F, on = self.faults, np.ones
        o = dict(res=fld2(nmt, rng, 8, L, s2), lmax=fld2(nmt, rng, 4, L + 1, s2), lmask=fld2(nmt, rng, 4, L, s2, lmax_mask=L), nomaps=must("NmtField", nmt.NmtField, on(192), None, spin=s2, lmax=L, lmax_mask=L + 1, n_iter_mask=0),
                 ani=fld(2, mask_22=on(192), mask_12=.1 * on(192)), cat=catalog(rng, s2, L, L + 1))
        C = lambda *a, **k: lambda: w.compute_coupling_matrix(*a, **dict(dict(is_teb=v == 3), **k))
        for k in ("res", "lmax", "lmask"):
            F["compute, other " + k] = C(f, o[k], bins[1])
            F["compute reversed, other " + k] = C(o[k], f, bins[1])
        F["compute, bins too large"] = C(f, g, wrong)
        F["compute, bins too small"] = C(f, g, less)
        F["compute, no bins"] = C(f, g, None)
        F["compute, no field"] = C(f, None, bins[0])
        F["compute, normalisation"] = C(f, g, bins[1], normalization="fkp")
        F["compute, no normalisation"] = C(f, g, bins[1], normalization=None)
        F["compute, FKP of a catalog"] = C(o["cat"], o["cat2"] if "cat2" in o else catalog(rng, s2, L, L + 1), bins[1], normalization="FKP", is_teb=False)
        F["compute, Toeplitz parameters"] = C(f, g, bins[1], l_toeplitz=2, l_exact=3, dl_band=1)
        F["compute, Toeplitz beyond"] = C(f, g, bins[1], l_toeplitz=L + 1, l_exact=2, dl_band=1)
        F["compute, Toeplitz negative"] = C(f, g, bins[1], l_toeplitz=3, l_exact=-2, dl_band=1)
        if v == 2:
            F["compute, Toeplitz purified"] = C(f, g, bins[1], l_toeplitz=L - 1, l_exact=2, dl_band=1)
        F["compute, TEB spins"] = C(g, g, bins[1], is_teb=True) if v else C(f, f, bins[1], is_teb=True)
        F["compute, TEB reversed"] = C(g, f, bins[1], is_teb=True) if v else C(f, g, bins[1], is_teb=True)
        F["compute, TEB anisotropic"] = C(fld(0), o["ani"], bins[1], is_teb=True)
        F["compute, Toeplitz anisotropic"] = C(f, o["ani"], bins[1], is_teb=False, l_toeplitz=L - 1, l_exact=2, dl_band=1)
        F["compute, fields are numbers"] = C(1, 2, bins[0])
        F["bins too large"] = lambda: w.update_bins(wrong)
        F["bins too small"] = lambda: w.update_bins(less)
        F["bins none"] = lambda: w.update_bins(None)
        F["from_fields, nothing"] = lambda: nmt.NmtWorkspace.from_fields(None, None, bins[0])
        for i, x in enumerate([(bs[0][:L], bs[1]), (bs[0], bs[1][:L]), (None, bs[1]), (bs[0], None), (bs[0], 1.), ("ab", bs[0]), (bs[0], ["x"] * (L + 1)), (np.ones((2, L + 1)), bs[1]), ([], []), (bs[0], np.ones((L + 2, 2)))]):
            F["beams %d" % i] = lambda x=x: w.update_beams(*x)
        for sh in ((nr - 1, nr - 1), (nr + 1, nr + 1), (nr, nr - 1), (nr - 1, nr), (nr * nr,), (nr * 2, nr // 2 or 1), (0, 0)):
            F["matrix %s" % (sh,)] = lambda sh=sh: w.update_coupling_matrix(on(sh))
        F["matrix none"] = lambda: w.update_coupling_matrix(None)
        F["matrix complex"] = lambda: w.update_coupling_matrix(M * 1j)
        for sh in ((n, L), (n, 1), (n + 1, L + 1), (max(n - 1, 0), L + 1), (L + 1,) if n > 1 else (L,), (n, L + 1, 1), (n, 0)):
            F["couple %s" % (sh,)] = lambda sh=sh: w.couple_cell(on(sh))
            F["decouple %s" % (sh,)] = lambda sh=sh: w.decouple_cell(on(sh))
            F["decouple noise %s" % (sh,)] = lambda sh=sh: w.decouple_cell(cl, cl_noise=on(sh))
            F["decouple bias %s" % (sh,)] = lambda sh=sh: w.decouple_cell(cl, cl_bias=on(sh))
        F["couple none"] = lambda: w.couple_cell(None)
        F["decouple none"] = lambda: w.decouple_cell(None)
        for k, p in self.bad_files(self.path("good.fits")).items():
            F["read, " + k] = lambda p=p: w.read_from(p)
            if "cut" not in k:                  # what is cut off may not be needed
                F["read without matrix, " + k] = lambda p=p: w.read_from(p, read_unbinned_MCM=False)
            F["from_file, " + k] = lambda p=p: nmt.NmtWorkspace.from_file(p)
        F["read, no name"] = lambda: w.read_from(None)
        for k, p in self.bad_places().items():
            F["write, " + k] = lambda p=p: w.write_to(p)
        for k, x in self.full_disks(w.write_to).items():
            F["write, " + k] = x
        new = lambda: nmt.NmtWorkspace()
        F["new: couple"] = lambda: new().couple_cell(cl)
        F["new: decouple"] = lambda: new().decouple_cell(cl)
        F["new: matrix"] = lambda: new().get_coupling_matrix()
        F["new: windows"] = lambda: new().get_bandpower_windows()
        F["new: write"] = lambda: new().write_to(self.path("bad.fits"))
        F["new: bins"] = lambda: new().update_bins(bins[0])
        F["new: beams"] = lambda: new().update_beams(*bs)
        F["new: set matrix"] = lambda: new().update_coupling_matrix(M)
        part = nmt.NmtWorkspace.from_file(self.path("good.fits"), read_unbinned_MCM=False)
        F["partial: couple"] = lambda: part.couple_cell(cl)
        F["partial: matrix"] = lambda: part.get_coupling_matrix()
        F["partial: windows"] = lambda: part.get_bandpower_windows()
        F["partial: write"] = lambda: part.write_to(self.path("good.fits"))
        F["partial: bins"] = lambda: part.update_bins(bins[1])
        F["partial: beams"] = lambda: part.update_beams(*bs)
        F["partial: set matrix"] = lambda: part.update_coupling_matrix(M)
        self.uses["partial: decouple"] = lambda: part.decouple_cell(cl)
        if v != 3:
            full = lambda *a, **k: lambda: nmt.compute_full_master(*a, **k)
            F["full: nothing"] = full(f, g)
            F["full: other lmax"] = full(f, o["lmax"], bins[0])
            F["full: other lmax, workspace"] = full(f, o["lmax"], workspace=w)
            F["full: other resolution, workspace"] = full(f, o["res"], workspace=w)
            F["full: no maps"] = full(f, o["nomaps"], bins[0])
            F["full: new workspace"] = full(f, g, workspace=new())
            F["full: bins"] = full(f, g, wrong)
            F["full: noise"] = full(f, g, bins[0], cl_noise=on((n, L)))
            F["full: noise number"] = full(f, g, workspace=w, cl_noise=on((n + 1, L + 1)))
            F["full: guess"] = full(f, g, workspace=w, cl_guess=on((n, L)))
            F["full: other spins"] = full(f, fld2(nmt, rng, 4, L, 2 - s2, lmax_mask=L + 1), workspace=w)


def fld2(nmt, rng, ns, L, s, **k):
    return must("NmtField", nmt.NmtField, np.abs(smooth_mask(rng, ns, "smooth")) + .3, rng.standard_normal((2 if s else 1, 12 * ns * ns)), spin=s, lmax=L, n_iter=0, n_iter_mask=0, **k)


class FlatWorkspaceLab(Base):
    VARIANTS = [0, 1, 2]

    def build(self):
        nmt, rng, v = self.nmt, self.rng, self.v
        p = Patch(int(rng.integers(8, 13)), int(rng.integers(8, 13)), float(rng.uniform(.2, .6)), float(rng.uniform(.2, .6)))
        s1, s2 = [(0, 0), (0, 2), (2, 2)][v]
        n = (2 if s1 else 1) * (2 if s2 else 1)
        f, g = p.field(rng, s1, beam=p.beam(rng)), p.field(rng, s2)
        e = np.linspace(.25, .9, 4) * p.lmax()
        b = must("NmtBinFlat", nmt.NmtBinFlat, e[:-1].copy(), e[1:].copy())
        b2 = must("NmtBinFlat", nmt.NmtBinFlat, e[:-2].copy(), e[1:-1].copy())
        w = must("NmtWorkspaceFlat", nmt.NmtWorkspaceFlat)
        must("compute", w.compute_coupling_matrix, f, g, b)
        must("write_to", w.write_to, self.path("good.fits"))
        K = 25
        l = self.mine(np.linspace(0, p.lmax() * 1.1, K))
        th = self.mine(rng.normal(size=(n, K)))
        cl = self.mine(rng.normal(size=(n, 3)))
        self.uses = {"couple": lambda: w.couple_cell(l, th), "decouple": lambda: w.decouple_cell(cl[:, :w.wsp.bin.n_bands]), "noise": lambda: w.decouple_cell(cl[:, :w.wsp.bin.n_bands], cl_noise=.3 * cl[:, :w.wsp.bin.n_bands]),
                     "pcl": lambda: nmt.compute_coupled_cell_flat(f, g, b), "full": lambda: nmt.compute_full_master_flat(f, g, b)}
        self.changes = {"compute": lambda: w.compute_coupling_matrix(f, g, b2), "compute again": lambda: w.compute_coupling_matrix(f, g, b), "read": lambda: w.read_from(self.path("good.fits"))}
        F, on = self.faults, np.ones
        other = p2 = Patch(p.nx + 1, p.ny, p.lx, p.ly).field(rng, s2)
        wide = Patch(p.nx, p.ny, p.lx * 1.5, p.ly).field(rng, s2)
        nomap = p.field(rng, s2, maps=False)
        C = lambda *a, **k: lambda: w.compute_coupling_matrix(*a, **k)
        F["compute, other shape"] = C(f, other, b)
        F["compute, other size"] = C(f, wide, b)
        F["compute reversed, other size"] = C(wide, f, b)
        F["compute, no bins"] = C(f, g, None)
        F["compute, no field"] = C(f, None, b)
        F["compute, TEB spins"] = C(g, g, b, is_teb=True) if v else C(f, f, b, is_teb=True)
        for sh in ((n, K - 1), (n + 1, K), (n, K + 1), (n, K, 1), (K,) if n > 1 else (K - 1,)):
            F["couple %s" % (sh,)] = lambda sh=sh: w.couple_cell(l, on(sh))
        for sh in ((n, 1), (n + 1, 3), (n, 4), (n, 3, 1), (3,) if n > 1 else (4,)):
            F["decouple %s" % (sh,)] = lambda sh=sh: w.decouple_cell(on(sh))
        nb = lambda: w.wsp.bin.n_bands
        F["decouple, noise"] = lambda: w.decouple_cell(on((n, nb())), cl_noise=on((n, nb() + 1)))
        F["decouple, noise number"] = lambda: w.decouple_cell(on((n, nb())), cl_noise=on((n + 1, nb())))
        F["decouple, bias"] = lambda: w.decouple_cell(on((n, nb())), cl_bias=on((n, nb() - 1)))
        F["decouple, bias number"] = lambda: w.decouple_cell(on((n, nb())), cl_bias=on((n + 1, nb())))
        for k, q in self.bad_files(self.path("good.fits")).items():
            F["read, " + k] = lambda q=q: w.read_from(q)
        F["read, no name"] = lambda: w.read_from(None)
        for k, q in self.bad_places().items():
            F["write, " + k] = lambda q=q: w.write_to(q)
        for k, x in self.full_disks(w.write_to).items():
            F["write, " + k] = x
        new = nmt.NmtWorkspaceFlat
        F["new: couple"] = lambda: new().couple_cell(l, th)
        F["new: decouple"] = lambda: new().decouple_cell(cl)
        F["new: write"] = lambda: new().write_to(self.path("bad.fits"))
        full = lambda *a, **k: lambda: nmt.compute_full_master_flat(*a, **k)
        F["full: shape"] = full(f, other, b)
        F["full: size"] = full(f, wide, b)
        F["full: no maps"] = full(f, nomap, b)
        F["full: new workspace"] = full(f, g, b, workspace=new())
        F["full: noise"] = full(f, g, b, cl_noise=on((n, 2)))
        F["full: noise number"] = full(f, g, b, cl_noise=on((n + 1, 3)))
        F["full: guess without multipoles"] = full(f, g, b, cl_guess=th)
        F["full: guess"] = full(f, g, b, cl_guess=th[:, :-1], ells_guess=l)
        F["full: guess number"] = full(f, g, b, cl_guess=on((n + 1, K)), ells_guess=l)


class CovarLab(Base):
    VARIANTS = [0, 1]

    def build(self):
        nmt, rng, v = self.nmt, self.rng, self.v
        L = 5
        fld = lambda s, ns=4, l=L, **k: must("NmtField", nmt.NmtField, np.abs(smooth_mask(rng, ns, "smooth")) + .3, None, spin=s, lmax=l, n_iter_mask=0, **k)
        a, b = fld(0), fld(2)
        f1, f2 = (a, b) if v == 0 else (b, b)
        s1, s2 = f1.spin, f2.spin
        n = (2 if s1 else 1) * (2 if s2 else 1)
        bins = linbins(L)
        wa = must("from_fields", nmt.NmtWorkspace.from_fields, f1, f2, bins)
        wb = must("from_fields", nmt.NmtWorkspace.from_fields, f1, f2, bins)
        c = must("NmtCovarianceWorkspace", nmt.NmtCovarianceWorkspace.from_fields, f1, f2, f1, f2)
        must("write_to", c.write_to, self.path("good.fits"))
        nn = lambda x, y: (2 if x else 1) * (2 if y else 1)
        CL = [self.mine(rng.normal(size=(nn(x, y), L + 1))) for x in (s1, s2) for y in (s1, s2)]
        order = [CL[0], CL[1], CL[2], CL[3]]     # a1b1 a1b2 a2b1 a2b2
        gc = lambda cls=None, spins=(s1, s2, s1, s2), x=None, y=None, cw=None, **k: nmt.gaussian_covariance(cw or c, *spins, *(cls or order), x or wa, wb if y is None else y, **k)
        self.uses = {"covariance": lambda: gc(), "coupled": lambda: gc(coupled=True), "workspace": lambda: wa.decouple_cell(np.ones((n, L + 1)))}

        def saved():
            c.write_to(self.path("new.fits"))
            return gc(cw=nmt.NmtCovarianceWorkspace.from_file(self.path("new.fits")))
        self.uses["saved and read"] = saved
        self.changes = {"compute": lambda: c.compute_coupling_coefficients(f1, f2, f2, f1), "compute again": lambda: c.compute_coupling_coefficients(f1, f2, f1, f2), "read": lambda: c.read_from(self.path("good.fits"))}
        F, on = self.faults, np.ones
        res, lm = fld(s2, ns=8), fld(s2, l=L + 1)
        ani = must("NmtField", nmt.NmtField, on(192), None, spin=2, lmax=L, mask_22=on(192), mask_12=.1 * on(192), n_iter_mask=0)
        C = lambda *x, **k: lambda: c.compute_coupling_coefficients(*x, **k)
        for nme, o in (("resolution", res), ("lmax", lm), ("anisotropic", ani), ("none", None)):
            for i in range(4):
                if nme == "none" and i > 1:
                    continue
                F["compute, %s %d" % (nme, i)] = C(*[o if i == j else f1 for j in range(4)])
        F["compute, Toeplitz"] = C(f1, f2, f1, f2, l_toeplitz=2, l_exact=3, dl_band=1)
        F["compute, Toeplitz beyond"] = C(f1, f2, f1, f2, l_toeplitz=L + 1, l_exact=2, dl_band=1)
        for k, q in self.bad_files(self.path("good.fits")).items():
            F["read, " + k] = lambda q=q: c.read_from(q)
            if "cut" not in k:                  # what is cut off may not be needed
                F["read for spin 0, " + k] = lambda q=q: c.read_from(q, force_spin0_only=True)
            F["from_file, " + k] = lambda q=q: nmt.NmtCovarianceWorkspace.from_file(q)
        F["read, no name"] = lambda: c.read_from(None)
        for k, q in self.bad_places().items():
            F["write, " + k] = lambda q=q: c.write_to(q)
        for k, x in self.full_disks(c.write_to).items():
            F["write, " + k] = x
        new = nmt.NmtCovarianceWorkspace
        F["new: write"] = lambda: new().write_to(self.path("bad.fits"))
        F["new: covariance"] = lambda: gc(cw=new())
        F["new: workspace"] = lambda: gc(x=nmt.NmtWorkspace())
        F["new: other workspace"] = lambda: gc(y=nmt.NmtWorkspace())
        F["spins"] = lambda: gc(spins=(s1, s1, s1, s2)) if v == 0 else gc(spins=(0, 2, 2, 2))
        F["other spins"] = lambda: gc(spins=(s2, s2, s1, s2)) if v == 0 else gc(spins=(2, 2, 0, 0))
        for i in range(4):
            for sh in ((CL[i].shape[0], L), (CL[i].shape[0] + 1, L + 1), (CL[i].shape[0], L + 1, 1)):
                F["guess %d %s" % (i, sh)] = lambda i=i, sh=sh: gc(cls=[on(sh) if j == i else x for j, x in enumerate(order)])
        w2 = must("from_fields", nmt.NmtWorkspace.from_fields, *[fld(s, l=L + 1) for s in (s1, s2)], linbins(L + 1))
        w0 = must("from_fields", nmt.NmtWorkspace.from_fields, a, a, bins)
        F["workspace of another lmax"] = lambda: gc(x=w2)
        F["second workspace of another lmax"] = lambda: gc(y=w2)
        F["workspace of other spins"] = lambda: gc(x=w0)
        F["second workspace of other spins"] = lambda: gc(y=w0)
        part = nmt.NmtCovarianceWorkspace.from_file(self.path("good.fits"), force_spin0_only=True)
        F["spin-0 part: covariance"] = lambda: gc(cw=part)
        must("write", wa.write_to, self.path("w.fits"))
        pw = nmt.NmtWorkspace.from_file(self.path("w.fits"), read_unbinned_MCM=False)
        F["partial workspace, coupled"] = lambda: gc(x=pw, coupled=True)


class FlatCovarLab(Base):
    VARIANTS = [0, 1]

    def build(self):
        nmt, rng, v = self.nmt, self.rng, self.v
        p = Patch(8, 9, .5, .4)
        s1, s2 = [(0, 2), (2, 2)][v]
        f1 = p.field(rng, s1, maps=False)
        f2 = p.field(rng, s2, maps=False)
        e = np.linspace(.25, .9, 4) * p.lmax()
        b = must("NmtBinFlat", nmt.NmtBinFlat, e[:-1].copy(), e[1:].copy())
        b2 = must("NmtBinFlat", nmt.NmtBinFlat, e[:-2].copy(), e[1:-1].copy())
        mk = lambda x, y, bb: (lambda w: (must("compute", w.compute_coupling_matrix, x, y, bb), w)[1])(nmt.NmtWorkspaceFlat())
        wa, wb, wd = mk(f1, f2, b), mk(f1, f2, b), mk(f1, f2, b2)
        c = nmt.NmtCovarianceWorkspaceFlat()
        must("compute", c.compute_coupling_coefficients, f1, f2, b, f1, f2, b)
        must("write_to", c.write_to, self.path("good.fits"))
        K = 15
        l = self.mine(np.linspace(0, p.lmax() * 1.1, K))
        nn = lambda x, y: (2 if x else 1) * (2 if y else 1)
        CL = [self.mine(rng.normal(size=(nn(x, y), K))) for x in (s1, s2) for y in (s1, s2)]
        gc = lambda cls=None, spins=(s1, s2, s1, s2), x=None, y=None, cw=None, ll=l: nmt.gaussian_covariance_flat(cw or c, *spins, ll, *(cls or CL), x or wa, y or wb)
        self.uses = {"covariance": gc, "workspace": lambda: wa.couple_cell(l, np.ones((nn(s1, s2), K)))}
        self.changes = {"compute": lambda: c.compute_coupling_coefficients(f2, f1, b, f1, f2, b), "read": lambda: c.read_from(self.path("good.fits"))}
        F, on = self.faults, np.ones
        other, wide = Patch(9, 9, .5, .4).field(rng, s2, maps=False), Patch(8, 9, .6, .4).field(rng, s2, maps=False)
        C = lambda *x: lambda: c.compute_coupling_coefficients(*x)
        for nme, o in (("shape", other), ("size", wide), ("none", None)):
            for i in range(4):
                if nme == "none" and i > 1:
                    continue
                q = [o if i == j else f1 for j in range(4)]
                F["compute, %s %d" % (nme, i)] = C(q[0], q[1], b, q[2], q[3], b)
        F["compute, no bands"] = C(f1, f2, None, f1, f2, b)
        for k, q in self.bad_files(self.path("good.fits")).items():
            F["read, " + k] = lambda q=q: c.read_from(q)
        F["read, no name"] = lambda: c.read_from(None)
        for k, q in self.bad_places().items():
            F["write, " + k] = lambda q=q: c.write_to(q)
        for k, x in self.full_disks(c.write_to).items():
            F["write, " + k] = x
        new = nmt.NmtCovarianceWorkspaceFlat
        F["new: write"] = lambda: new().write_to(self.path("bad.fits"))
        F["new: covariance"] = lambda: gc(cw=new())
        F["new: workspace"] = lambda: gc(x=nmt.NmtWorkspaceFlat())
        F["bands of another number"] = lambda: gc(x=wd)
        F["second bands of another number"] = lambda: gc(y=wd)
        F["spins"] = lambda: gc(spins=(s1, s1, s1, s2)) if v == 0 else gc(spins=(0, 2, 2, 2))
        for i in range(4):
            for sh in ((CL[i].shape[0], K - 1), (CL[i].shape[0] + 1, K), (CL[i].shape[0], K, 1)):
                F["guess %d %s" % (i, sh)] = lambda i=i, sh=sh: gc(cls=[on(sh) if j == i else x for j, x in enumerate(CL)])


class SimLab(Base):
    VARIANTS = [0]

    def build(self):
        nmt, rng = self.nmt, self.rng
        L = 8
        cl = self.mine(np.array([np.ones(L + 1), .2 * np.ones(L + 1), .1 * np.ones(L + 1), np.ones(L + 1), .1 * np.ones(L + 1), np.ones(L + 1)]))
        bm = self.mine(np.ones((2, L + 1)))
        m = self.mine((rng.random(192) < .8).astype(float))
        fm = self.mine((rng.random((9, 8)) < .8).astype(float))
        A = self.mine(np.array([[2., 1., 0], [1, 2, 0], [0, 0, 3]]))
        sp = [0, 2]
        self.uses = {"synfast": lambda: nmt.synfast_spherical(4, cl, sp, beam=bm, seed=12), "synfast_flat": lambda: nmt.synfast_flat(8, 9, .4, .5, cl, sp, beam=bm, seed=12), "apodise": lambda: nmt.mask_apodization(m, 20., "C1"),
                     "smooth": lambda: nmt.mask_apodization(m, 5., "Smooth"), "apodise flat": lambda: nmt.mask_apodization_flat(fm, .5, .5, 5., "C2"), "pinv": lambda: nmt.utils.moore_penrose_pinvh(A, 1e-5)}
        F, on = self.faults, np.ones
        S = lambda *a, **k: lambda: nmt.synfast_spherical(*a, **k)
        F["synfast, spectra"] = S(4, cl[:5], sp, seed=1)
        F["synfast, more spectra"] = S(4, on((7, L + 1)), sp, seed=1)
        F["synfast, spectra 1D"] = S(4, cl[0], sp, seed=1)
        F["synfast, no spins"] = S(4, cl, [], seed=1)
        F["synfast, spin -2"] = S(4, cl, [0, -2], seed=1)
        F["synfast, three spins"] = S(4, cl, [0, 0, 2], seed=1)
        F["synfast, beam"] = S(4, cl, sp, beam=on((1, L + 1)), seed=1)
        F["synfast, beam length"] = S(4, cl, sp, beam=on((2, L)), seed=1)
        F["synfast, nside 3"] = S(3, cl, sp, seed=1)
        F["synfast, nside 0"] = S(0, cl, sp, seed=1)
        F["synfast, nside -4"] = S(-4, cl, sp, seed=1)
        S2 = lambda *a, **k: lambda: nmt.synfast_flat(*a, **k)
        F["synfast_flat, spectra"] = S2(8, 9, .4, .5, cl[:5], sp, seed=1)
        F["synfast_flat, more spectra"] = S2(8, 9, .4, .5, on((7, L + 1)), sp, seed=1)
        F["synfast_flat, spectra 1D"] = S2(8, 9, .4, .5, cl[0], sp, seed=1)
        F["synfast_flat, beam"] = S2(8, 9, .4, .5, cl, sp, beam=on((1, L + 1)), seed=1)
        F["synfast_flat, beam length"] = S2(8, 9, .4, .5, cl, sp, beam=on((2, L)), seed=1)
        F["synfast_flat, nx 0"] = S2(0, 9, .4, .5, cl, sp, seed=1)
        F["synfast_flat, ny -1"] = S2(8, -1, .4, .5, cl, sp, seed=1)
        F["synfast_flat, lx 0"] = S2(8, 9, 0., .5, cl, sp, seed=1)
        F["synfast_flat, ly -1"] = S2(8, 9, .4, -1., cl, sp, seed=1)
        F["synfast_flat, spin -2"] = S2(8, 9, .4, .5, cl, [0, -2], seed=1)
        P = lambda *a: lambda: nmt.mask_apodization(*a)
        for s in (-3., -1e-9):
            F["apodise by %g" % s] = P(m, s, "C1")
        F["apodise, type"] = P(m, 2., "C3")
        F["apodise, no type"] = P(m, 2., None)
        F["apodise, no resolution"] = P(m[:-1], 2., "C1")
        F["apodise, 2D"] = P(np.array([m, m]), 2., "C1")
        P2 = lambda *a: lambda: nmt.mask_apodization_flat(*a)
        for s in (-3., -1e-9):
            F["apodise flat by %g" % s] = P2(fm, .5, .5, s, "C1")
        F["apodise flat, type"] = P2(fm, .5, .5, 2., "C3")
        F["apodise flat, 1D"] = P2(fm.flatten(), .5, .5, 2., "C1")
        F["apodise flat, 3D"] = P2(fm[None], .5, .5, 2., "C1")
        F["apodise flat, lx"] = P2(fm, -.5, .5, 2., "C1")
        F["apodise flat, ly"] = P2(fm, .5, 0., 2., "C1")
        F["pinv, rectangular"] = lambda: nmt.utils.moore_penrose_pinvh(A[:2], 1e-5)
        F["pinv, vector"] = lambda: nmt.utils.moore_penrose_pinvh(A[0], 1e-5)
        F["calculator"] = lambda: nmt.set_sht_calculator("libsharp")
        F["n_iter -1"] = lambda: nmt.set_n_iter_default(-1)
        F["n_iter_mask -1"] = lambda: nmt.set_n_iter_default(-1, mask=True)
        F["tolerance 2"] = lambda: nmt.set_tol_pinv_default(2.)
        F["tolerance -1"] = lambda: nmt.set_tol_pinv_default(-1.)
        mi = nmt.NmtMapInfo(None, [192])
        ai = nmt.NmtAlmInfo(5)
        self.uses["map2alm"] = lambda: flat(nmt.utils.map2alm(m[None], 0, mi, ai, n_iter=1))
        self.uses["params"] = lambda: flat(*[x for x in nmt.get_default_params().values() if not isinstance(x, str)])
        F["map info, no resolution"] = lambda: nmt.NmtMapInfo(None, [191])
        F["map info, two axes"] = lambda: nmt.NmtMapInfo(None, [16, 12])


LABS = dict(bins=BinLab, binsflat=FlatBinLab, field=FieldLab, fieldflat=FlatFieldLab, catalog=CatalogLab, workspace=WorkspaceLab, workspaceflat=FlatWorkspaceLab, covar=CovarLab, covarflat=FlatCovarLab, sim=SimLab)


def prints(x):
    """long answers are sent as moments and projections"""
    x = np.asarray(x, float).ravel()
    if len(x) <= 24 or not np.isfinite(x).all():
        return x
    r = np.random.default_rng(len(x))
    return np.concatenate([[len(x), x.sum(), np.abs(x).max()], [np.dot(r.choice([-1., 1.], len(x)), x) for _ in range(9)]])


def script(c, rng, lab):
    U, C, F = (list(d) for d in (lab.uses, lab.changes, lab.faults))
    pick = lambda x: x[int(rng.integers(len(x)))]
    out = []
    if c["kind"] == "catalogue":
        fs = [F[i] for i in rng.permutation(len(F))]
        for f in fs:
            out += [("F", f), ("U", pick(U))]
            if C and rng.random() < .15:
                out.append(("C", pick(C)))
        out += [("U", u) for u in U]
    elif c["kind"] == "model":
        for h in c["beh"]:
            item = {(t, k): pick(x) for t, x in (("U", U), ("C", C or U), ("F", F)) for k in (1, 2)}
            out += [(x["t"] if C or x["t"] != "C" else "U", item[x["t"], x["k"]]) for x in h]
            out.append(("U", pick(U)))
    else:
        for _ in range(c["n"]):
            t = rng.choice(["U", "C", "F"], p=[.35, .15, .5])
            x = dict(U=U, C=C, F=F)[t]
            if x:
                out.append((t, pick(x)))
        out += [("U", u) for u in U]
    return out


def perform(lab, sc, faults):
    ev, last = [], "nothing"
    for t, k in sc:
        if t == "F":
            if faults:
                last = k
                _, err = attempt(k, lab.faults[k])
                ev.append(dict(op="Fault", name=k, err=err))
        else:
            o, err = attempt("%s (after %s)" % (k, last), (lab.uses if t == "U" else lab.changes)[k])
            ev.append(dict(op="Good", name=k, err=err, after=last, out=[] if err or t == "C" else hx(prints(o))))
    return ev


def gen(tier, seed):
    rng = np.random.default_rng([241, seed])
    beh = binlib.behaviours()
    cs = []
    kinds = [(k, v) for k in LABS for v in LABS[k].VARIANTS]
    add = lambda k, v, **x: cs.append(dict(tag="%s%d.%d" % (k, v, len(cs)), lab=k, variant=v, seed=[seed, len(cs)], **x))
    for r in range(1 if tier == "quick" else 6):
        for k, v in kinds:
            add(k, v, kind="catalogue")
    if beh:
        for i, b in enumerate(binlib.chunks([beh[i] for i in rng.permutation(len(beh))], 12)):
            add(*kinds[i % len(kinds)], kind="model", beh=b)
    for r in range(1 if tier == "quick" else 8):
        for k, v in kinds:
            add(k, v, kind="random", n=25 if tier == "quick" else 60)
    return cs


def run(c):
    L = LABS[c["lab"]]
    name = "f" + "_".join(str(x) for x in c["seed"])
    lab = L(c["seed"], c["variant"], name)
    sc = script(c, np.random.default_rng([242] + c["seed"]), lab)
    clean = perform(lab, sc, False)
    lab.close()
    lab = L(c["seed"], c["variant"], name)
    ev = perform(lab, sc, True)
    lab.close()
    return dict(ev=ev + [dict(op="End")], clean=[dict(name=x["name"], err=x["err"], out=x["out"]) for x in clean], tol="1e-9")
