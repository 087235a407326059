"""C01: coupling matrices of catalog fields of every spin, of the multipoles and the noise of their masks."""
import numpy as np
from fldlib import *


def gen(tier, seed):
    rng = np.random.default_rng([403, seed])
    cs = []
    for r in range(1 if tier == "quick" else 12):
        for s1 in range(4):
            for s2 in range(4):
                for how in ("same", "twin", "other", "map") if s1 == s2 else ("other", "map"):
                    cs.append(dict(tag="%d%d%s.%d" % (s1, s2, how, r), kind="cat", s=[s1, s2], how=how, lmax=int(rng.integers(max(s1, s2, 2), 5)), lmask=int(rng.integers(3, 8)), same=int(how == "same"),
                                   only=int(rng.random() < .3), seed=[seed, len(cs)]))
    return cs


def run(c):
    import pymaster as nmt
    rng = np.random.default_rng([404] + c["seed"])
    L, M = c["lmax"], c["lmask"]

    def cat(s, seed):
        r = np.random.default_rng(seed)
        n = 5
        pos = np.array([np.arccos(r.uniform(-1, 1, n)), r.uniform(0, 2 * np.pi, n)])
        w = r.uniform(.5, 2, n)
        f = None if c["only"] else r.standard_normal((2 if s else 1, n))
        return must("NmtFieldCatalog", nmt.NmtFieldCatalog, pos, w, f, L, lmax_mask=M, spin=s, beam=r.uniform(.5, 2, L + 1)), float((w**2).sum() / (4 * np.pi))
    s1, s2 = c["s"]
    f, nw = cat(s1, c["seed"])
    g = f if c["how"] == "same" else cat(s2, c["seed"])[0] if c["how"] == "twin" else cat(s2, c["seed"] + [1])[0] if c["how"] == "other" else \
        must("NmtField", nmt.NmtField, smooth_mask(rng, 2, "white"), None, spin=s2, lmax=L, lmax_mask=M, n_iter_mask=0)
    if c["how"] == "map" and rng.random() < .5:
        f, g = g, f
    w = must("from_fields", nmt.NmtWorkspace.from_fields, f, g, linbins(L, 1))
    return dict(ev=[dict(op="Matrix", s=[int(f.spin), int(g.spin)], teb=0, lmax=L, lmask=M, same=c["same"], alm1=hx(must("get_mask_alms", f.get_mask_alms)), alm2=hx(must("get_mask_alms", g.get_mask_alms)),
                         noise=[hx(nw), hx(0.)], mat=hx(matrix(w)))])
