"""M03: Toeplitz-approximated coupling matrices, and which parameters are accepted."""
import numpy as np
from fldlib import *


def gen(tier, seed):
    rng = np.random.default_rng([231, seed])
    th = tier == "thorough"
    cs = []
    sp = [(0, 0), (0, 2), (2, 0), (2, 2), (1, 2), (0, 1), (1, 1), (3, 0), (1, 3), (2, 4)]
    for r in range(5 if not th else 40):
        for j, s in enumerate(sp):
            L = int(rng.integers(max(s + (3,)), 13 if r % 5 else 24))
            lt = int(rng.integers(1, L))
            le = int(rng.integers(1, lt + 1))
            db = int(rng.integers(0, L)) if rng.random() < .5 else int(rng.integers(0, 4))
            cs.append(dict(tag="t%d%d.%d" % (s + (r,)), kind="toeplitz", s=list(s), lmax=L, lmask=int(rng.integers(1, 2 * L + 3)), t=[lt, le, min(db, L - 1)],
                           teb=int(s[0] == 0 and s[1] > 0 and rng.random() < .5), same=int(s[0] == s[1] and rng.random() < .3)))
        for j in range(6):
            L = int(rng.integers(4, 10))
            t = [int(x) for x in rng.integers(-1, L + 2, 3)]
            t[0] = max(t[0], 1)
            cs.append(dict(tag="any.%d.%d" % (r, j), kind="any", s=[0, 2 * (j % 2)], lmax=L, lmask=L, t=t, teb=0, same=0))
    cs.append(dict(tag="refuse", kind="refuse"))
    for i, c in enumerate(cs):
        c["seed"] = [seed, i]
    return cs


def run(c):
    import pymaster as nmt
    rng = np.random.default_rng([232] + c["seed"])
    if c["kind"] == "refuse":
        ev = []
        n = 12 * 16
        f0 = nmt.NmtField(np.ones(n), None, spin=0, lmax=6, lmax_mask=6)
        fa = nmt.NmtField(np.ones(n), None, spin=2, lmax=6, lmax_mask=6, mask_22=2 * np.ones(n), mask_12=.1 * np.ones(n))
        b = linbins(6, 2)
        for e, bb in ((1, 0), (0, 1), (1, 1)):
            fp = nmt.NmtField(np.ones(n), None, spin=2, lmax=6, lmax_mask=6, purify_e=bool(e), purify_b=bool(bb))
            for x, y in ((f0, fp), (fp, f0), (fp, fp)):
                _, err = attempt("from_fields", nmt.NmtWorkspace.from_fields, x, y, b, l_toeplitz=4, l_exact=2, dl_band=1)
                ev.append(dict(op="Refused", call="Toeplitz with purification", err=err))
        for x, y in ((f0, fa), (fa, f0), (fa, fa)):
            _, err = attempt("from_fields", nmt.NmtWorkspace.from_fields, x, y, b, l_toeplitz=4, l_exact=2, dl_band=1)
            ev.append(dict(op="Refused", call="Toeplitz with anisotropic weights", err=err))
        return dict(ev=ev)
    L, M = c["lmax"], c["lmask"]
    kinds = ["white", "binary", "smooth", "cap"]

    def field(s):
        return must("NmtField", nmt.NmtField, smooth_mask(rng, 4, rng.choice(kinds)) * unit(rng), None, spin=s, lmax=L, lmax_mask=M, n_iter_mask=1, beam=beam(rng, L) if rng.random() < .5 else None)
    f1 = field(c["s"][0])
    f2 = f1 if c["same"] else field(c["s"][1])
    t = c["t"]
    kw = dict(l_toeplitz=t[0], l_exact=t[1], dl_band=t[2])
    b = linbins(L, int(rng.integers(1, 4)))
    how = int(rng.integers(0, 3))
    if how == 0:
        w, err = attempt("from_fields", nmt.NmtWorkspace.from_fields, f1, f2, b, is_teb=bool(c["teb"]), **kw)
    elif how == 1:
        w, err = attempt("NmtWorkspace", nmt.NmtWorkspace, f1, f2, b, is_teb=bool(c["teb"]), **kw)
    else:
        w = nmt.NmtWorkspace()
        _, err = attempt("compute_coupling_matrix", w.compute_coupling_matrix, f1, f2, b, is_teb=bool(c["teb"]), **kw)
    e = dict(op="Toeplitz", s=c["s"], teb=c["teb"], lmax=L, lmask=M, same=c["same"], t=t, err=err, alm1=hx(f1.get_mask_alms()), alm2=hx(f2.get_mask_alms()),
             noise=[hx(0.), hx(0.)], mat=hx(matrix(w)) if not err else [])
    return dict(ev=[e])
