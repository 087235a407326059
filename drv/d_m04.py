"""M04: coupling matrices of anisotropically weighted fields."""
import numpy as np
from fldlib import *


def gen(tier, seed):
    rng = np.random.default_rng([241, seed])
    th = tier == "thorough"
    cs = []
    sp = [(0, 1), (0, 2), (0, 3), (1, 0), (2, 0), (3, 0), (1, 1), (2, 2), (1, 2), (2, 1), (1, 3), (3, 2), (3, 3), (4, 2)]
    for r in range(2 if not th else 14):
        for s in sp:
            ways = [x for x in ((1, 1), (1, 0), (0, 1)) if all(s[i] > 0 or not x[i] for i in (0, 1))]
            for an in ways:
                L = int(rng.integers(max(s), 6))
                cs.append(dict(tag="an%d%d.%d%d.%d" % (s + an + (r,)), kind="aniso", s=list(s), an=list(an), lmax=L, lmask=int(rng.integers(max(2 * max(s), 2), 2 * L + 3)),
                               same=int(s[0] == s[1] and an[0] == an[1] and rng.random() < .4)))
        for s in sp:
            L = int(rng.integers(max(s), 6))
            cs.append(dict(tag="iso%d%d.%d" % (s + (r,)), kind="iso", s=list(s), an=[int(s[0] > 0), int(s[1] > 0)], lmax=L, lmask=2 * L + 2, same=0))
    for i, c in enumerate(cs):
        c["seed"] = [seed, i]
    return cs


def run(c):
    import pymaster as nmt
    rng = np.random.default_rng([242] + c["seed"])
    L, M = c["lmax"], c["lmask"]
    ns = 4

    def field(s, an):
        a = 1 + smooth_mask(rng, ns, "white")
        kw = {}
        if an:
            if c["kind"] == "iso":
                kw = dict(mask_22=a.copy(), mask_12=0 * a)
            else:
                b = 1 + smooth_mask(rng, ns, "smooth") ** 2 * .3 + smooth_mask(rng, ns, "white")
                kw = dict(mask_22=b, mask_12=np.sqrt(a * b) * .9 * (2 * smooth_mask(rng, ns, "white") - 1) * np.sign(smooth_mask(rng, ns, "signed")))
        u = unit(rng)
        a, kw = a * u, {k: x * u for k, x in kw.items()}
        maps = rng.standard_normal((2 if s else 1, 12 * ns**2)) if rng.random() < .3 else None
        f = must("NmtField", nmt.NmtField, a, maps, spin=s, lmax=L, lmax_mask=M, n_iter_mask=1, n_iter=0, beam=beam(rng, L) if rng.random() < .5 else None,
                 lite=bool(rng.random() < .3), **kw)
        g = must("NmtField", nmt.NmtField, a, None, spin=s, lmax=L, lmax_mask=M, n_iter_mask=1, beam=f.beam)
        return f, g
    f1, g1 = field(c["s"][0], c["an"][0])
    f2, g2 = (f1, g1) if c["same"] else field(c["s"][1], c["an"][1])
    b = linbins(L, 1)
    w = must("from_fields", nmt.NmtWorkspace.from_fields, f1, f2, b, normalization="FKP" if rng.random() < .3 else "MASTER")
    m = matrix(w)

    def alms(f):
        a = [hx(must("get_mask_alms", f.get_mask_alms))]
        if f.anisotropic_mask:
            a += [hx(x) for x in must("get_anisotropic_mask_alms", f.get_anisotropic_mask_alms)]
        return a
    ev = [dict(op="Aniso", s=c["s"], lmax=L, lmask=M, a1=alms(f1), a2=alms(f2), mat=hx(m))]
    if c["kind"] == "iso":
        v = must("from_fields", nmt.NmtWorkspace.from_fields, g1, g2, b)
        ev.append(dict(op="Equal", a=hx(m), b=hx(matrix(v))))
    return dict(ev=ev)
