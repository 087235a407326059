"""M01: coupling matrices of unpurified fields of every pair of spins."""
import numpy as np
from fldlib import *

PAIRS = [(a, b) for a in range(5) for b in range(5)]


def gen(tier, seed):
    rng = np.random.default_rng([201, seed])
    th = tier == "thorough"
    cs = []
    reps = 2 if not th else 12
    for r in range(reps):
        for s1, s2 in PAIRS:
            lm = int(rng.integers(max(s1, s2, 1), 8))
            cs.append(dict(tag="full:%d%d.%d" % (s1, s2, r), kind="full", s=[s1, s2], lmax=lm, lmask=int(rng.integers(1, 2 * lm + 3)),
                           nside=int(rng.choice([2, 4])), same=int(s1 == s2 and rng.random() < .4), teb=0))
        for s in range(1, 5):
            lm = int(rng.integers(s, 7))
            cs.append(dict(tag="teb:%d.%d" % (s, r), kind="teb", s=[0, s], lmax=lm, lmask=int(rng.integers(1, 2 * lm + 3)), nside=4, same=0, teb=1))
        for s in (0, 1, 2, 3):
            lm = int(rng.integers(max(s, 2), 7))
            cs.append(dict(tag="cat:%d.%d" % (s, r), kind="catalog", s=[s, s], lmax=lm, lmask=lm + int(rng.integers(0, 4)), same=1, teb=0, cat=2))
            cs.append(dict(tag="catx:%d.%d" % (s, r), kind="catalog", s=[s, s], lmax=lm, lmask=lm + int(rng.integers(0, 4)), same=0, teb=0, cat=2, twin=int(rng.random() < .5)))
            cs.append(dict(tag="catm:%d.%d" % (s, r), kind="catalog", s=[s, int(rng.integers(0, 3))], lmax=lm, lmask=lm + 2, nside=4, same=0, teb=0, cat=1))
    big = [(0, 0), (0, 2), (2, 0), (2, 2), (1, 2), (0, 1), (3, 1), (0, 0), (2, 2)]
    for r in range(1 if not th else 4):
        for j, (s1, s2) in enumerate(big):
            ns = 32 if not th else int(rng.choice([16, 32, 64]))
            lm = int(rng.integers(ns, 3 * ns))
            cs.append(dict(tag="large:%d%d.%d.%d" % (s1, s2, j, r), kind="large", s=[s1, s2], lmax=lm, lmask=int(rng.integers(lm // 2, 3 * ns)), nside=ns,
                           same=0, teb=int(s1 == 0 and s2 > 0 and j % 2), nent=16 if not th else 40))
    for i, c in enumerate(cs):
        c["seed"] = [seed, i]
    return cs


def run(c):
    import pymaster as nmt
    rng = np.random.default_rng([202] + c["seed"])
    s1, s2 = c["s"]
    L, M = c["lmax"], c["lmask"]
    st = rng.bit_generator.state

    def field(s, cat):
        if cat:
            return catalog(rng, s, L, M)
        return must("NmtField", nmt.NmtField, smooth_mask(rng, c["nside"], rng.choice(MASKS)) * unit(rng), None, spin=s, lmax=L, lmax_mask=M, n_iter_mask=1,
                    beam=beam(rng, L) if rng.random() < .5 else None, lite=bool(rng.random() < .3))
    f1 = field(s1, c.get("cat", 0) >= 1)
    if c["same"]:
        f2 = f1
    elif c.get("twin"):
        rng.bit_generator.state = st
        f2 = field(s2, True)                                  # the same catalog in another object
    else:
        f2 = field(s2, c.get("cat", 0) >= 2)
    w = must("from_fields", nmt.NmtWorkspace.from_fields, f1, f2, linbins(L, int(rng.integers(1, 4))), is_teb=bool(c["teb"]),
             normalization="FKP" if (c.get("cat", 0) == 0 and rng.random() < .3) else "MASTER")
    m = matrix(w)
    e = dict(op="Matrix", s=c["s"], teb=c["teb"], lmax=L, lmask=M, same=c["same"], alm1=hx(must("get_mask_alms", f1.get_mask_alms)),
             alm2=hx(must("get_mask_alms", f2.get_mask_alms)), noise=[hx(float(getattr(f1, "Nw", 0))), hx(float(getattr(f2, "Nw", 0)))])
    if c["kind"] != "large":
        e["mat"] = hx(m)
    else:
        nc = m.shape[0] // (L + 1)
        e["op"] = "Entries"
        e["shape"] = ints(m.shape)
        e["top"] = hx(np.abs(m).max())
        lks = [(L, L), (L, L - 1), (0, L), (L, 0), (2, 2), (L // 2, L // 2 + 1)]
        while len(lks) < c["nent"]:
            a = int(rng.integers(0, L + 1))
            lks.append((a, int(rng.integers(0, L + 1)) if rng.random() < .3 else int(np.clip(a + rng.integers(-8, 9), 0, L))))
        e["ents"] = [dict(l=int(l), k=int(k), v=hx(m[nc * l:nc * (l + 1), nc * k:nc * (k + 1)])) for l, k in lks]
        e["finite"] = int(np.isfinite(m).all())
    return dict(ev=[e])
