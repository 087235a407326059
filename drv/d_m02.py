"""M02: coupling matrices of purified fields."""
import numpy as np
from fldlib import *

PUR = [(1, 0), (0, 1), (1, 1)]
NO = (0, 0)


def gen(tier, seed):
    rng = np.random.default_rng([211, seed])
    th = tier == "thorough"
    cs = []

    def add(tag, s, q1, q2, **k):
        L = k.pop("lmax", int(rng.integers(max(s + (2,)), 8)))
        cs.append(dict(tag=tag, kind=k.pop("kind", "full"), s=list(s), q1=list(q1), q2=list(q2), lmax=L, lmask=k.pop("lmask", int(rng.integers(2, 2 * L + 3))),
                       nside=k.pop("nside", int(rng.choice([2, 4]))), same=k.pop("same", 0), teb=k.pop("teb", 0), **k))
    for r in range(1 if not th else 8):
        for q1 in PUR + [NO]:
            for q2 in PUR + [NO]:
                if q1 != NO or q2 != NO:
                    add("22:%d%d%d%d.%d" % (q1 + q2 + (r,)), (2, 2), q1, q2)
            if q1 != NO:
                add("auto:%d%d.%d" % (q1 + (r,)), (2, 2), q1, q1, same=1)
                for o in (0, 1, 3, 4):
                    add("%d2:%d%d.%d" % ((o,) + q1 + (r,)), (o, 2), NO, q1)
                    add("2%d:%d%d.%d" % ((o,) + q1 + (r,)), (2, o), q1, NO)
                add("teb:%d%d.%d" % (q1 + (r,)), (0, 2), NO, q1, teb=1)
        for o in (0, 2, 3, 1):
            for q in PUR:
                ns = int(rng.choice([16, 32]))
                L = int(rng.integers(ns, 3 * ns))
                add("large%d:%d%d.%d" % ((o,) + q + (r,)), (o, 2), PUR[int(rng.integers(0, 3))] if o == 2 else NO, q, lmax=L,
                    lmask=int(rng.integers(L // 2, 3 * ns)), nside=ns, kind="large", teb=int(o == 0 and rng.random() < .5), nent=10 if not th else 30)
    for i, c in enumerate(cs):
        c["seed"] = [seed, i]
    return cs


def run(c):
    import pymaster as nmt
    rng = np.random.default_rng([212] + c["seed"])
    L, M = c["lmax"], c["lmask"]

    def field(s, q):
        n = 12 * c["nside"]**2
        maps = None
        if rng.random() < .4:
            maps = rng.standard_normal((2 if s else 1, n))
        return must("NmtField", nmt.NmtField, smooth_mask(rng, c["nside"], rng.choice(MASKS)) * unit(rng), maps, spin=s, lmax=L, lmax_mask=M, n_iter_mask=1, n_iter=0,
                    purify_e=bool(q[0]), purify_b=bool(q[1]), beam=beam(rng, L) if rng.random() < .5 else None, lite=bool(rng.random() < .3))
    f1 = field(c["s"][0], c["q1"])
    f2 = f1 if c["same"] else field(c["s"][1], c["q2"])
    w = must("from_fields", nmt.NmtWorkspace.from_fields, f1, f2, linbins(L, int(rng.integers(1, 4))), is_teb=bool(c["teb"]))
    m = matrix(w)
    e = dict(op="MatrixP", s=c["s"], q1=c["q1"], q2=c["q2"], teb=c["teb"], lmax=L, lmask=M, same=c["same"], alm1=hx(f1.get_mask_alms()), alm2=hx(f2.get_mask_alms()),
             noise=[hx(0.), hx(0.)])
    if c["kind"] != "large":
        e["mat"] = hx(m)
    else:
        nc = m.shape[0] // (L + 1)
        e["op"] = "EntriesP"
        e["shape"] = ints(m.shape)
        lks = [(L, L), (L, L - 1), (2, 3), (3, 2), (2, L)]
        while len(lks) < c["nent"]:
            a = int(rng.integers(0, L + 1))
            lks.append((a, int(np.clip(a + rng.integers(-8, 9), 0, L))))
        e["ents"] = [dict(l=int(l), k=int(k), v=hx(m[nc * l:nc * (l + 1), nc * k:nc * (k + 1)])) for l, k in lks]
        e["finite"] = int(np.isfinite(m).all())
    ev = [e]
    if c["kind"] == "full" and rng.random() < .3:
        n = 12 * c["nside"]**2
        for s in (0, 1, 3):
            _, err = attempt("NmtField", nmt.NmtField, np.ones(n), np.ones((2 if s else 1, n)), spin=s, purify_b=bool(s % 2), purify_e=not s % 2, n_iter=0)
            ev.append(dict(op="Refused", call="purified field of spin %d" % s, err=err))
            _, err = attempt("NmtField", nmt.NmtField, np.ones(n), None, spin=s, purify_b=bool(s % 2), purify_e=not s % 2, n_iter_mask=0)
            ev.append(dict(op="Refused", call="purified mask-only field of spin %d" % s, err=err))
    return dict(ev=ev)
