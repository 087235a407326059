"""F04: how headers of rectangular maps are interpreted, which descriptions are told apart, and what is refused."""
from fractions import Fraction as Fr
import numpy as np
from fldlib import *
from sphlib import *
from binlib import behaviours, chunks


def gen(tier, seed):
    rng = np.random.default_rng([331, seed])
    th = tier == "thorough"
    hs = behaviours()
    ix = rng.permutation(len(hs))[:1500 if not th else len(hs)]
    cs = [dict(tag="model:%d" % i, kind="model", ws=c) for i, c in enumerate(chunks([hs[j] for j in ix], 50))]
    cs += [dict(tag="eq:%d" % i, kind="eq") for i in range(40 if not th else 400)]
    cs += [dict(tag="big:%d" % i, kind="big") for i in range(40 if not th else 400)]
    cs += [dict(tag="bad:%d" % i, kind="bad") for i in range(10 if not th else 100)]
    cs += [dict(tag="shape:%d" % i, kind="shape") for i in range(6 if not th else 30)]
    for i, c in enumerate(cs):
        c["seed"] = [seed, i]
    return cs


def wcs(w, typ=("RA---CAR", "DEC--CAR"), dec0=0., dra=None, ddec=None):
    from astropy.wcs import WCS
    h = WCS(naxis=2)
    h.wcs.cdelt = [dra or w["sx"] * 360. / w["M"], ddec or w["sy"] * 180. / w["N"]]
    h.wcs.crpix = [w["crx2"] / 2., w["cry2"] / 2.]
    h.wcs.crval = [w["ra0"] / 4., dec0]
    h.wcs.ctype = list(typ)
    return h


def info(w, h=None, axes=None, full=True, rng=None):
    import pymaster as nmt
    mi, err = attempt("NmtMapInfo", nmt.NmtMapInfo, h or wcs(w), axes or (w["ny"], w["nx"]))
    e = dict(op="Info", w=w, err=err, perm=[], at=[], some=[])
    if not err:
        e.update(npix=int(mi.npix), lmax=int(mi.get_lmax()))
        p = must("reform_map", mi.reform_map, np.arange(1, w["ny"] * w["nx"] + 1).reshape(w["ny"], w["nx"]))
        assert p.shape == (w["ny"] * w["nx"],)
        if full:
            e["perm"] = ints(p)
        else:
            at = [1, len(p)] + ints(rng.integers(1, len(p) + 1, 6))
            e["at"], e["some"] = at, [int(p[a - 1]) for a in at]
    return (None if err else mi), e


def pixel(rng, w, mi, lmax):
    import pymaster as nmt
    from pymaster import utils as ut
    s = int(rng.integers(0, 3))
    nm = 2 if s else 1
    i, j = int(rng.integers(1, w["ny"] + 1)), int(rng.integers(1, w["nx"] + 1))
    v = rng.uniform(.5, 1, nm)
    mp = np.zeros((nm, w["ny"], w["nx"]))
    mp[:, i - 1, j - 1] = v
    ones = np.ones((w["ny"], w["nx"]))
    f = must("NmtField", nmt.NmtField, ones, mp, spin=s, wcs=wcs(w), lmax=lmax, lmax_mask=lmax, n_iter=0, n_iter_mask=0)
    a = must("get_alms", f.get_alms)
    lms = [[max(s, 1), 0], [max(s, 1), 1], [lmax, lmax]]
    for _ in range(3):
        l = int(rng.integers(s, lmax + 1))
        lms.append([l, int(rng.integers(0, l + 1))])
    return dict(op="GQ", w=w, s=s, at=[i, j], v=hx(v), lmax=lmax, lms=lms, vals=[[hx(complex(a[k, idx(lmax, *q)])) for k in range(nm)] for q in lms])


def rand(rng, big):
    """a valid request"""
    N = int(rng.integers(5, 200)) if big else int(rng.integers(2, 9))
    M = int(rng.integers(5, 400)) if big else int(rng.integers(3, 13))
    ny = int(rng.integers(1, min(N + 1, 60) + 1))
    nx = int(rng.integers(1, min(M, 60) + 1)) if rng.random() < .6 else M
    if rng.random() < .3:
        ny = N + 1
    sx, sy = (int(x) for x in rng.choice([-1, 1], 2))
    t1 = int(rng.integers(0, N + 2 - ny)) if sy < 0 else int(rng.integers(ny - 1, N + 1))
    cry2 = 2 - (N - 2 * t1) * sy                      # row 1 at ring t1: N - (2 - cry2) sy = 2 t1
    lo, hi = 2 * nx - M, M + 2                          # both edge columns within the native range
    crx2 = int(rng.integers(lo, hi + 1))
    return dict(N=N, M=M, sx=sx, sy=sy, crx2=crx2, cry2=cry2, ra0=int(rng.choice([0, 360, 720, 1439, int(rng.integers(0, 1440))])), ny=ny, nx=nx, bad="")


def run(c):
    import pymaster as nmt
    rng = np.random.default_rng([332] + c["seed"])
    ev = []
    if c["kind"] == "model":
        for w in c["ws"]:
            mi, e = info(w)
            ev.append(e)
        return dict(ev=ev)
    if c["kind"] == "big":
        w = rand(rng, True)
        mi, e = info(w, full=False, rng=rng)
        ev.append(e)
        if mi is not None:
            ev += [pixel(rng, w, mi, int(rng.integers(3, 9))) for _ in range(2)]
        return dict(ev=ev)
    if c["kind"] == "eq":
        w = rand(rng, rng.random() < .5)
        ws = [w]

        def flip(x, rows):
            y = dict(x)
            if rows:
                y["sy"], y["cry2"] = -x["sy"], 2 * (x["ny"] + 1) - x["cry2"]
            else:
                y["sx"], y["crx2"] = -x["sx"], 2 * (x["nx"] + 1) - x["crx2"]
            return y
        ws += [flip(w, 0), flip(w, 1), flip(flip(w, 0), 1)]
        k = next((k for k in range(1, w["M"] + 1) if 1440 * k % w["M"] == 0), w["M"])      # the same map with another reference pixel
        for q in (k, -k):
            y = dict(w, crx2=w["crx2"] + 2 * q, ra0=(w["ra0"] + q * w["sx"] * 1440 // w["M"]) % 1440)
            if abs(2 - y["crx2"]) <= y["M"] and abs(2 * y["nx"] - y["crx2"]) <= y["M"]:
                ws.append(y)
        for key, d in (("ra0", 1), ("ny", -1), ("nx", -1)):
            y = dict(w)
            y[key] += d
            if y["nx"] > 0 and y["ny"] > 0 and y["ra0"] < 1440:
                ws.append(y)
        y = dict(w, M=w["M"] + 1)
        if abs(2 - y["crx2"]) <= y["M"] and abs(2 * y["nx"] - y["crx2"]) <= y["M"]:
            ws.append(y)
        y = dict(w, cry2=w["cry2"] + 2)                # one ring further
        t = [(y["N"] - (2 * i - y["cry2"]) * y["sy"]) // 2 for i in (1, y["ny"])]
        if min(t) >= 0 and max(t) <= y["N"]:
            ws.append(y)
        mis = []
        for x in ws:
            mi, e = info(x, full=False, rng=rng)
            ev.append(e)
            mis.append(mi)
        if all(m is not None for m in mis):
            ev.append(dict(op="Eq", ws=ws, eq=[[int(a == b) for b in mis] for a in mis], ne=[[int(a != b) for b in mis] for a in mis]))
            f = [must("NmtField", nmt.NmtField, np.ones((x["ny"], x["nx"])), None, spin=0, wcs=wcs(x), lmax=3, lmax_mask=3, n_iter_mask=0) for x in ws]
            ev.append(dict(op="Eq", ws=ws, eq=[[int(a.is_compatible(b)) for b in f] for a in f], ne=[[int(not a.is_compatible(b)) for b in f] for a in f]))
            hp = nmt.NmtMapInfo(None, (48,))
            ev.append(dict(op="Flag", name="unlike_healpix", obs=[int(mis[0] == hp), int(hp == mis[0]), int(mis[0] == None), int(mis[0] == 3)], exp=[0, 0, 0, 0]))   # noqa
            ev += [pixel(rng, x, m, 4) for x, m in zip(ws, mis)]
        return dict(ev=ev)
    if c["kind"] == "bad":
        w = rand(rng, rng.random() < .5)
        W = lambda b, **k: dict(w, bad=b, **k)
        todo = [(W("TAN projection"), dict(typ=("RA---TAN", "DEC--TAN"))), (W("CEA rows"), dict(typ=("RA---CAR", "DEC--CEA"))), (W("CEA columns"), dict(typ=("RA---CEA", "DEC--CAR"))),
                (W("reference off the equator"), dict(dec0=float(rng.uniform(.5, 20) * rng.choice([-1, 1])))),
                (W("columns do not divide the circle"), dict(dra=w["sx"] * 360. / (w["M"] + float(rng.uniform(.1, .9))))),
                (W("rows do not divide the meridian"), dict(ddec=w["sy"] * 180. / (w["N"] + float(rng.uniform(.1, .9)))))]
        for x, k in todo:
            ev.append(info(x, wcs(x, **k))[1])
        ev.append(info(dict(w, cry2=w["cry2"] + 2 * w["N"] + 4))[1])            # beyond a pole
        ev.append(info(dict(w, cry2=w["cry2"] - 2 * w["N"] - 4))[1])
        ev.append(info(dict(w, nx=w["M"] + 1))[1])                                  # wraps
        for ax in ((w["ny"] * w["nx"],), (1, w["ny"], w["nx"])):
            ev.append(info(W("shape of %d dimensions" % len(ax)), axes=ax)[1])
        return dict(ev=ev)
    # shapes of maps, templates and masks
    hpx = rng.random() < .5
    w = rand(rng, False)
    h = None if hpx else wcs(w)
    sh = (48,) if hpx else (w["ny"], w["nx"])
    bad = [(192,), (47,), (12 * 25,)] if hpx else [(w["ny"] + 1, w["nx"]), (w["ny"], w["nx"] + 1), (w["ny"] * w["nx"],)] + ([(w["nx"], w["ny"])] if w["nx"] != w["ny"] else [])
    K = dict(wcs=h, lmax=3, lmax_mask=3, n_iter=0, n_iter_mask=0)
    m, o = np.ones(sh), np.ones((1,) + sh)

    def no(what, *a, **k):
        _, err = attempt(what, nmt.NmtField, *a, **dict(K, **k))
        ev.append(dict(op="Refused", call=what, err=err))
    for b in bad:
        no("maps of another shape", m, np.ones((1,) + b))
        no("mask of another shape", np.ones(b), o)
        no("templates of another shape", m, o, templates=np.ones((1, 1) + b))
        no("spin-2 maps of another shape", m, np.ones((2,) + b))
        if not hpx:
            no("anisotropic components of another shape", m, np.ones((2,) + sh), mask_22=np.ones(b), mask_12=np.zeros(b))
    no("three maps", m, np.ones((3,) + sh))
    no("one map of spin 2", m, o, spin=2)
    no("two maps of spin 0", m, np.ones((2,) + sh), spin=0)
    no("mask-only without a spin", m, None)
    no("a short beam", m, o, beam=np.ones(3))
    no("a beam as a number", m, o, beam=1.)
    no("lmax 0", m, o, lmax=0)
    no("lmax_mask 0", m, o, lmax_mask=0)
    no("negative lmax", m, o, lmax=-1)
    f = must("NmtField", nmt.NmtField, m, o, **K)
    for L, Lm in ((4, 3), (3, 4), (3, 3)):
        g = must("NmtField", nmt.NmtField, m, o, **dict(K, lmax=L, lmax_mask=Lm))
        ok = int(L == Lm == 3)
        ev.append(dict(op="Flag", name="compatible", obs=[int(bool(a.is_compatible(b, strict=s))) for a, b in ((f, g), (g, f)) for s in (False, True)], exp=[ok] * 4))
    other = must("NmtField", nmt.NmtField, np.ones(192), np.ones((1, 192)), lmax=3, lmax_mask=3, n_iter=0, n_iter_mask=0)
    ev.append(dict(op="Flag", name="other_pixels", obs=[int(bool(a.is_compatible(b, strict=s))) for a, b in ((f, other), (other, f)) for s in (False, True)], exp=[1, 0, 1, 0]))
    return dict(ev=ev)
