import json, os
import numpy as np
from rec import hx, ints, attempt, must


def behaviours():
    p = os.environ.get("NMT_BEH")
    return json.load(open(p)) if p and os.path.exists(p) else []


def chunks(x, n):
    return [x[i:i + n] for i in range(0, len(x), n)]


def from_behaviour(b):
    q = b["req"]
    return dict(how="arrays", ells=q["ells"], bpws=q["bpws"], ws=[float(w) for w in q["wi"]],
                fs=[float(((l + j + 1) % 3) * 2) for j, l in enumerate(q["ells"])], lmax=q["lmax"], pre="f")


def rand_req(rng, big=False):
    """a random explicit request: gaps, unordered, repeated, negative and truncated entries"""
    how = rng.choice(["arrays", "arrays", "linear", "nside", "edges"])
    pre = str(rng.choice(["none", "f", "dell"]))
    if how == "arrays":
        n = int(rng.integers(1, 60 if big else 14))
        lm = int(rng.integers(3, 3 * n + 4))
        ells = rng.integers(0, lm + 1, n) if rng.random() < .4 else rng.permutation(np.arange(n) + int(rng.integers(0, 4)))
        nb = int(rng.integers(1, 5))
        bpws = rng.integers(-1, nb, n) if rng.random() < .5 else np.sort(rng.integers(0, nb, n))
        if rng.random() < .8:
            bpws[rng.permutation(n)[:nb]] = np.arange(nb)[:n]   # most requests have no empty band
        ws = rng.integers(0, 5, n) + rng.choice([0., .5]) if rng.random() < .5 else rng.random(n) * 10**rng.uniform(-5, 5)
        if rng.random() < .1:
            ws = ws * np.where(rng.random(n) < .3, -1, 1)
        lmax = -1 if rng.random() < .4 else int(rng.integers(max(1, ells.max() // 2), ells.max() + 5))
        q = dict(how=how, ells=ints(ells), bpws=ints(bpws), ws=[float(x) for x in ws], lmax=lmax, pre=pre if pre != "dell" else "f")
    elif how == "linear":
        q = dict(how=how, lmax=int(rng.integers(2, 70)), nlb=int(rng.integers(1, 12)), pre=pre)
        n = q["lmax"] + 1
    elif how == "nside":
        q = dict(how=how, nside=int(rng.integers(1, 20)), nlb=int(rng.integers(1, 12)), pre=pre)
        n = 3 * q["nside"]
    else:
        nb = int(rng.integers(1, 6))
        e = np.sort(rng.permutation(60)[:2 * nb])
        if rng.random() < .5:
            ini, end = e[0::2], e[1::2]
        else:
            e = np.sort(rng.permutation(60)[:nb + 1])
            ini, end = e[:-1], e[1:]
        q = dict(how=str(how), ini=ints(ini), end=ints(end), pre=pre)
        n = int(sum(end - ini))
    if q["pre"] == "f":
        q["fs"] = [float(x) for x in np.where(rng.random(n) < .15, rng.choice([0., -2.]), rng.random(n) * 10**rng.uniform(-3, 3))]
    q["how"] = str(q["how"])
    return q


def construct(q):
    import pymaster as nmt
    f = np.array(q["fs"]) if q["pre"] == "f" else None
    dell = q["pre"] == "dell"
    if q["how"] == "arrays":
        k = dict(bpws=np.array(q["bpws"]), ells=np.array(q["ells"]), weights=np.array(q["ws"]), f_ell=f)
        if q["lmax"] != -1:
            k["lmax"] = q["lmax"]
        return nmt.NmtBin(**k)
    if q["how"] == "linear":
        return nmt.NmtBin.from_lmax_linear(q["lmax"], q["nlb"], is_Dell=dell, f_ell=f)
    if q["how"] == "nside":
        return nmt.NmtBin.from_nside_linear(q["nside"], q["nlb"], is_Dell=dell, f_ell=f)
    return nmt.NmtBin.from_edges(np.array(q["ini"]), np.array(q["end"]), is_Dell=dell, f_ell=f)


def event(op, q, err):
    e = dict(q, op=op, err=err)
    for k in ("ws", "fs"):
        if k in e:
            e[k] = hx(e[k])
    return e
