"""B01: construct schemes in every way and report what they say about themselves."""
import numpy as np
from binlib import *


def gen(tier, seed):
    rng = np.random.default_rng([101, seed])
    reqs = [from_behaviour(b) for b in behaviours()]
    cs = [dict(tag="beh:%d" % i, kind="replay", reqs=c) for i, c in enumerate(chunks(reqs, 200))]
    n = dict(quick=400, thorough=6000)[tier]
    cs += [dict(tag="rand:%d" % i, kind="random", reqs=c) for i, c in enumerate(chunks([rand_req(rng, big=j % 4 == 0) for j in range(n)], 25))]
    lin = [dict(how="linear", lmax=l, nlb=b, pre="none") for l in range(2, 26 if tier == "quick" else 80) for b in range(1, 9)]
    cs += [dict(tag="linear:%d" % i, kind="linear", reqs=c) for i, c in enumerate(chunks(lin, 50))]
    nsd = [dict(how="nside", nside=l, nlb=b, pre="dell") for l in (1, 2, 3, 4, 8) for b in range(1, 9)]
    cs += [dict(tag="nside:%d" % i, kind="nside", reqs=c) for i, c in enumerate(chunks(nsd, 20))]
    return cs


def run(c):
    ev = []
    for q in c["reqs"]:
        b, err = attempt("NmtBin", construct, q)
        e = event("New", q, err)
        if b is not None:
            nb = must("get_n_bands", b.get_n_bands)
            e["obs"] = dict(nb=int(nb), nell=ints(must("get_nell_list", b.get_nell_list)), ells=[ints(must("get_ell_list", b.get_ell_list, i)) for i in range(nb)],
                            ws=[hx(must("get_weight_list", b.get_weight_list, i)) for i in range(nb)], leff=hx(must("get_effective_ells", b.get_effective_ells)),
                            lmax=int(b.lmax), lmin=[int(must("get_ell_min", b.get_ell_min, i)) for i in range(nb)],
                            lmaxs=[int(must("get_ell_max", b.get_ell_max, i)) for i in range(nb)])
        ev.append(e)
    return dict(ev=ev)
