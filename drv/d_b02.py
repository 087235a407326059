"""B02: bin and unbin spectra with schemes built in every way."""
import numpy as np
from binlib import *


def gen(tier, seed):
    rng = np.random.default_rng([102, seed])
    reqs = [from_behaviour(b) for b in behaviours() if b["ok"]]
    cs = [dict(tag="beh:%d" % i, kind="replay", reqs=c) for i, c in enumerate(chunks(reqs, 100))]
    n = dict(quick=300, thorough=4000)[tier]
    cs += [dict(tag="rand:%d" % i, kind="random", reqs=c) for i, c in enumerate(chunks([rand_req(rng, big=j % 4 == 0) for j in range(n)], 25))]
    for c in cs:
        c["seed"] = int(rng.integers(1 << 30))
    return cs


def run(c):
    rng = np.random.default_rng(c["seed"])
    ev = []
    for q in c["reqs"]:
        b, err = attempt("NmtBin", construct, q)
        if b is None:
            continue          # which schemes are refused is B01's business
        ev.append(event("Define", q, err))
        small = c["kind"] == "replay"
        ncl = int(rng.integers(1, 3 if small else 5))
        nl, nb = b.lmax + 1, b.get_n_bands()
        cl = rng.integers(-9, 10, (ncl, nl)).astype(float) if small else rng.normal(size=(ncl, nl)) * 10**rng.uniform(-6, 6)
        bp = rng.integers(-9, 10, (ncl, nb)).astype(float) if small else rng.normal(size=(ncl, nb))
        cl0, bp0 = hx(cl), hx(bp)
        o = must("bin_cell", b.bin_cell, cl)
        ev.append(dict(op="Bin", cl=cl0, out=hx(o), after=hx(cl)))
        ev.append(dict(op="Flat1D", alone=[hx(must("bin_cell", b.bin_cell, x.copy())) for x in cl], stack=hx(o)))
        o = must("unbin_cell", b.unbin_cell, bp)
        ev.append(dict(op="Unbin", bp=bp0, out=hx(o), after=hx(bp)))
        ev.append(dict(op="Flat1D", alone=[hx(must("unbin_cell", b.unbin_cell, x.copy())) for x in bp], stack=hx(o)))
        ev.append(dict(op="Round", bp=bp0, out=hx(must("bin_cell", b.bin_cell, o))))
    return dict(ev=ev)
