"""W01: what one workspace answers, for many matrices, beams, schemes and spectra."""
import numpy as np
from wsplib import *


def gen(tier, seed):
    rng = np.random.default_rng([310, seed])
    th = tier == "thorough"
    cs = []
    for k in range(len(Lab.KINDS)):
        for i in range(6 if not th else 60):
            kind = Lab.KINDS[k]
            big = 4 if kind[2] == 1 else 6 if kind[0] and kind[1] else 12
            lmax = int(rng.integers(3, (7 if i % 3 else big) + (6 if th else 0)))
            lmax = max(lmax, max(kind[:2]) + 1, 3)
            cs.append(dict(tag="k%d:%d:l%d%s" % (k, i, lmax, ":singular" if i % 6 == 5 else ""), lab=k, lmax=lmax, singular=i % 6 == 5, n=8))
    for i, c in enumerate(cs):
        c["seed"] = [seed, i]
    return cs


def run(c):
    rng = np.random.default_rng([311] + c["seed"])
    lab = Lab(rng, Lab.KINDS[c["lab"]], lmax=c["lmax"], singular=c["singular"])
    hdr = lab.header()
    ev = []
    L = lab.lmax

    def answers(b):
        ev.append(lab.get(1))
        ev.append(lab.couple(1))
        ev.append(lab.couple(1, lab.spectra(extra=0)))
        cl = np.zeros((lab.n, L + 1 + int(rng.integers(0, 3))))          # one multipole of one spectrum only
        cl[int(rng.integers(lab.n)), int(rng.integers(L + 1))] = 10**rng.uniform(-8, 8)
        ev.append(lab.couple(1, cl))
        ev.append(lab.decouple(1, plain=True))
        ev.append(lab.decouple(1, lab.spectra(), noise=lab.spectra()))
        ev.append(lab.decouple(1, lab.spectra(extra=2), bias=lab.spectra(extra=2)))
        ev.append(lab.decouple(1, lab.spectra(), noise=lab.spectra(), bias=lab.spectra()))
        ev.append(lab.decouple(1, cl, noise=cl * 1))
        cl1 = 10**rng.uniform(-20, 6) * lab.spectra()
        ev.append(lab.decouple(1, cl1))
        ev.append(lab.windows(1))
        ev.append(lab.round(1, b))
        ev.append(lab.round(1, b))

    try:
        for p in (1, 2):
            b = 1 + p if c["singular"] else int(rng.integers(1, 4))
            b = 2 if c["singular"] else b
            ev.append(lab.compute(1, p, b))
            answers(b)
            if p == 1:
                b = int(rng.integers(1, 4))
                ev.append(lab.compute(1, p, b, norm="FKP" if Lab.KINDS[c["lab"]][2] != 2 else None))
                answers(b)
        b = int(rng.integers(1, 4))
        ev.append(lab.compute(1, 1, b))
        ev.append(lab.set_matrix(1, 1))
        ev.append(lab.set_beams(1, int(rng.integers(1, 4))))
        answers(b)
    finally:
        lab.close()
    return dict(ev=ev, **hdr)
