"""W02: histories of workspaces, the specification's and random ones."""
import numpy as np
from wsplib import *
from binlib import behaviours, chunks


def gen(tier, seed):
    rng = np.random.default_rng([302, seed])
    th = tier == "thorough"
    hs = [b for b in behaviours() if b]
    last = {}
    for h in hs:
        last.setdefault(h[-1]["op"], []).append(h)
    take = []
    for k in sorted(last):                      # an even share of every kind of last request
        n = min(len(last[k]), 90 if not th else 700)
        take += [last[k][i] for i in rng.permutation(len(last[k]))[:n]]
    cs = [dict(tag="replay:%d" % i, kind="replay", hs=c, lab=int(rng.integers(len(Lab.KINDS) - 4) if i % 5 else rng.integers(len(Lab.KINDS)))) for i, c in enumerate(chunks(take, 40))]
    for i in range(24 if not th else 300):
        cs.append(dict(tag="random:%d" % i, kind="random", lab=i % len(Lab.KINDS), n=25 if not th else 40))
    for i, c in enumerate(cs):
        c["seed"] = [seed, i]
    return cs


def apply(lab, h):
    w = h.get("w", 1)
    op = h["op"]
    if op == "Compute":
        return lab.compute(w, h["pair"], h["bins"])
    if op == "BadCompute":
        return lab.bad_compute(w, int(lab.rng.integers(len(lab.BAD))))
    if op == "Beams":
        return lab.set_beams(w, h["b"])
    if op == "ShortBeams":
        return lab.set_beams(w, 2, short=int(lab.rng.integers(1, 4)))
    if op == "Bins":
        return lab.set_bins(w, h["s"])
    if op == "BadBins":
        return lab.set_bins(w, 4)
    if op == "Matrix":
        return lab.set_matrix(w, 1)
    if op == "BadMatrix":
        return lab.set_matrix(w, 1, bad=int(lab.rng.integers(1, 4)))
    if op == "Write":
        return lab.write(w, 1)
    if op == "Load":
        return lab.load(w, 1, h["unb"])


def run(c):
    rng = np.random.default_rng([303] + c["seed"])
    lab = Lab(rng, Lab.KINDS[c["lab"]])
    hdr = lab.header()
    ev = []
    try:
        if c["kind"] == "replay":
            for h in c["hs"]:
                ev.append(lab.reset())
                for x in h:
                    ev.append(apply(lab, x))
                ev += lab.probe((h[-1].get("w", 1),))
                if rng.random() < .3:
                    ev += lab.probe((3 - h[-1].get("w", 1),), deep=False)
        else:
            B, M = lab.set_beams, lab.set_matrix
            for f, k in ((lambda w, k: lab.compute(w, 1, k), 1), (B, 2), (B, 3), (M, 1), (M, 2), (B, 2)):      # neighbours that differ very little
                ev.append(f(1, k))
                ev += lab.probe((1,))
            for _ in range(c["n"]):
                w = int(rng.integers(1, 3))
                r = rng.random()
                if r < .18:
                    e = lab.compute(w, int(rng.integers(1, 3)), int(rng.integers(1, 4)), norm=str(rng.choice(["MASTER", "FKP"])) if lab.kind[2] != 2 else None)
                elif r < .3:
                    e = lab.set_beams(w, int(rng.integers(1, 4)))
                elif r < .45:
                    e = lab.set_bins(w, int(rng.integers(1, 4)))
                elif r < .57:
                    e = lab.set_matrix(w, int(rng.integers(1, 3)))
                elif r < .68:
                    e = lab.write(w, int(rng.integers(1, 3)))
                elif r < .82:
                    e = lab.load(w, int(rng.integers(1, 3)), int(rng.random() < .75), fresh=rng.random() < .4)
                elif r < .86:
                    e = lab.bad_compute(w, int(rng.integers(len(lab.BAD))))
                elif r < .9:
                    e = lab.set_matrix(w, 1, bad=int(rng.integers(1, 4)))
                elif r < .94:
                    e = lab.set_bins(w, 4)
                elif r < .97:
                    e = lab.set_beams(w, 1, short=int(rng.integers(1, 4)))
                else:
                    e = lab.load(w, 0, 1)
                ev.append(e)
                ev += lab.probe((w,), deep=rng.random() < .5)
                if rng.random() < .2:
                    ev += lab.probe((3 - w,), deep=False)
    finally:
        lab.close()
    return dict(ev=ev, **hdr)
