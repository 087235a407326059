"""P02: pseudo-inverses of symmetric and Hermitian matrices."""
import numpy as np
from rec import hx, attempt


def gen(tier, seed):
    n = 24 if tier == "quick" else 240
    return [dict(tag="m%d" % i, kind="m", seed=[seed, i], big=int(tier != "quick" and i % 5 == 0)) for i in range(n)]


def run(c):
    import pymaster as nmt
    rng = np.random.default_rng([424] + c["seed"])
    ev = []
    for _ in range(6):
        n = int(rng.integers(1, 5 if not c["big"] else 8))
        cut = float(rng.choice([.5, .1, 1e-2, 1e-3, 1e-6, 1e-10]))
        kind = rng.choice(["spread", "same", "gap", "negative", "integer", "diagonal", "zero", "complex", "complex"], p=[.2, .1, .15, .1, .15, .08, .02, .1, .1])
        size = float(10.**rng.integers(-12, 13))

        def evs():
            while True:
                w = cut**rng.uniform(0, 2, n)
                if kind == "same":
                    w = rng.choice([1., .3 * cut, 0., 3 * cut], n)
                if kind == "gap":
                    w = np.where(rng.random(n) < .5, 1., cut * rng.choice([.9, 1.1, .5, 2.]))
                if kind == "negative":
                    w = w * np.where(rng.random(n) < .5, 1, -1)
                if kind == "complex" and rng.random() < .5:
                    w[0] = 0
                w[int(rng.integers(0, n))] = 1.
                if not (np.abs(w / (cut * w.max()) - 1) < .01).any():
                    return w * size
        im = None
        if kind == "zero":
            M = np.zeros([n, n])
        elif kind == "integer":
            while True:
                B = rng.integers(-3, 4, [n, max(1, int(rng.integers(1, n + 2)))])
                M = (B @ B.T).astype(float)
                w = np.linalg.eigvalsh(M)
                if w[-1] > 0 and not (np.abs(w / (cut * w[-1]) - 1) < .01).any():
                    break
        else:
            w = evs()
            q = rng.standard_normal([n, n]) + (1j * rng.standard_normal([n, n]) if kind == "complex" else 0)
            Q = np.linalg.qr(q)[0]
            if kind == "diagonal":
                Q = np.eye(n)
            M = Q @ np.diag(w) @ Q.conj().T
            M = (M + M.conj().T) / 2
        if rng.random() < .2:
            M = np.asfortranarray(M)
        w = np.linalg.eigvalsh(M)
        top = w[-1]
        good = w[(w >= cut * top) & (w > 0)]
        kappa = top / good.min() if len(good) else 1
        reg = len(w) and np.abs(w).min() > 1e-9 * np.abs(w).max()
        arg = cut
        if reg and rng.random() < .3:
            arg = [None, 0., -1.][int(rng.integers(0, 3))]
            kappa = np.abs(w).max() / np.abs(w).min()
        old = M.copy()
        try:
            x, err = np.asarray(nmt.moore_penrose_pinvh(M, arg)), ""
        except Exception as e:
            x, err = np.zeros([0, 0]), type(e).__name__ + ": " + str(e)
        z = np.iscomplexobj(M)
        ev.append(dict(op="Pinv", m=[hx(r) for r in np.real(old)], mi=[hx(r) for r in np.imag(old)] if z else [], x=[hx(r) for r in np.real(x)], xi=[hx(r) for r in np.imag(x)] if z else [],
                       cut=hx(float(arg or 0.)), tol=hx(1e-13 * kappa * max(n, 3) + 1e-11), err=err, kept=int(np.array_equal(old, M))))
    for M in (np.zeros([2, 2]), np.ones([2, 2]), np.array([[4., 2.], [2., 1.]])):
        _, err = attempt("moore_penrose_pinvh", nmt.moore_penrose_pinvh, M, [None, 0., -2.][int(rng.integers(0, 3))])
        ev.append(dict(op="Refuse", why="the ordinary inverse of a singular matrix", err=err))
    return dict(ev=ev)
