"""Generated seed sets in which every non-exterior cell is bounded."""
import numpy as np
from hypothesis import strategies as st

from . import gen

KINDS = ["shell", "shell", "mirror", "cube", "lattice", "bcc", "jlattice", "graded", "pairs"]


def fib_sphere(n, r):
    k = np.arange(n)
    z = 1 - 2 * (k + 0.5) / n
    p = np.pi * (1 + 5 ** 0.5) * k
    q = np.sqrt(1 - z * z)
    g = np.stack([q * np.cos(p), q * np.sin(p), z], 1)
    return g + 0.01 * (r.random((n, 3)) - 0.5)


def make(c):
    """c: dict(kind, n, seed, nreg, ghosts) -> seeds, regions, scale-free (coordinates of order one)"""
    r = np.random.default_rng([c["seed"], 41])
    n, kind = c["n"], c["kind"]
    if kind in ("shell", "graded"):
        X = r.random((n, 3)) - 0.5
        if kind == "graded":
            X = np.sign(X) * np.abs(2 * X) ** 2.5 / 2
            X += 1e-3 * (r.random((n, 3)) - 0.5)
        G = 1.4 * fib_sphere(int(r.integers(30, 90)), r)
        S = np.vstack([X, G])
        g = np.array([0] * n + [1] * len(G), bool)
    elif kind == "pairs":
        # thin cells: pairs of nearly coincident seeds
        m = max(2, n // 2)
        X = r.random((m, 3)) - 0.5
        d = r.standard_normal((m, 3))
        d /= np.linalg.norm(d, axis=1)[:, None]
        X = np.vstack([X, X + d * (10.0 ** r.uniform(-3, -1, (m, 1)))])
        G = 1.4 * fib_sphere(int(r.integers(30, 90)), r)
        S = np.vstack([X, G])
        g = np.array([0] * len(X) + [1] * len(G), bool)
    elif kind == "mirror":
        m = min(n, 40)
        d = 0.5 + r.random(3)
        X = (0.04 + 0.92 * r.random((m, 3))) * d
        L = [X]
        for k in range(3):
            for v in (0.0, d[k]):
                Y = X.copy()
                Y[:, k] = 2 * v - Y[:, k]
                L.append(Y)
        S = np.vstack(L)
        g = np.ones(len(S), bool)
        g[:m] = False
    elif kind in ("lattice", "jlattice", "bcc"):
        m = int(r.integers(2, 5))
        k = np.stack(np.meshgrid(*[np.arange(-1, m + 1)] * 3, indexing="ij"), -1).reshape(-1, 3)
        out = ((k < 0) | (k >= m)).any(1)
        S = k / m * (0.7 + 0.6 * r.random(3) if r.random() < 0.5 else 1.0)
        if kind == "bcc":
            k2 = k[~(k == m).any(1)]
            S2 = (k2 + 0.5) / m * (S.max(0) / (k.max(0) / m))
            o2 = ((k2 < 0) | (k2 >= m - 1)).any(1)
            S = np.vstack([S, S2])
            out = np.concatenate([out, o2])
        if kind == "jlattice":
            S = S + 10.0 ** r.uniform(-6, -1) / m * (r.random(S.shape) - 0.5)
        g = out
    elif kind == "cube":
        S, g = cube(int(r.integers(2, 4)), 1 + int(r.integers(2)))[:2]
        X = S[~g]
        C = r.random((n // 2, 3)) * 0.9 + 0.05
        d = np.linalg.norm(C[:, None] - X[None], axis=2).min(1) if len(C) else np.zeros(0)
        C = C[d > 0.05]
        keep = []
        for p in C:
            if all(np.linalg.norm(p - q) > 0.03 for q in keep):
                keep.append(p)
        if keep:
            S = np.vstack([S, keep])
            g = np.concatenate([g, np.zeros(len(keep), bool)])
    else:
        raise ValueError(kind)
    reg = np.where(g, 0, r.integers(1, c["nreg"] + 1, len(S)))
    if c["ghosts"]:
        # exterior seeds in the interior too
        q = r.random(len(S)) < 0.2
        reg[q] = 0
    p = r.permutation(len(S)) if c["shuffle"] else np.arange(len(S))
    return S[p], reg[p].astype(np.int64)


def cube(m, k=1):
    """surface seeds of the unit cube: pairs mirrored across each face, m*m per face"""
    s = 1.0 / m
    d = 0.25 * s
    S, g = [], []
    c = (np.arange(m) + 0.5) * s
    for ax in range(3):
        for v in (0.0, 1.0):
            for a in c:
                for b in c:
                    p = np.zeros(3)
                    p[(ax + 1) % 3], p[(ax + 2) % 3] = a, b
                    for side in (-1, 1):
                        q = p.copy()
                        q[ax] = v + side * d
                        S.append(q)
                        g.append(q[ax] < 0 or q[ax] > 1)
    return np.array(S), np.array(g)


def strategy():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(KINDS), "n": st.one_of(st.integers(1, 12), st.integers(13, 60), st.integers(61, 160)),
        "seed": gen.seeds(), "nreg": st.integers(1, 4), "ghosts": st.booleans(), "shuffle": st.booleans(),
        "scale": st.sampled_from([1.0, 1.0, 0.1, 10.0]), "off": st.sampled_from([0.0, 0.0, 3.0]),
        "sizing": st.sampled_from([0.01, 0.1, 1.0, "random", "close"]), "threads": st.integers(1, 8),
        "rot": st.booleans()})


def expand(c):
    from .models import rotation
    S, reg = make(c)
    r = np.random.default_rng([c["seed"], 43])
    if c["rot"]:
        S = S @ rotation(r).T
    S = S * c["scale"] + c["off"] * c["scale"]
    n = len(S)
    if c["sizing"] == "random":
        sz = c["scale"] * 10.0 ** r.uniform(-2, 0.3, n)
    elif c["sizing"] == "close":
        from scipy.spatial import cKDTree
        sz = cKDTree(S).query(S, k=2)[0][:, 1]
    else:
        sz = np.full(n, c["scale"] * c["sizing"])
    return S, reg, sz
