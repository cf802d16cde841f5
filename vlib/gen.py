"""Deterministic expansion of drawn parameters into point sets (every random choice is drawn by
Hypothesis; numpy's generator is only an expansion of a drawn integer)."""
import numpy as np
from hypothesis import strategies as st

KINDS = ["uniform", "lattice", "line", "diag", "dup", "cluster", "plane", "shell", "revline", "mixed"]


def seeds():
    return st.integers(0, 2 ** 32 - 1)


def cloud(kind, n, dim, seed):
    """n points with coordinates of order one"""
    r = np.random.default_rng([seed, n, dim, 17])
    if n == 0:
        return np.zeros((0, dim))
    if kind == "uniform":
        p = r.random((n, dim))
    elif kind == "lattice":
        m = max(2, int(round(n ** (1.0 / dim))))
        p = r.integers(0, m + 1, (n, dim)) / float(m)
    elif kind in ("line", "revline"):
        p = np.full((n, dim), 0.5)
        p[:, r.integers(dim)] = np.sort(r.random(n))
        if kind == "revline":
            p = p[::-1].copy()
    elif kind == "diag":
        t = np.sort(r.random(n))
        p = t[:, None] * (0.5 + r.random(dim))[None, :] + 1e-3 * r.random((n, dim)) * (r.random() < 0.5)
    elif kind == "dup":
        base = r.random((max(1, n // 5), dim))
        p = base[r.integers(0, len(base), n)]
    elif kind == "cluster":
        c = r.random((max(1, int(n ** 0.5)), dim))
        p = c[r.integers(0, len(c), n)] + 1e-3 * r.standard_normal((n, dim))
    elif kind == "plane":
        p = r.random((n, dim))
        p[:, r.integers(dim)] = 0.25
    elif kind == "shell":
        v = r.standard_normal((n, dim))
        p = 0.5 + 0.5 * v / np.linalg.norm(v, axis=1)[:, None]
    else:
        k = [cloud(q, n, dim, seed + 1 + i) for i, q in enumerate(KINDS[:-1])]
        p = np.array([k[r.integers(len(k))][i] for i in range(n)])
    return np.ascontiguousarray(p)


def unit(r, n, dim):
    v = r.standard_normal((n, dim))
    # a share of axis-aligned directions
    ax = r.random(n) < 0.3
    for i in np.nonzero(ax)[0]:
        v[i] = 0
        v[i, r.integers(dim)] = r.choice([-1.0, 1.0])
    return v / np.linalg.norm(v, axis=1)[:, None]
