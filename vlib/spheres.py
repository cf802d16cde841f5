"""Generated sphere sets: scattered, on curves and surfaces, on a lattice, in distant groups; sizes over several
orders of magnitude, graded or not."""
import numpy as np
from hypothesis import strategies as st

from . import gen


def strategy(nmax=400, lips=(0.05, 0.1, 0.25, 0.5, 0.9)):
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["ball", "plane", "curve", "lattice", "groups", "line"]), "seed": gen.seeds(),
        "n": st.one_of(st.integers(1, 12), st.integers(1, nmax)), "lip": st.sampled_from(lips),
        "size": st.sampled_from([1.0, 1.0, 0.05, 40.0]), "spread": st.sampled_from([0.0, 0.5, 2.0, 5.0]),
        "rel": st.sampled_from([0.2, 1.0, 3.0])})


def expand(c):
    """-> centres (n,3), radii (n) not yet graded, typical spacing"""
    g = np.random.default_rng([c["seed"], 91])
    n = c["n"]
    k = c["kind"]
    if k == "ball":
        x = g.standard_normal((n, 3))
        x = x / np.linalg.norm(x, axis=1)[:, None] * g.random((n, 1)) ** (1 / 3)
        h = n ** (-1 / 3)
    elif k == "plane":
        x = np.column_stack([g.random((n, 2)), 1e-3 * g.random(n) * (g.random() < 0.5)])
        h = n ** -0.5
    elif k == "curve":
        t = g.random(n) * 6
        x = np.column_stack([np.cos(t), np.sin(t), 0.2 * t])
        h = 6 / n
    elif k == "line":
        x = np.outer(g.random(n), g.standard_normal(3))
        h = 1.5 / n
    elif k == "lattice":
        m = int(np.ceil(n ** (1 / 3)))
        q = np.array([(a, b, d) for a in range(m) for b in range(m) for d in range(m)], float)[:n] / m
        x = q[g.permutation(n)]
        h = 1 / m
    else:
        o = g.standard_normal((4, 3)) * 3
        x = o[g.integers(0, 4, n)] + 0.2 * g.standard_normal((n, 3))
        h = 0.3 * n ** (-1 / 3)
    r = c["rel"] * h * np.exp(c["spread"] * (g.random(n) - 0.5) * 2)
    x = x * c["size"]
    # two spheres of a kind never share their centre
    _, i = np.unique(np.round(x / (1e-6 * c["size"])), axis=0, return_index=True)
    i = np.sort(i)
    return x[i], r[i] * c["size"], h * c["size"], g


def graded(x, r, lip):
    d = np.linalg.norm(x[:, None] - x[None], axis=2)
    return (r[None] + lip * d).min(1)
