"""Generated triangle soups: closed, open and non-manifold surfaces whose faces are consistently oriented
across every edge of two faces."""
import numpy as np
from hypothesis import strategies as st

from . import gen, models

KINDS = ["model", "model", "jitter", "field", "fan", "ribbon", "holes", "dup", "pair", "curved", "single", "book"]


def strategy(kinds=KINDS):
    return st.fixed_dictionaries({
        "kind": st.sampled_from(kinds), "seed": gen.seeds(), "size": st.sampled_from([1.0, 1.0, 0.01, 30.0]),
        "rotate": st.booleans(), "shift": st.booleans(), "flip": st.booleans(), "loose": st.integers(0, 3),
        "n": st.integers(1, 12), "sub": st.booleans(), "shuffle": st.booleans()})


def strip(L, dirs):
    """quads from the polyline L in the directions given at its points"""
    n = len(L)
    V = np.vstack([L, L + dirs])
    F = []
    for i in range(n - 1):
        F += [(i, i + 1, n + i + 1), (i, n + i + 1, n + i)]
    return V, np.array(F, int)


def expand(c):
    """-> V, F, labels"""
    r = np.random.default_rng([c["seed"], 71])
    k, n = c["kind"], c["n"]
    if k in ("model", "jitter", "holes", "dup"):
        m = models.make(str(r.choice([q for q in models.KINDS])), int(r.integers(1 << 30)), 1.0, False, False)
        V, F = np.array(m.V, float), np.array(m.F)
        if c["sub"]:
            V, F = models.subdivide(V, F)
        if k == "jitter":
            V = V + 10.0 ** r.uniform(-4, -1) * r.standard_normal(V.shape)
        elif k == "holes":
            keep = r.random(len(F)) > r.choice([0.05, 0.2, 0.5])
            keep[r.integers(len(F))] = True
            F = F[keep]
        elif k == "dup":
            F = np.vstack([F, F[r.integers(0, len(F), max(1, n // 3))]])
    elif k == "curved":
        m = models.make(str(r.choice(["sphere", "torus", "cylinder"])), int(r.integers(1 << 30)), 1.0, False, False)
        V, F = np.array(m.V, float), np.array(m.F)
    elif k == "field":
        a, b = n % 5 + 2, n // 2 + 2
        g = np.stack(np.meshgrid(np.arange(a), np.arange(b), indexing="ij"), -1).reshape(-1, 2).astype(float)
        g += 0.4 * (r.random(g.shape) - 0.5)
        V = np.column_stack([g, r.choice([0, 0.05, 0.3, 1.5]) * r.standard_normal(len(g))])
        F = []
        for i in range(a - 1):
            for j in range(b - 1):
                p, q, s, t = i * b + j, (i + 1) * b + j, (i + 1) * b + j + 1, i * b + j + 1
                F += [(p, q, s), (p, s, t)] if r.random() < 0.5 else [(p, q, t), (q, s, t)]
        F = np.array(F, int)
    elif k in ("fan", "book"):
        # pages around a straight (fan) or bent (book) spine
        p = 2 + n % 4
        spine = np.array([(0, 0, z) for z in range(1 + n // 3 + 1)], float)
        if k == "book":
            spine = np.cumsum(np.vstack([[0, 0, 0], np.array([(0, 0, 1)] * (len(spine) - 1)) + 0.4 * r.standard_normal((len(spine) - 1, 3))]), 0)
        V, F = [spine], []
        s = len(spine)
        ang = 2 * np.pi * (np.arange(p) + 0.5 * r.random(p)) / p
        for q, a in enumerate(ang):
            v, f = strip(spine, np.array([[np.cos(a), np.sin(a), 0.2 * r.standard_normal()]] * s))
            o = sum(len(x) for x in V)
            f = np.where(f < s, f, f - s + o)
            V.append(v[s:])
            F.append(f[:, ::-1] if (p == 2 and q == 1) else f)
        V, F = np.vstack(V), np.vstack(F)
    elif k == "ribbon":
        # an open strip whose border turns by all kinds of angles
        t = np.cumsum(10.0 ** r.uniform(-3, 0.3, n + 1) * r.choice([-1, 1], n + 1))
        L = np.cumsum(np.vstack([[0, 0, 0], np.column_stack([np.cos(t), np.sin(t), 0.2 * r.standard_normal(n + 1)])]), 0)
        V, F = strip(L, np.array([[0, 0, 1.0]] * len(L)) + 0.3 * r.standard_normal((len(L), 3)))
    elif k == "pair":
        # solids that touch in a corner or along an edge only
        A = models.box((0, 0, 0), (1, 1, 1))
        B = models.box((1, 1, 1) if n % 2 else (1, 1, 0), (2, 2, 2) if n % 2 else (2, 2, 1))
        V, F = models.weld(np.vstack([A[0], B[0]]), np.vstack([A[1], B[1] + len(A[0])]))
        if c["sub"]:
            V, F = models.subdivide(V, F)
    else:
        V, F = r.random((3, 3)), np.array([[0, 1, 2]])
    V = np.asarray(V, float)
    F = np.asarray(F, int)
    if k in ("jitter", "field") and r.random() < 0.5 and len(F) > 3:
        F = F[r.random(len(F)) > 0.1]
        if not len(F):
            F = np.array([[0, 1, 2]])
    if c["loose"]:
        V = np.vstack([V, r.random((c["loose"], 3))])
    if c["shuffle"]:
        p = r.permutation(len(V))
        q = np.empty(len(V), int)
        q[p] = np.arange(len(V))
        V, F = V[p], q[F]
        F = F[r.permutation(len(F))]
        F = np.array([np.roll(f, r.integers(3)) for f in F])
    if c["flip"]:
        F = F[:, ::-1].copy()
    M = models.rotation(r) if c["rotate"] else np.eye(3)
    t = (10 * r.random(3) - 5) if c["shift"] else np.zeros(3)
    V = (V @ M.T + t) * c["size"]
    return V, F


def areas(V, F):
    return np.linalg.norm(np.cross(V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]]), axis=1) / 2


def edges(F):
    """edge -> list of (face, +1 if the face runs it upwards)"""
    ed = {}
    for k, f in enumerate(np.asarray(F).tolist()):
        for i in range(3):
            a, b = f[i], f[(i + 1) % 3]
            ed.setdefault((min(a, b), max(a, b)), []).append((k, 1 if a < b else -1))
    return ed


def consistent(F):
    return all(len(v) != 2 or v[0][1] != v[1][1] for v in edges(F).values())
