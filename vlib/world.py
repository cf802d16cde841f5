"""Generated inputs of the interior seeding: boundary seeds, protecting spheres and sizing points.

box   a block of up to three solid layers whose faces carry a grid of spheres and seed pairs astride the cells
ball  a freeform domain: exterior seeds on a shell, some seeds of one or two regions and graded spheres inside"""
import numpy as np
from hypothesis import strategies as st

from . import gen, models


def strategy(threads=(1, 1, 2, 4)):
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["box", "box", "ball"]), "seed": gen.seeds(), "n": st.tuples(*[st.integers(2, 6)] * 3),
        "layers": st.integers(1, 3), "size": st.sampled_from([1.0, 1.0, 0.01, 50.0]), "rotate": st.booleans(),
        "lip": st.sampled_from([0.05, 0.1, 0.25, 0.5, 0.9]), "rmax": st.sampled_from([None, None, 0.7, 1.0, 2.0]),
        "sizing": st.sampled_from([0, 0, 1, 5, 40]), "threads": st.sampled_from(threads), "rng": st.integers(1, 10 ** 6),
        "vary": st.booleans(), "mix": st.booleans(), "cut": st.integers(0, 4)})


class World:
    pass


def grade(x, r, lip):
    d = np.linalg.norm(x[:, None] - x[None], axis=2)
    return (r[None] + lip * d).min(1)


def expand(c):
    g = np.random.default_rng([c["seed"], 83])
    w = World()
    w.lip = c["lip"]
    if c["kind"] == "box":
        n = np.array(c["n"])
        L = min(c["layers"], n[0] // 2 if n[0] >= 4 else 1)
        h = 1.0
        cuts = sorted({0, n[0]} | {int(round(n[0] * k / L)) for k in range(1, L)})
        nodes, seeds, reg = {}, [], []

        def layer(x):
            for k in range(len(cuts) - 1):
                if cuts[k] < x < cuts[k + 1]:
                    return k + 1
            return 0
        planes = [(0, x) for x in cuts] + [(1, 0), (1, n[1]), (2, 0), (2, n[2])]
        for ax, pos in planes:
            u, v = [a for a in range(3) if a != ax]
            for i in range(n[u] + 1):
                for j in range(n[v] + 1):
                    p = [0, 0, 0]
                    p[ax], p[u], p[v] = pos, i, j
                    nodes[tuple(p)] = nodes.get(tuple(p), 0) + 1
            for i in range(n[u]):
                for j in range(n[v]):
                    for s in (-0.25, 0.25):
                        p = np.zeros(3)
                        p[ax], p[u], p[v] = pos + s, i + 0.5, j + 0.5
                        inside = ((p > 0) & (p < n)).all()
                        seeds.append(p * h)
                        reg.append(layer(p[0]) if inside else 0)
        X = np.array(sorted(nodes), float) * h
        k = np.array([nodes[q] for q in sorted(nodes)])
        sph = {"surface": X[k == 1], "edge": X[k == 2], "corner": X[k >= 3]}
        w.sph = {q: np.column_stack([v, np.full(len(v), 0.75 * h)]) for q, v in sph.items()}
        w.S, w.reg = np.array(seeds), np.array(reg)
        w.size = np.full(len(w.S), 0.75 * h)
        if c["vary"]:
            w.size = w.size * (0.6 + 0.4 * g.random(len(w.S)))
        w.unit = h
        w.where = lambda P: np.where(((P > 0) & (P < n)).all(1), np.array([layer(x) for x in P[:, 0]]), 0)
    else:
        # the shell's spheres close it: nothing is smaller than its spacing
        R = 0.8 + 0.2 * sum(c["n"]) / 3
        m = int(4 * np.pi * (R / 0.22) ** 2)
        q = np.arange(m) + 0.5
        z, a = 1 - 2 * q / m, np.pi * (1 + 5 ** 0.5) * q
        v = np.column_stack([np.cos(a) * np.sqrt(1 - z * z), np.sin(a) * np.sqrt(1 - z * z), z])
        shell = v * R
        k = 1 + c["layers"] * 3
        v = g.standard_normal((k, 3))
        ins = v / np.linalg.norm(v, axis=1)[:, None] * R * 0.6 * g.random((k, 1)) ** (1 / 3)
        w.S = np.vstack([shell, ins])
        w.reg = np.append(np.zeros(m, int), np.where((ins[:, 0] > 0) & (c["layers"] > 1), 2, 1))
        w.size = np.append(0.3 + 0.2 * g.random(m), 0.25 + (0.5 if c["vary"] else 0.1) * g.random(k))
        w.sph = {}
        for q, mm in (("surface", c["n"][0] * 6), ("edge", c["n"][1]), ("corner", c["n"][2] - 2)):
            x = R * (2 * g.random((mm, 3)) - 1)
            r = 0.05 + 0.4 * g.random(mm) ** 3
            w.sph[q] = np.column_stack([x, grade(x, r, w.lip) if mm else r])
        w.unit = 0.6
        w.where = None
    if c["mix"]:
        p = g.permutation(len(w.S))
        w.S, w.reg, w.size = w.S[p], w.reg[p], w.size[p]
        # which sphere is in which list does not matter
        al = np.vstack(list(w.sph.values()))
        q = g.integers(0, 3, len(al)) if c["cut"] else g.permutation(len(al)) * 0
        if c["cut"] == 1:
            q = np.where(q == 2, 1, q)
        parts = [al[q == k] for k in range(3)]
        for s in parts:
            if len(s):
                s[:, 3] = grade(s[:, :3], s[:, 3], w.lip)
        w.sph = dict(zip(("surface", "edge", "corner"), parts))
    w.rmax = c["rmax"] * w.unit if c["rmax"] else 1e6
    lo, hi = w.S.min(0), w.S.max(0)
    if c["sizing"]:
        x = lo + (hi - lo) * g.random((c["sizing"], 3))
        w.sz = np.column_stack([x, w.unit * np.exp(g.uniform(np.log(0.5), np.log(3), c["sizing"]))])
    else:
        w.sz = np.zeros((0, 4))
    M = models.rotation(g) if c["rotate"] else np.eye(3)
    t = (5 * g.random(3) if c["rotate"] else np.zeros(3))
    f = c["size"] / w.unit
    w.back = lambda P: (P / f - t) @ M
    mv = lambda P: (P @ M.T + t) * f
    w.S = mv(w.S)
    w.size = w.size * f
    for a in list(w.sph.values()) + [w.sz]:
        if len(a):
            a[:, :3] = mv(a[:, :3])
            a[:, 3] *= f
    w.rmax = min(w.rmax * f, 1e9)
    w.f = f
    w.unit = c["size"]
    return w


def args(c, w, imposed=None):
    a = [np.array([c["threads"]]), np.array([w.lip, w.rmax]), w.S, w.size, w.reg,
         w.sph["surface"], w.sph["edge"], w.sph["corner"], w.sz]
    return a + ([imposed] if imposed is not None else [])


def call(ctx, name, c, w, imposed=None, variant="rel"):
    cnt, s, sz, reg = ctx.srv("srv_mesher", variant).call(name, *args(c, w, imposed), limit=60)
    return cnt, s.reshape(-1, 3), sz, reg
