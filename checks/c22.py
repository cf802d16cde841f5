"""C22: spokes, cells, vertices and neighbours from the point index equal half-space clipping."""
import numpy as np
from hypothesis import strategies as st
from scipy.spatial import ConvexHull, QhullError, Voronoi

from vlib import gen, seedsets
from vlib.core import Check, Group
from vlib.pipe import need

BIG = np.finfo(float).max


def cloud(c):
    r = np.random.default_rng([c["seed"], 22])
    dim, n = c["dim"], c["n"]
    X = gen.cloud(c["kind"], n, dim, c["seed"])
    X = np.unique(np.asarray(X, float).reshape(-1, dim), axis=0)
    X = X[r.permutation(len(X))]
    s = 10.0 ** c["scale"]
    # coincident points have no bisector
    from scipy.spatial import cKDTree
    far = np.ones(len(X), bool)
    for a, b in cKDTree(X).query_pairs(1e-4):
        far[max(a, b)] = False
    X = X[far]
    return X * s + np.array(c["off"][:dim]) * s, s, r


def crossings(S, c, o, d, skip):
    """where the ray leaves the half-spaces of c against every seed: t, slope"""
    n = S - c
    mid = 0.5 * (S + c)
    a = ((mid - o) * n).sum(1)
    e = n @ d
    with np.errstate(divide="ignore", invalid="ignore"):
        t = np.where(e > 0, np.maximum(a, 0) / e, np.inf)
    t[skip] = np.inf
    return t, e, np.linalg.norm(n, axis=1)


def run_trim(case, ctx):
    S, s, r = cloud(case)
    if len(S) < 2:
        return {"nontrivial": False, "labels": ["skipped: too few points"]}
    dim = case["dim"]
    m = 12
    # the seed of the cell: stored, or a new point
    stored = case["stored"]
    if stored:
        k = int(r.integers(len(S)))
        c = S[k].copy()
        inv = [k]
    else:
        c = S.mean(0) + s * 0.6 * (r.random(dim) - 0.5)
        k, inv = -1, []
        if np.linalg.norm(S - c, axis=1).min() < 1e-3 * s:
            return {"nontrivial": False, "labels": ["skipped: coincident"]}
    o = c.copy()
    D = gen.unit(r, m, dim)
    if dim > 1 and r.random() < 0.2:
        D = np.vstack([np.eye(dim), -np.eye(dim)])[:m]
    lab = {"stored" if stored else "new"}
    if case["inside"]:
        # an origin inside the cell
        d0 = gen.unit(r, 1, dim)[0]
        t, e, w = crossings(S, c, c, d0, inv)
        t0 = min(t.min(), s)
        o = c + d0 * t0 * r.random() * 0.98
        lab.add("inside")
    if case["more"] and len(S) > 3:
        # more seeds that do not count
        inv = inv + [int(x) for x in r.choice([i for i in range(len(S)) if i != k], min(3, len(S) - 2), replace=False)]
        lab.add("excluded")
    L = np.full(len(D), BIG)
    cut = r.random(len(D)) < 0.3
    ref = []
    for j, d in enumerate(D):
        t, e, w = crossings(S, c, o, d, inv)
        ref.append((t, e, w))
        if cut[j]:
            x = t.min() if np.isfinite(t.min()) else s
            L[j] = x * float(r.choice([0.3, 0.9, 1.1, 3.0]))
    out = ctx.srv("srv_tree", case["variant"]).call("trim", np.array([dim]), S, np.array(inv, dtype=np.int64), c, o, D, L, limit=20)
    nb, ln = out
    seen = 0
    for j, d in enumerate(D):
        t, e, w = ref[j]
        # directions nearly along a bisector are not decided
        t2 = np.where(e > 1e-6 * w, t, np.inf)
        if (np.abs(e) <= 1e-6 * w).any() and np.isfinite(t).any() and t.min() != t2.min():
            continue
        want = min(t2.min(), L[j])
        tol = 1e-7 * (s + (want if want < BIG else 0) + np.abs(S).max() * 1e-3)
        if want == BIG:
            need(ln[j] == BIG or ln[j] > 1e5 * s, "spoke %d ends after %r, its direction is unbounded" % (j, ln[j]))
            continue
        if want > 1e4 * s:
            continue
        need(abs(ln[j] - want) <= tol, "spoke %d ends after %r, it leaves the cell after %r (%s)" % (j, ln[j], want, "cut before" if want == L[j] else "by seed %d" % int(t2.argmin())))
        if want < L[j] - tol:
            b = int(nb[j])
            need(0 <= b < len(S) and b not in inv, "spoke %d: neighbour %d of %d points" % (j, b, len(S)))
            need(abs(t[b] - want) <= 3 * tol, "spoke %d: neighbour %d trims it at %r, not at %r" % (j, b, t[b], want))
            seen += 1
        elif want < want + tol < t2.min():
            need(int(nb[j]) == len(S), "spoke %d is not trimmed by any seed, yet a neighbour %d is given" % (j, nb[j]))
    return {"nontrivial": seen >= 3, "labels": sorted(lab) + ["dim %d" % dim]}


def strat_trim(variant):
    return lambda: st.fixed_dictionaries({
        "dim": st.sampled_from([1, 2, 2, 3, 3, 3, 4, 5, 6]), "n": st.integers(2, 400), "seed": gen.seeds(), "kind": st.sampled_from(gen.KINDS),
        "scale": st.sampled_from([0, 0, -1, 1, 2]), "off": st.lists(st.sampled_from([0.0, 0.0, 3.0, -10.0]), min_size=6, max_size=6),
        "stored": st.booleans(), "inside": st.booleans(), "more": st.booleans(), "variant": st.just(variant)})


def run_vertex(case, ctx):
    r = np.random.default_rng([case["seed"], 23])
    dim = case["dim"]
    s = 10.0 ** case["scale"]
    n = dim + 1 + case["extra"]
    S = s * (r.random((n, dim)) + np.array(case["off"][:dim]))
    idx = r.permutation(n)[:dim + 1]
    A = S[idx[1:]] - S[idx[0]]
    if np.linalg.cond(A) > 1e4:
        return {"nontrivial": False, "labels": ["skipped: nearly flat"]}
    b = (A * 0.5 * (S[idx[1:]] + S[idx[0]])).sum(1)
    want = np.linalg.solve(A, b)
    ok, v = ctx.srv("srv_tree", case["variant"]).call("vertex", np.array([dim]), S, idx.astype(np.int64), limit=20)
    need(ok[0] == 1, "no vertex of %d seeds" % len(idx))
    d = np.linalg.norm(S[idx] - v, axis=1)
    tol = 1e-9 * (1 + max(abs(t) for t in case["off"])) * s * np.linalg.cond(A)
    need(np.abs(v - want).max() <= tol and np.ptp(d) <= tol, "the vertex of %d seeds in %d dimensions is at distances %s from them" % (len(idx), dim, d))
    if case["extra"] >= 1 or dim > 1:
        k = len(idx) + (1 if case["extra"] else -1)
        j = r.permutation(n)[:k]
        ok, v = ctx.srv("srv_tree", case["variant"]).call("vertex", np.array([dim]), S, j.astype(np.int64), limit=20)
        need(ok[0] == 0, "%d seeds in %d dimensions are said to have a vertex" % (k, dim))
    return {"nontrivial": True, "labels": ["dim %d" % dim]}


def strat_vertex(variant):
    return lambda: st.fixed_dictionaries({
        "dim": st.integers(1, 6), "extra": st.integers(0, 5), "seed": gen.seeds(), "scale": st.sampled_from([0, -1, 1, 2]),
        "off": st.lists(st.sampled_from([0.0, 0.0, 3.0, -10.0]), min_size=6, max_size=6), "variant": st.just(variant)})


def bounded(case):
    """seeds around one another, in general position, with the first n cells bounded"""
    r = np.random.default_rng([case["seed"], 24])
    n = case["n"]
    k = case["kind"]
    X = r.random((n, 3)) - 0.5
    if k == "graded":
        X = np.sign(X) * np.abs(2 * X) ** 2.5 / 2
    elif k == "flat":
        X[:, 2] *= 0.05
    elif k == "thin":
        X[:, 1:] *= 0.03
    elif k == "jlattice":
        m = int(round(n ** (1 / 3.0))) + 1
        X = (np.stack(np.meshgrid(*[np.arange(m)] * 3, indexing="ij"), -1).reshape(-1, 3)[:n] + 0.02 * r.random((n, 3))) / m - 0.5
    elif k == "around":
        # one cell with many neighbours
        X = np.vstack([0.01 * r.standard_normal((1, 3)), gen.unit(r, n - 1, 3) * (0.5 + 0.01 * r.random((n - 1, 1)))])
    X += 1e-4 * (r.random((n, 3)) - 0.5)
    S = np.vstack([X, 1.4 * seedsets.fib_sphere(int(r.integers(30, 90)), r)])
    p = r.permutation(len(S))
    q = np.empty(len(S), int)
    q[p] = np.arange(len(S))
    s = 10.0 ** case["scale"]
    return S[p] * s + np.array(case["off"]) * s, q[:n], s, r


def run_cell(case, ctx):
    S, cells, s, r = bounded(case)
    V = Voronoi(S)
    from scipy.spatial import cKDTree
    d5 = cKDTree(S).query(V.vertices, k=5)[0]
    srv = ctx.srv("srv_tree", case["variant"])
    done = 0
    many = 0
    for i in [int(x) for x in r.permutation(cells)[:6]] if case["kind"] != "around" else [int(cells[0])] + [int(x) for x in r.permutation(cells)[:3]]:
        reg = V.regions[V.point_region[i]]
        if not reg or -1 in reg:
            continue
        P = V.vertices[reg]
        g = d5[reg]
        # four seeds at each corner, clearly, and no tiny edges
        if (g[:, 4] - g[:, 3]).min() < 1e-4 * s or len(P) < 4:
            continue
        gap = cKDTree(P).query(P, k=2)[0][:, 1].min()
        if gap < 1e-4 * s:
            continue
        nn, nc, vol, area, cor = srv.call("cell", S, np.array([i]), limit=20)
        want = {}
        for (a, b), rv in zip(V.ridge_points, V.ridge_vertices):
            if i in (a, b):
                want[int(a if b == i else b)] = V.vertices[rv]
        need(sorted(nn.tolist()) == sorted(want), "seed %d: neighbours %s, expected %s" % (i, sorted(nn.tolist()), sorted(want)))
        cor = cor.reshape(-1, 3)
        at = 0
        rv = ConvexHull(P).volume
        need(abs(vol[0] - rv) <= 1e-6 * s ** 3, "seed %d: volume %r, expected %r" % (i, vol[0], rv))
        for j, k, A in zip(nn.tolist(), nc.tolist(), area):
            C = cor[at:at + k]
            at += k
            W = want[j]
            need(k == len(W), "face of seeds %d and %d has %d corners, expected %d" % (i, j, k, len(W)))
            dist = np.linalg.norm(C[:, None] - W[None], axis=2)
            need(dist.min(1).max() < 1e-5 * s and len(set(dist.argmin(1).tolist())) == k, "face of seeds %d and %d: corners %s, expected %s" % (i, j, C, W))
            nrm = np.cross(C - C[0], np.roll(C, -1, 0) - C[0]).sum(0) / 2
            u = (S[j] - S[i]) / np.linalg.norm(S[j] - S[i])
            need(abs(abs(nrm @ u) - A) <= 1e-6 * s * s, "face of seeds %d and %d: area %r, its corners in order enclose %r" % (i, j, A, abs(nrm @ u)))
        done += 1
        many = max(many, len(nn))
    return {"nontrivial": done > 0, "labels": [case["kind"], "over 30 faces" if many > 30 else "up to 30 faces"]}


def strat_cell(variant):
    return lambda: st.fixed_dictionaries({
        "n": st.integers(1, 160), "seed": gen.seeds(), "kind": st.sampled_from(["uniform", "uniform", "graded", "flat", "thin", "jlattice", "around"]),
        "scale": st.sampled_from([0, 0, 1, -1]), "off": st.sampled_from([[0, 0, 0], [3.0, -2.0, 0.5]]), "variant": st.just(variant)}).filter(lambda c: c["n"] > 8 or c["kind"] == "uniform")


def run_neigh(case, ctx):
    S, cells, s, r = bounded(case)
    if case["stored"]:
        i = int(cells[int(r.integers(len(cells)))])
        x, T = S[i].copy(), S
    else:
        x = S[int(cells[0])] + 0.05 * s * r.standard_normal(3)
        if np.linalg.norm(S - x, axis=1).min() < 1e-3 * s or np.linalg.norm(x - S.mean(0)) > s:
            return {"nontrivial": False, "labels": ["skipped: coincident"]}
        T = np.vstack([S, x])
        i = len(S)
    V = Voronoi(T)
    reg = V.regions[V.point_region[i]]
    if not reg or -1 in reg:
        return {"nontrivial": False, "labels": ["skipped: unbounded"]}
    P = V.vertices[reg]
    area = {}
    for (a, b), rv in zip(V.ridge_points, V.ridge_vertices):
        if i in (a, b):
            W = V.vertices[rv]
            area[int(a if b == i else b)] = np.linalg.norm(np.cross(W - W[0], np.roll(W, -1, 0) - W[0]).sum(0)) / 2
    ns, nl = case["spokes"], case["layers"]
    nb, hits, lev = ctx.srv("srv_tree", case["variant"]).call("neigh", np.array([3]), S, x, np.array([ns, nl]), limit=20)
    nb, hits, lev = nb.tolist(), hits.tolist(), lev.tolist()
    need(len(set(nb)) == len(nb), "a neighbour is listed twice: %s" % nb)
    need(all(0 <= b < len(S) for b in nb), "neighbours %s of %d points" % (nb, len(S)))
    if case["stored"]:
        need(nb[0] == i and lev[0] == 0, "the seed itself is not first: %s" % nb[:3])
        nb, hits, lev = nb[1:], hits[1:], lev[1:]
    first = [b for b, l in zip(nb, lev) if l == 1]
    bad = [b for b in first if b not in area]
    need(not bad, "%s are no neighbours of the cell" % bad)
    need(lev == sorted(lev) and all(1 <= l <= nl for l in lev), "levels %s of %d layers" % (lev, nl))
    need(all(h >= 1 for h in hits), "hits %s" % hits)
    if nl == 1:
        need(sum(hits) == ns, "%d spokes hit %d times" % (ns, sum(hits)))
        # the solid angle of a face gives its chance of being hit: find those that can hardly be missed
        for b, A in area.items():
            R = np.linalg.norm(P - x, axis=1).max()
            h = np.linalg.norm(S[b] - x) / 2
            frac = A * h / (4 * np.pi * R ** 3)
            if frac * ns > 40:
                need(b in first, "%d spokes all missed the face with seed %d, of at least %.3f of the sphere" % (ns, b, frac))
    else:
        # the next layer holds seeds behind those found
        need(sum(hits) <= ns * nl, "%d spokes hit %d times" % (ns * nl, sum(hits)))
    return {"nontrivial": len(first) >= 4, "labels": ["layers %d" % nl, "stored" if case["stored"] else "new"]}


def strat_neigh(variant):
    return lambda: st.tuples(strat_cell(variant)(), st.fixed_dictionaries({
        "stored": st.booleans(), "spokes": st.sampled_from([1, 10, 100, 1000, 3000]), "layers": st.sampled_from([1, 1, 1, 2, 3])})).map(lambda t: dict(t[0], **t[1]))


def run_spokes(case, ctx):
    """random spokes with their ends, in any dimension: every end is where the cell is left"""
    S, s, r = cloud(case)
    dim = case["dim"]
    if len(S) < 3:
        return {"nontrivial": False, "labels": ["skipped: too few points"]}
    if case["stored"]:
        i = int(r.integers(len(S)))
        x, inv = S[i].copy(), [i]
    else:
        x, inv = S.mean(0) + 0.6 * s * (r.random(dim) - 0.5), []
        if np.linalg.norm(S - x, axis=1).min() < 1e-3 * s:
            return {"nontrivial": False, "labels": ["skipped: coincident"]}
    ns = case["spokes"]
    nb, hits, lev, en, P = ctx.srv("srv_tree", case["variant"]).call("spokes", np.array([dim]), S, x, np.array([ns, 1, case["thread"]]), limit=20)
    P = P.reshape(ns, dim)
    count = {}
    bounded_ = 0
    for k in range(ns):
        v = P[k] - x
        L = np.linalg.norm(v)
        if int(en[k]) < 0 or int(en[k]) >= 2 ** 62:
            # no end: a unit vector, along which no bisector is met
            need(abs(np.linalg.norm(P[k]) - 1) < 1e-9, "spoke %d has no end and direction %s" % (k, P[k]))
            t, e, w = crossings(S, x, x, P[k], inv)
            need(not np.isfinite(t[e > 1e-6 * w]).any(), "spoke %d is said to have no end, it leaves the cell after %r" % (k, t.min()))
            continue
        count[int(en[k])] = count.get(int(en[k]), 0) + 1
        if L > 1e4 * s:
            continue
        bounded_ += 1
        b = int(en[k])
        need(0 <= b < len(S) and b not in inv, "spoke %d: neighbour %d of %d points" % (k, b, len(S)))
        d = np.linalg.norm(S - P[k], axis=1)
        tol = 1e-7 * (s + L + np.abs(S).max() * 1e-3)
        if L > 1e-9:
            t, e, w = crossings(S, x, x, v / L, inv)
            near = (e > 0) & (e <= 1e-6 * w) & (t < L)
            if near.any():
                continue
            tol /= max(1e-6, (e[b] / w[b]))
        need(abs(d[b] - L) <= tol and d.min() >= L - tol, "spoke %d ends at distance %r from its cell's seed, %r from neighbour %d and %r from the closest seed" % (k, L, d[b], b, d.min()))
    nb, hits, lev = nb.tolist(), hits.tolist(), lev.tolist()
    if case["stored"]:
        need(nb and nb[0] == inv[0] and lev[0] == 0, "the seed itself is not first: %s" % nb[:3])
        nb, hits, lev = nb[1:], hits[1:], lev[1:]
    need(dict(zip(nb, hits)) == count and len(set(nb)) == len(nb), "neighbours and hits %s, those of the spokes are %s" % (dict(zip(nb, hits)), count))
    return {"nontrivial": bounded_ >= 3, "labels": ["dim %d" % dim, "thread" if case["thread"] >= 0 else "serial", "over 100 neighbours" if len(nb) > 100 else "few"]}


def strat_spokes(variant):
    return lambda: st.fixed_dictionaries({
        "dim": st.sampled_from([1, 2, 3, 3, 4, 5, 6]), "n": st.integers(3, 400), "seed": gen.seeds(), "kind": st.sampled_from(gen.KINDS),
        "scale": st.sampled_from([0, 0, 1]), "off": st.lists(st.sampled_from([0.0, 0.0, 3.0]), min_size=6, max_size=6), "stored": st.booleans(),
        "spokes": st.sampled_from([1, 10, 60, 300, 1000]), "thread": st.sampled_from([-1, 0, 1, 3]), "variant": st.just(variant)})


def run_wanted(case, ctx):
    """neighbours one after the other, each behind those before it"""
    S, cells, s, r = bounded(case)
    i = int(cells[int(r.integers(len(cells)))])
    x = S[i].copy()
    k = min(case["wanted"], max(2, len(S) // 4))
    nb = ctx.srv("srv_tree", case["variant"]).call("wanted", np.array([3]), S, x, np.array([k]), limit=20)[0].tolist()
    need(len(nb) == k and len(set(nb)) == k and all(0 <= b < len(S) for b in nb), "%d neighbours are asked for: %s" % (k, nb))
    need(nb[0] == i, "the seed itself is not first: %s" % nb[:3])
    for m in range(1, min(k, 12)):
        # a neighbour of the cell among the seeds not yet listed
        T = np.array([q for q in range(len(S)) if q == i or q not in nb[1:m]])
        V = Voronoi(S[T])
        at = int(np.nonzero(T == i)[0][0])
        ok = {int(T[a if b == at else b]) for a, b in V.ridge_points if at in (a, b)}
        need(nb[m] in ok, "%d is no neighbour of the cell once %s are left out" % (nb[m], nb[1:m]))
    return {"nontrivial": k >= 4, "labels": [case["kind"]]}


def strat_wanted(variant):
    return lambda: st.tuples(strat_cell(variant)(), st.fixed_dictionaries({"wanted": st.integers(1, 40)})).map(lambda t: dict(t[0], **t[1]))


CHECK = Check(
    "C22",
    rule="A case is a point set (1 to 6 dimensions for spokes and vertices, 3 for cells and neighbours) and a dozen spokes, one vertex, up to six cells or a set of random spokes. Spoke ends and neighbours are compared with "
         "clipping against every bisector, cells with Qhull. Non-trivial: three spokes trimmed, a cell compared, or four neighbours found.",
    groups=[Group("trim", strat_trim("rel"), run_trim, quick=4000, thorough=100000),
            Group("trim_asan", strat_trim("asan"), run_trim, quick=400, thorough=8000),
            Group("vertex", strat_vertex("rel"), run_vertex, quick=2000, thorough=40000),
            Group("cell", strat_cell("rel"), run_cell, quick=800, thorough=20000),
            Group("cell_asan", strat_cell("asan"), run_cell, quick=80, thorough=2000),
            Group("neigh", strat_neigh("rel"), run_neigh, quick=800, thorough=20000),
            Group("spokes", strat_spokes("rel"), run_spokes, quick=1200, thorough=30000),
            Group("spokes_asan", strat_spokes("asan"), run_spokes, quick=120, thorough=3000),
            Group("wanted", strat_wanted("rel"), run_wanted, quick=300, thorough=6000),
            Group("neigh_asan", strat_neigh("asan"), run_neigh, quick=80, thorough=2000)],
    targets=[("srv_tree", "rel"), ("srv_tree", "asan")],
    assumptions=["seeds are distinct; directions within 1e-6 of a bisector and corners with a fifth seed within 1e-4 are not decided; Qhull is trusted"],
)
