"""C19: incidences, watertightness, orientation and features of a triangle soup."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, soups
from vlib.core import Check, Group
from vlib.pipe import need


def mobius(n):
    t = 2 * np.pi * np.arange(n) / n
    V = []
    for s in (-0.3, 0.3):
        V.append(np.column_stack([(1 + s * np.cos(t / 2)) * np.cos(t), (1 + s * np.cos(t / 2)) * np.sin(t), s * np.sin(t / 2)]))
    V = np.vstack(V)
    F = []
    for i in range(n):
        a, b, c, d = i, (i + 1) % n, n + i, n + (i + 1) % n
        if i == n - 1:
            b, d = d, b
        F += [(a, b, d), (a, d, c)]
    return V, np.array(F)


def mesh_of(c):
    r = np.random.default_rng([c["soup"]["seed"], 191])
    if c["mobius"]:
        V, F = mobius(c["soup"]["n"] + 5)
        p = r.permutation(len(V))
        q = np.empty(len(V), int)
        q[p] = np.arange(len(V))
        V, F = V[p], q[F][r.permutation(len(F))]
    else:
        V, F = soups.expand(c["soup"])
    if c["more"]:
        # further surfaces, apart from the first
        for k in range(c["more"]):
            W, G = soups.expand(dict(c["soup"], seed=c["soup"]["seed"] // 2 + k, kind=str(r.choice(["model", "field", "fan", "single"]))))
            V, F = np.vstack([V, W + (k + 1) * 40 * c["soup"]["size"]]), np.vstack([F, G + len(V)])
        F = F[r.permutation(len(F))]
    if c["turn"]:
        m = r.random(len(F)) < c["turn"]
        F = F.copy()
        F[m] = F[m][:, ::-1]
    return V, F, r


def incidence(n, F):
    out = [[] for _ in range(n)]
    for k, f in enumerate(F.tolist()):
        for i in f:
            out[i].append(k)
    return out


def unpack(a, n, what):
    out, k = [], 0
    a = a.tolist()
    for _ in range(n):
        need(k < len(a) and a[k] >= 0, "%s: %d entries for %d" % (what, len(a), n))
        out.append(a[k + 1:k + 1 + a[k]])
        k += 1 + a[k]
    need(k == len(a), "%s: %d entries too many" % (what, len(a) - k))
    return out


def orientable(F):
    """is there an orientation in which the two faces of every edge of two faces agree?  and is it the present one?"""
    ed = soups.edges(F)
    nb = [[] for _ in F]
    for v in ed.values():
        if len(v) == 2:
            (a, s), (b, t) = v
            nb[a].append((b, s == t))
            nb[b].append((a, s == t))
    flip = [None] * len(F)
    for k in range(len(F)):
        if flip[k] is None:
            flip[k] = False
            q = [k]
            while q:
                a = q.pop()
                for b, x in nb[a]:
                    w = flip[a] != x
                    if flip[b] is None:
                        flip[b] = w
                        q.append(b)
                    elif flip[b] != w:
                        return False
    return True


def run_topo(case, ctx):
    V, F, r = mesh_of(case)
    n = len(V)
    ed = soups.edges(F)
    keys = list(ed)
    P = [keys[int(k)] for k in r.integers(0, len(keys), min(60, len(keys)))]
    P = [p if r.random() < 0.5 else p[::-1] for p in P] + [tuple(int(t) for t in r.integers(0, n, 2)) for _ in range(10)]
    P = [p for p in P if p[0] != p[1]]
    pf, e1, e2, fn, tight, V2, F2 = ctx.srv("srv_mesh", case["variant"]).call("topo", V, F, np.array(P, int).reshape(-1), limit=60)
    need(np.array_equal(V2.reshape(-1, 3), V) and np.array_equal(F2.reshape(-1, 3), F), "a query changed the mesh")
    inc = incidence(n, F)
    got = unpack(pf, n, "faces of the points")
    for i in range(n):
        need(sorted(got[i]) == sorted(inc[i]), "point %d has the faces %s, expected %s" % (i, sorted(got[i])[:9], sorted(inc[i])[:9]))
    need(np.array_equal(e1, e2), "the faces of an edge differ between the two forms of the query")
    k = 0
    e1 = e1.tolist()
    for i, j in P:
        w = sorted(f for f, _ in ed.get((min(i, j), max(i, j)), []))
        need(k + 1 < len(e1), "answers are missing")
        cnt, m = e1[k], e1[k + 1]
        l = e1[k + 2:k + 2 + m]
        k += 2 + m
        need(cnt == len(w) and sorted(l) == w, "edge (%d, %d) has %d faces %s, expected %s" % (i, j, cnt, l, w))
    t = all(len(v) >= 2 for v in ed.values())
    need(bool(tight[0]) == t, "watertight: %s, expected %s" % (bool(tight[0]), t))
    c = np.cross(V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]])
    a = np.linalg.norm(c, axis=1)
    ok = a > 1e-9
    need(np.abs(fn.reshape(-1, 3)[ok] - (c[ok] / a[ok][:, None])).max(initial=0) < 1e-6, "the normal of a face is wrong")
    return {"nontrivial": len(F) > 1, "labels": [case["soup"]["kind"], "watertight" if t else "open"]}


def run_model(case, ctx):
    V, F, r = mesh_of(case)
    ar = soups.areas(V, F)
    size = np.ptp(V[np.unique(F)], axis=0).max()
    if ar.min() < 1e-9 * size ** 2 or ar.min() < 1e-9:
        return {"nontrivial": False, "labels": ["skipped: degenerate"]}
    v, f, fn, se, sc, sh, pf, box, sv, sf = ctx.srv("srv_mesh", case["variant"]).call("model", V, F, np.array([float(case["angle"])]), limit=60)
    need(np.array_equal(sv.reshape(-1, 3), V) and np.array_equal(sf.reshape(-1, 3), F), "the arrays handed over were changed")
    W, G, N = v.reshape(-1, 3), f.reshape(-1, 3), fn.reshape(-1, 3)
    used = np.unique(F)
    need(np.array_equal(W, V[used]), "the points of the model are not the used points in their order (%d, expected %d)" % (len(W), len(used)))
    q = np.full(len(V), -1)
    q[used] = np.arange(len(used))
    H = q[F]
    need(len(G) == len(H) and np.array_equal(np.sort(G, 1), np.sort(H, 1)), "the triangles of the model are not those of the input")
    can = orientable(H)
    if can:
        need(soups.consistent(G), "two faces of an edge of two faces disagree though the surface is orientable")
    c = np.cross(W[G[:, 1]] - W[G[:, 0]], W[G[:, 2]] - W[G[:, 0]])
    c /= np.linalg.norm(c, axis=1)[:, None]
    need(np.abs(N - c).max() < 1e-6, "the normal of a face does not follow its orientation")
    got = unpack(pf, len(W), "faces of the points")
    inc = incidence(len(W), G)
    need([sorted(x) for x in got] == [sorted(x) for x in inc], "the faces of the points are wrong")
    lo, hi = V.min(0), V.max(0)
    need(np.abs(box - np.concatenate([lo, hi, [np.linalg.norm(hi - lo)]])).max() <= 1e-12 * (1 + np.abs(V).max()), "the bounding box is %s" % box)
    # features
    thr = float(np.cos(case["angle"] * np.pi / 180))
    ed = soups.edges(G)
    sharp, gap = set(), 1.0
    for e, fs in ed.items():
        if len(fs) != 2:
            sharp.add(e)
            continue
        x = float(c[fs[0][0]] @ c[fs[1][0]]) * (-1 if fs[0][1] == fs[1][1] else 1)
        gap = min(gap, abs(x - thr))
        if x < thr:
            sharp.add(e)
    if gap < 1e-9:
        return {"nontrivial": False, "labels": ["skipped: undecided"]}
    se = se.reshape(-1, 2)
    gs = [(int(min(a, b)), int(max(a, b))) for a, b in se]
    need(len(set(gs)) == len(gs), "a sharp edge is listed twice")
    need(set(gs) == sharp, "sharp edges not expected: %s; missing: %s" % (sorted(set(gs) - sharp)[:4], sorted(sharp - set(gs))[:4]))
    w = [int((min(a, b), max(a, b)) in sharp) for t in G.tolist() for a, b in zip(t, t[1:] + t[:1])]
    need(sh.tolist() == w, "an edge is taken for sharp or smooth wrongly")
    need(len(set(sc.tolist())) == len(sc), "a sharp corner is listed twice")
    at = {}
    for a, b in sharp:
        at.setdefault(a, []).append(b)
        at.setdefault(b, []).append(a)
    for p, x in at.items():
        if len(x) != 2:
            need(p in sc, "point %d with %d sharp edges is no corner" % (p, len(x)))
        else:
            u, t = W[x[0]] - W[p], W[x[1]] - W[p]
            d = -float(u @ t) / np.linalg.norm(u) / np.linalg.norm(t)
            if abs(d - thr) > 1e-9:
                need((p in sc) == (d < thr), "point %d is %sa corner though its two sharp edges turn by %.6g degrees" % (p, "" if p in sc else "not ", np.degrees(np.arccos(np.clip(d, -1, 1)))))
    return {"nontrivial": len(F) > 1, "labels": [case["soup"]["kind"], "orientable" if can else "not orientable"]}


def strat(variant):
    return lambda: st.fixed_dictionaries({
        "soup": soups.strategy(), "turn": st.sampled_from([0, 0.02, 0.1, 0.5, 0.5]), "more": st.sampled_from([0, 0, 1, 3]),
        "mobius": st.sampled_from([False] * 7 + [True]), "angle": st.one_of(st.floats(1, 89), st.sampled_from([20.0])), "variant": st.just(variant)})


CHECK = Check(
    "C19",
    rule="A case is a surface (closed, open, non-manifold, doubled faces, several pieces, Moebius strips, loose points), shuffled, with none to half of its faces turned over; "
         "incidences of all points and of up to 70 pairs of points, and the processed model, are compared with a direct evaluation. Non-trivial: more than one face.",
    groups=[Group("topo", strat("rel"), run_topo, quick=6000, thorough=120000),
            Group("topo_asan", strat("asan"), run_topo, quick=400, thorough=10000),
            Group("model", strat("rel"), run_model, quick=5000, thorough=100000),
            Group("model_asan", strat("asan"), run_model, quick=400, thorough=10000)],
    targets=[("srv_mesh", "rel"), ("srv_mesh", "asan")],
    assumptions=["triangles have three distinct corners", "no face of the model group is degenerate; angles within 1e-9 (in the cosine) of the threshold are not decided"],
)
