"""C08: surface seeds are the valid sphere intersections, in pairs, and the surface closes."""
import numpy as np
from scipy.spatial import cKDTree

from vlib import models, pipe, runs
from vlib.core import Check, Group
from vlib.pipe import need


def triples(X, R, ns):
    """index triples i<j<k, i a surface sphere, that overlap pairwise"""
    n = len(X)
    nb = [set() for _ in range(n)]
    pr = cKDTree(X).query_pairs(2 * R.max(), output_type="ndarray")
    d = np.linalg.norm(X[pr[:, 0]] - X[pr[:, 1]], axis=1)
    pr = pr[d < R[pr[:, 0]] + R[pr[:, 1]]]
    for i, j in pr.tolist():
        nb[min(i, j)].add(max(i, j))
    out = []
    for i in range(min(ns, n)):
        for j in nb[i]:
            for k in nb[i] & nb[j]:
                out.append((i, j, k))
    return np.array(sorted(out), int).reshape(-1, 3)


def intersections(X, R, T):
    """-> (ok, P, Q): the two points on three spheres; ok 1 if they exist, 0 if not, -1 if that is a matter of rounding"""
    a, b, c = X[T[:, 0]], X[T[:, 1]], X[T[:, 2]]
    ra, rb, rc = (R[T[:, q]] for q in range(3))
    ex = b - a
    d = np.linalg.norm(ex, axis=1)
    ex = ex / d[:, None]
    ac = c - a
    i = np.einsum("ij,ij->i", ex, ac)
    ey = ac - i[:, None] * ex
    j = np.linalg.norm(ey, axis=1)
    flat = j < 1e-6 * d
    jj = np.where(flat, 1, j)
    ey = ey / jj[:, None]
    ez = np.cross(ex, ey)
    x = (ra ** 2 - rb ** 2 + d ** 2) / (2 * d)
    y = (ra ** 2 - rc ** 2 + i ** 2 + j ** 2) / (2 * jj) - i / jj * x
    z2 = ra ** 2 - x ** 2 - y ** 2
    ok = np.where(z2 > 1e-7 * ra ** 2, 1, np.where(z2 < -1e-7 * ra ** 2, 0, -1))
    ok[flat] = -1
    z = np.sqrt(np.maximum(z2, 0))
    base = a + x[:, None] * ex + y[:, None] * ey
    return ok, base + z[:, None] * ez, base - z[:, None] * ez


def inside(P, X, R, T):
    """1: strictly inside another sphere, 0: outside all others, -1: on another one within rounding"""
    t = cKDTree(X)
    out = np.zeros(len(P), int)
    for n, q in enumerate(t.query_ball_point(P, R.max())):
        q = np.array([s for s in q if s not in T[n]], int)
        if not len(q):
            continue
        e = np.linalg.norm(X[q] - P[n], axis=1) / R[q] - 1
        out[n] = 1 if e.min() < -1e-6 else (-1 if e.min() < 1e-6 else 0)
    return out


def run(case, ctx):
    r = runs.execute(case, ctx)
    try:
        m, size = r.m, case["size"]
        runs.read_spheres(r)
        runs.read_seeds(r)
        labels = {case["kind"]}
        co, ed, su = (r.sph[k][:, :4] for k in ("corner", "edge", "surface"))
        al = np.vstack([x for x in (su, ed, co) if len(x)])
        X, R = al[:, :3], al[:, 3]
        ns = len(su)
        T = triples(X, R, ns)
        need(len(T) > 0, "no three spheres overlap")
        ok, P, Q = intersections(X, R, T)
        p, q = inside(P, X, R, T), inside(Q, X, R, T)
        # every pair in the open is a pair of seeds, no pair is half covered
        half = (ok == 1) & (((p == 0) & (q == 1)) | ((p == 1) & (q == 0)))
        need(not half.any(), "of the two points common to the spheres %s exactly one lies inside another sphere" % (
            T[half][0] if half.any() else None))
        yes = (ok == 1) & (p == 0) & (q == 0)
        tree = cKDTree(r.S)
        tol = 1e-6 * R[T].min(1)
        used = {}
        for n in np.nonzero(yes)[0]:
            (d1, i1), (d2, i2) = tree.query(P[n]), tree.query(Q[n])
            need(d1 < tol[n] and d2 < tol[n], "the spheres %s meet in the open at %s and %s, the nearest seeds are %g and %g away" % (
                T[n], P[n], Q[n], d1, d2))
            need(r.reg[i1] != r.reg[i2], "the seeds %d and %d on the two sides of the surface both have region %d" % (i1, i2, r.reg[i1]))
            for i in (i1, i2):
                used[i] = min(used.get(i, np.inf), R[T[n]].min())
        for i, z in used.items():
            need(r.sz_seed[i] <= z * (1 + 1e-9) and r.sz_seed[i] > 0, "seed %d has size %g, its smallest sphere %g" % (i, r.sz_seed[i], z))
        # no seed inside a sphere, no other seed on three of them
        st = cKDTree(X)
        for i, s in enumerate(st.query_ball_point(r.S, R.max() * (1 + 1e-6))):
            s = np.array(s, int)
            if not len(s):
                continue
            e = np.linalg.norm(X[s] - r.S[i], axis=1) / R[s] - 1
            need(e.min() > -1e-6, "seed %d at %s lies inside sphere %d" % (i, r.S[i], s[e.argmin()]))
        n0 = max(used) + 1 if used else 0
        on = np.array([i in used for i in range(n0)])
        unsure = int(((ok == -1) | (p == -1) | (q == -1)).sum())
        need(unsure > 0 or on.all(), "seed %d of the surface seeds is no intersection of three spheres" % (~on).argmax())
        # the surface mesh
        V, F = pipe.read_obj(runs.path(r, "surface_mesh.obj"))
        need(len(V) == len(al) and np.abs(V - X).max() < 1e-9 * (np.abs(X).max() + size), "the vertices of the surface mesh are not the sphere centres")
        want = {tuple(t) for t in T[yes].tolist()}
        maybe = want | {tuple(t) for t in T[(ok == -1) | (p == -1) | (q == -1)].tolist()}
        got = [tuple(sorted(f)) for f in F.tolist()]
        for f in got:
            need(f in maybe, "the surface mesh has the face %s, whose spheres have no pair of seeds" % (f,))
        if unsure == 0:
            need(want == set(got) and len(got) == len(want), "the surface mesh has %d faces, %d sphere triples have seeds" % (len(got), len(want)))
        ne = {}
        for f in F:
            for a in range(3):
                e = tuple(sorted((f[a], f[(a + 1) % 3])))
                ne[e] = ne.get(e, 0) + 1
        one = len(m.cells) == 1
        for e, k in ne.items():
            need(k >= 2, "the edge %s of the surface mesh has one face" % (e,))
            need(k == 2 or (e[0] >= ns and e[1] >= ns and not one), "the edge %s of the surface mesh has %d faces" % (e, k))
        if m.planar:
            ar = np.linalg.norm(np.cross(V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]]), axis=1).sum() / 2
            A = np.linalg.norm(np.cross(m.V[m.F[:, 1]] - m.V[m.F[:, 0]], m.V[m.F[:, 2]] - m.V[m.F[:, 0]]), axis=1).sum() / 2
            # (the shared faces of this one are triangulated differently on their two sides)
            need(m.kind == "grid22" or abs(ar - A) <= 1e-7 * A, "the surface mesh has area %.12g, the model %.12g" % (ar, A))
            if one:
                c = m.V.mean(0)
                v, w = models.signed_volume(V - c, F), m.volumes()[0]
                need(abs(abs(v) - w) <= 1e-7 * w, "the surface mesh encloses the volume %.12g, the model has %.12g" % (v, w))
        if unsure:
            labels.add("rounding cases")
        return {"nontrivial": yes.sum() >= 40, "labels": sorted(labels)}
    finally:
        ctx.drop(r.dir)


CHECK = Check(
    "C08",
    rule="A case is a generated solid or group of touching solids and a configuration, run by the whole program; the seeds and the surface mesh are "
         "compared with all points common to three spheres of its sphere files. Non-trivial: at least 40 sphere triples with seeds.",
    groups=[Group("run", lambda: runs.strategy(threads=(1, 1, 1, 2, 4), lips=(0.1, 0.25, 0.5, 0.9), rmax=(None, 0.3, 0.2, 0.15), sizing=True,
                                               angle=(20, 20, 10, 30)),
                  run, quick=44, thorough=800, shrink=runs.simpler),
            Group("curved", lambda: runs.strategy(kinds=["sphere", "cylinder"], rmax=(0.4, 0.3), lips=(0.3, 0.6), angle=(30,)).map(
                lambda c: dict(c, sub=False)), run, quick=8, thorough=60, shrink=runs.simpler)],
    targets=[("vc_mesh", "rel")],
    assumptions=["points within 1e-6 of a further sphere's surface, relative to its radius, may go either way"],
)
