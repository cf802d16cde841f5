"""C07: protecting spheres sit on their features, obey the limits, keep their spacing and cover the surface."""
import numpy as np
from hypothesis import strategies as st
from scipy.spatial import cKDTree

from vlib import models, runs
from vlib.core import Check, Group
from vlib.pipe import need


def uncovered_edge(A, B, X, R):
    """the part of the segment outside every sphere, as (t0, t1) of its longest gap (exact)"""
    L = np.linalg.norm(B - A)
    e = (B - A) / L
    t = (X - A) @ e
    h = np.linalg.norm(X - A - t[:, None] * e, axis=1)
    k = h < R
    w = np.sqrt(R[k] ** 2 - h[k] ** 2)
    iv = sorted(zip(t[k] - w, t[k] + w))
    cur, gap = 0.0, (0.0, 0.0)
    for a, b in iv:
        if a > cur and min(a, L) - cur > gap[1] - gap[0]:
            gap = (cur, min(a, L))
        cur = max(cur, b)
        if cur >= L:
            break
    if cur < L and L - cur > gap[1] - gap[0]:
        gap = (cur, L)
    return gap


def uncovered_face(T, X, R, tol, depth=11):
    """a point of the triangles (n,3,3) outside every sphere by more than tol, or None: a triangle with its
    corners in one sphere lies in it, others are split; -> (point, number of triangles looked at)"""
    seen = 0
    rmax = R.max()
    o = np.argsort(-R)
    X, R = X[o], R[o]
    tree = cKDTree(X)
    for _ in range(depth):
        if not len(T):
            return None, seen
        seen += len(T)
        c = T.mean(1)
        rad = np.linalg.norm(T - c[:, None], axis=2).max(1)
        cand = tree.query_ball_point(c, rmax + rad)
        keep = []
        for i, q in enumerate(cand):
            q = np.array(q, int)
            if len(q):
                d = np.linalg.norm(T[i][None] - X[q][:, None], axis=2)
                out = d > R[q][:, None] + tol
                if (~out.any(1)).any():
                    continue
                p = out.all(0)
            else:
                p = np.ones(3, bool)
            if p.any():
                return T[i][np.argmax(p)], seen
            keep.append(i)
        T = T[keep]
        a, b, c = T[:, 0], T[:, 1], T[:, 2]
        x, y, z = (a + b) / 2, (b + c) / 2, (c + a) / 2
        T = np.concatenate([np.stack(t, 1) for t in ((a, x, z), (x, b, y), (z, y, c), (x, y, z))]) if len(T) else T
    return None, seen


REACH = 0.5


def reach(V, F, A, B, sph, kind, eps):
    """the largest radius over distance to a part of the planar model that is not on a plane or line of the sphere's own
    feature; -> (ratio, sphere)"""
    if not len(sph):
        return 0.0, 0
    X, R = sph[:, :3], sph[:, 3]
    n = np.cross(V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]])
    n /= np.linalg.norm(n, axis=1)[:, None]
    D = models.point_tri_dist(X, V, F)
    par = np.abs(n @ n.T) > 1 - 1e-9
    off = np.abs(np.einsum("ijk,jk->ij", V[F[:, 0]][None] - X[:, None], n)) < eps  # plane through the centre
    inc = D < eps
    far = np.where(((inc.astype(float) @ par) > 0) & off, np.inf, D).min(1)
    if kind != "surface" and len(A):
        t = (B - A) / np.linalg.norm(B - A, axis=1)[:, None]
        E = models.seg_dist(X, A, B)
        line = np.linalg.norm(np.cross(A[None] - X[:, None], t[None]), axis=2) < eps
        on = ((E < eps).astype(float) @ (np.abs(t @ t.T) > 1 - 1e-9)) > 0
        far = np.minimum(far, np.where(line & on, np.inf, E).min(1))
    q = R / far
    return q.max(), int(q.argmax())


def run(case, ctx):
    r = runs.execute(case, ctx)
    try:
        m, size = r.m, case["size"]
        runs.read_spheres(r)
        labels = {case["kind"]}
        V, F = runs.combined(m, case)
        tol = 1e-9 * size * 20
        co, ed, su = (r.sph[k][:, :4] for k in ("corner", "edge", "surface"))
        sharp, corners = models.sharp_features(V, F, np.cos(np.radians(r.angle)))
        A, B = V[[e[0] for e in sharp]], V[[e[1] for e in sharp]]
        # on their features
        need(len(co) == len(corners), "%d corner spheres for %d sharp corners" % (len(co), len(corners)))
        if len(corners):
            t = cKDTree(co[:, :3])
            d, i = t.query(V[corners])
            need(d.max() < tol and len(set(i.tolist())) == len(corners), "a sharp corner is %g away from any corner sphere" % d.max())
        if len(ed):
            need(len(sharp) > 0, "edge spheres without sharp edges")
            d = models.seg_dist(ed[:, :3], A, B).min(1)
            need(d.max() < tol, "edge sphere %d at %s is %g off every sharp edge" % (d.argmax(), ed[d.argmax(), :3], d.max()))
        need(len(su) > 0, "no surface spheres")
        d = models.surface_dist(su[:, :3], V, F)
        need(d.max() < tol, "surface sphere %d at %s is %g off the surface" % (d.argmax(), su[d.argmax(), :3], d.max()))
        # limits
        for k, a in (("corner", co), ("edge", ed), ("surface", su)):
            if not len(a):
                continue
            need(a[:, 3].min() > 0, "%s sphere %d has radius %g" % (k, a[:, 3].argmin(), a[:, 3].min()))
            need(a[:, 3].max() <= r.rmax * (1 + 1e-9), "%s sphere %d has radius %g, the limit is %g" % (k, a[:, 3].argmax(), a[:, 3].max(), r.rmax))
            if a[:, 3].max() > 0.999 * r.rmax:
                labels.add("limit reached")
            if r.sz is not None:
                d = np.linalg.norm(a[:, None, :3] - r.sz[None, :, :3], axis=2)
                lim = np.where(d <= d.min(1)[:, None] + tol, r.sz[None, :, 3], 0).max(1)
                j = (a[:, 3] / lim).argmax()
                need(a[j, 3] <= lim[j] * (1 + 1e-9), "%s sphere %d at %s has radius %g, the sizing function says %g" % (k, j, a[j, :3], a[j, 3], lim[j]))
                if (a[:, 3] > 0.999 * lim).any():
                    labels.add("sizing reached")
        if m.planar:
            for k, a in (("corner", co), ("edge", ed), ("surface", su)):
                q, i = reach(V, F, A, B, a, k, 1e-7 * size)
                need(q < REACH, "%s sphere %d at %s reaches %.3f of the way to another plane or edge" % (k, i, a[i, :3] if len(a) else 0, q))
        # spacing
        if len(co) > 1:
            d, _ = cKDTree(co[:, :3]).query(co[:, :3], k=2)
            need((co[:, 3] <= 0.4 * d[:, 1] * (1 + 1e-9) + tol).all(), "corner spheres nearer than 2.5 radii: %s" % (co[:, 3] / d[:, 1]).max())
        for k, a, q in (("edge", ed, 0.5), ("surface", su, 0.4)):
            if len(a) < 2:
                continue
            coef = np.sqrt(1 - q * q)
            for i, j in cKDTree(a[:, :3]).query_pairs(a[:, 3].max(), output_type="ndarray"):
                i, j = min(i, j), max(i, j)
                d = np.linalg.norm(a[i, :3] - a[j, :3])
                need(d >= coef * a[i, 3] * (1 - 1e-9), "%s spheres %d and %d are %g apart, their radii are %g and %g" % (k, i, j, d, a[i, 3], a[j, 3]))
        for k, a, kb, b in (("edge", ed, "corner", co), ("surface", su, "corner", co), ("surface", su, "edge", ed)):
            if len(a) and len(b):
                d = np.linalg.norm(a[:, None, :3] - b[None, :, :3], axis=2) / b[None, :, 3]
                i, j = np.unravel_index(d.argmin(), d.shape)
                need(d[i, j] >= 1 - 1e-9, "%s sphere %d has its centre inside %s sphere %d (%g of its radius)" % (k, i, kb, j, d[i, j]))
        # coverage
        al = np.vstack([x for x in (co, ed) if len(x)] or [np.zeros((0, 4))])
        for a, b in zip(A, B):
            g = uncovered_edge(a, b, al[:, :3], al[:, 3])
            need(g[1] - g[0] <= 1e-7 * size, "of the sharp edge from %s to %s the part between %g and %g is in no corner or edge sphere" % (a, b, g[0], g[1]))
        al = np.vstack([x for x in (co, ed, su) if len(x)])
        p, n = uncovered_face(V[F], al[:, :3], al[:, 3], tol)
        need(p is None, "the surface point %s is in no sphere" % p)
    finally:
        ctx.drop(r.dir)
    return {"nontrivial": len(su) >= 20, "labels": sorted(labels)}


CHECK = Check(
    "C07",
    rule="A case is a generated solid or group of touching solids and a configuration (maximum radius, sizing file, gradation, threads, random seed), run by the "
         "whole program; its three sphere files are compared with the features of the model. Non-trivial: at least 20 surface spheres.",
    groups=[Group("run", lambda: runs.strategy(threads=(1, 1, 1, 2, 4), lips=(0.1, 0.25, 0.5, 0.9), rmax=(None, 0.3, 0.2, 0.15), sizing=True,
                                               angle=(20, 20, 10, 30)),
                  run, quick=48, thorough=800, shrink=runs.simpler),
            Group("curved", lambda: runs.strategy(kinds=["sphere", "cylinder"], rmax=(0.4, 0.3), lips=(0.3, 0.6), angle=(30,)).map(
                lambda c: dict(c, sub=False)), run, quick=8, thorough=60, shrink=runs.simpler)],
    targets=[("vc_mesh", "rel")],
    assumptions=["triangles shared by two input files both count, so that the diagonals of such a face are sharp"],
)
