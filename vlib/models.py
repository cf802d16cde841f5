"""Generated input solids: closed, consistently oriented triangle surfaces with known regions.

A model is V (n,3), F (m,3), plus `cells`: the solid regions it bounds, each given by its exact
volume and by a point-membership oracle (winding number of its own closed boundary)."""
import numpy as np


def signed_volume(V, F):
    a, b, c = V[F[:, 0]], V[F[:, 1]], V[F[:, 2]]
    return float(np.einsum("ij,ij->i", a, np.cross(b, c)).sum() / 6.0)


def winding(V, F, P):
    """generalised winding number of points P (k,3) with respect to the closed surface"""
    P = np.atleast_2d(P)
    out = np.zeros(len(P))
    step = max(1, int(2e6 // max(1, len(F))))
    for s in range(0, len(P), step):
        p = P[s:s + step]
        A = V[F[:, 0]][None] - p[:, None]
        Bv = V[F[:, 1]][None] - p[:, None]
        C = V[F[:, 2]][None] - p[:, None]
        la, lb, lc = (np.linalg.norm(q, axis=2) for q in (A, Bv, C))
        num = np.einsum("ijk,ijk->ij", A, np.cross(Bv, C))
        den = la * lb * lc + np.einsum("ijk,ijk->ij", A, Bv) * lc + np.einsum("ijk,ijk->ij", Bv, C) * la \
            + np.einsum("ijk,ijk->ij", C, A) * lb
        out[s:s + step] = np.arctan2(num, den).sum(1) / (2 * np.pi)
    return out


def point_tri_dist(P, V, F):
    """(k, m) distances of points to triangles"""
    P = np.atleast_2d(P)
    a, b, c = V[F[:, 0]], V[F[:, 1]], V[F[:, 2]]
    ab, ac, bc = b - a, c - a, c - b
    n = np.cross(ab, ac)
    nn = np.linalg.norm(n, axis=1)
    nu = n / nn[:, None]
    ap = P[:, None] - a[None]
    dpl = np.einsum("ijk,jk->ij", ap, nu)
    q = P[:, None] - dpl[..., None] * nu[None]

    def side(o, e):
        return np.einsum("ijk,jk->ij", np.cross(np.broadcast_to(e[None], q.shape), q - o[None]), nu)
    ins = (side(a, ab) >= 0) & (side(b, bc) >= 0) & (side(c, -ac) >= 0)

    def seg(o, e):
        t = np.clip(np.einsum("ijk,jk->ij", P[:, None] - o[None], e) / np.einsum("jk,jk->j", e, e)[None], 0, 1)
        return np.linalg.norm(P[:, None] - (o[None] + t[..., None] * e[None]), axis=2)
    de = np.minimum(np.minimum(seg(a, ab), seg(a, ac)), seg(b, bc))
    return np.where(ins, np.abs(dpl), de)


def surface_dist(P, V, F):
    P = np.atleast_2d(P)
    step = max(1, int(4e5 // max(1, len(F))))
    return np.concatenate([point_tri_dist(P[s:s + step], V, F).min(1) for s in range(0, len(P), step)]) if len(P) else np.zeros(0)


def seg_dist(P, A, Bp):
    """(k, m) distances of points to segments"""
    P = np.atleast_2d(P)
    e = Bp - A
    t = np.clip(np.einsum("ijk,jk->ij", P[:, None] - A[None], e) / np.einsum("jk,jk->j", e, e)[None], 0, 1)
    return np.linalg.norm(P[:, None] - (A[None] + t[..., None] * e[None]), axis=2)


# ----------------------------------------------------------------- polygons and prisms

def _tri_polygon(poly):
    """ear clipping of a simple counter-clockwise polygon (2d)"""
    idx = list(range(len(poly)))
    tris = []
    P = np.asarray(poly, float)

    def cr(o, a, b):
        return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])
    guard = 0
    while len(idx) > 3:
        guard += 1
        if guard > 1000:
            raise ValueError("ear clipping")
        best = None
        for k in range(len(idx)):
            i, j, l = idx[k - 1], idx[k], idx[(k + 1) % len(idx)]
            if cr(P[i], P[j], P[l]) <= 1e-12:
                continue
            if any(cr(P[i], P[j], P[q]) >= -1e-12 and cr(P[j], P[l], P[q]) >= -1e-12 and cr(P[l], P[i], P[q]) >= -1e-12
                   for q in idx if q not in (i, j, l)):
                continue
            a, b, c = (np.linalg.norm(P[x] - P[y]) for x, y in ((i, j), (j, l), (l, i)))
            qual = cr(P[i], P[j], P[l]) / max(a, b, c) ** 2
            if best is None or qual > best[0]:
                best = (qual, k, (i, j, l))
        _, k, t = best
        tris.append(t)
        idx.pop(k)
    tris.append(tuple(idx))
    return tris


def prism(poly, z0, z1):
    n = len(poly)
    V = np.array([(x, y, z0) for x, y in poly] + [(x, y, z1) for x, y in poly], float)
    T = _tri_polygon(poly)
    F = [(a, c, b) for a, b, c in T] + [(a + n, b + n, c + n) for a, b, c in T]
    for i in range(n):
        j = (i + 1) % n
        F += [(i, j, j + n), (i, j + n, i + n)]
    return V, np.array(F, int)


def box(lo, hi):
    return prism([(lo[0], lo[1]), (hi[0], lo[1]), (hi[0], hi[1]), (lo[0], hi[1])], lo[2], hi[2])


def hull(P):
    from scipy.spatial import ConvexHull
    h = ConvexHull(P)
    V = P[h.vertices]
    m = {v: i for i, v in enumerate(h.vertices)}
    F = np.array([[m[v] for v in s] for s in h.simplices])
    c = V.mean(0)
    for k in range(len(F)):
        a, b, d = V[F[k]]
        if np.dot(np.cross(b - a, d - a), a - c) < 0:
            F[k] = F[k][::-1]
    return V, F


def sphere(n):
    """octahedron subdivided n times, on the unit sphere"""
    V = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
    F = [(0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4), (2, 0, 5), (1, 2, 5), (3, 1, 5), (0, 3, 5)]
    V, F = np.array(V, float), np.array(F)
    for _ in range(n):
        V, F = subdivide(V, F)
        V /= np.linalg.norm(V, axis=1)[:, None]
    return V, F


def torus(R, r, nu, nv):
    V, F = [], []
    for i in range(nu):
        for j in range(nv):
            u, v = 2 * np.pi * i / nu, 2 * np.pi * j / nv
            V.append(((R + r * np.cos(v)) * np.cos(u), (R + r * np.cos(v)) * np.sin(u), r * np.sin(v)))
    for i in range(nu):
        for j in range(nv):
            a, b = i * nv + j, ((i + 1) % nu) * nv + j
            c, d = ((i + 1) % nu) * nv + (j + 1) % nv, i * nv + (j + 1) % nv
            F += [(a, b, c), (a, c, d)]
    return np.array(V), np.array(F)


def subdivide(V, F):
    mid, V, out = {}, [tuple(v) for v in V], []

    def m(a, b):
        k = (min(a, b), max(a, b))
        if k not in mid:
            mid[k] = len(V)
            V.append(tuple(0.5 * (np.array(V[a]) + np.array(V[b]))))
        return mid[k]
    for a, b, c in F:
        x, y, z = m(a, b), m(b, c), m(c, a)
        out += [(a, x, z), (x, b, y), (z, y, c), (x, y, z)]
    return np.array(V), np.array(out)


def weld(V, F, tol=1e-9):
    """merge coincident points, keep every triangle"""
    V = np.asarray(V, float)
    key, new, U = {}, np.zeros(len(V), int), []
    for i, v in enumerate(V):
        k = tuple(np.round(v / tol).astype(np.int64))
        if k not in key:
            key[k] = len(U)
            U.append(v)
        new[i] = key[k]
    return np.array(U), new[F]


def dedup_faces(F):
    seen, out = set(), []
    for f in F:
        k = tuple(sorted(f))
        if k not in seen:
            seen.add(k)
            out.append(f)
    return np.array(out, int)


def rotation(r):
    q = r.standard_normal(4)
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


POLYS = {
    "L": [(0, 0), (1, 0), (1, .5), (.5, .5), (.5, 1), (0, 1)],
    "T": [(.35, 0), (.65, 0), (.65, .6), (1, .6), (1, 1), (0, 1), (0, .6), (.35, .6)],
    "U": [(0, 0), (1, 0), (1, 1), (.65, 1), (.65, .4), (.35, .4), (.35, 1), (0, 1)],
    "plus": [(.35, 0), (.65, 0), (.65, .35), (1, .35), (1, .65), (.65, .65), (.65, 1), (.35, 1), (.35, .65), (0, .65), (0, .35), (.35, .35)],
    "step": [(0, 0), (1, 0), (1, .33), (.66, .33), (.66, .66), (.33, .66), (.33, 1), (0, 1)],
}

KINDS = ["box", "slab", "ngon", "L", "T", "U", "step", "plus", "tet", "octa", "frustum", "cavity", "apart", "stack", "stack3", "grid22", "boxsub"]


class Model:
    def __init__(self, V, F, cells, planar=True, parts=None):
        self.V, self.F, self.cells, self.planar = V, F, cells, planar
        self.parts = parts or [(V, F)]

    def transform(self, M, t):
        f = lambda V: V @ M.T + t
        flip = np.linalg.det(M) < 0
        g = lambda F: F[:, ::-1] if flip else F
        self.V = f(self.V)
        self.F = g(self.F)
        self.cells = [(f(V), g(F)) for V, F in self.cells]
        self.parts = [(f(V), g(F)) for V, F in self.parts]
        return self

    def volumes(self):
        return [abs(signed_volume(V, F)) for V, F in self.cells]

    def region_of(self, P):
        """index of the cell containing each point, -1 outside"""
        out = np.full(len(P), -1)
        for i, (V, F) in enumerate(self.cells):
            w = winding(V, F, P)
            out[np.abs(w) > 0.5] = i
        return out


def merge(parts):
    """parts: list of closed (V,F); shared faces collapse to a single internal interface"""
    Vs, Fs, n = [], [], 0
    for V, F in parts:
        Vs.append(V)
        Fs.append(F + n)
        n += len(V)
    V, F = weld(np.vstack(Vs), np.vstack(Fs))
    return V, dedup_faces(F)


def make(kind, seed, size=1.0, rotate=True, shift=True):
    m = _make(kind, seed, size, rotate, shift)
    m.kind = kind
    return m


def _make(kind, seed, size, rotate, shift):
    r = np.random.default_rng([seed, 23])
    d = 0.5 + r.random(3)
    if kind == "box":
        V, F = box((0, 0, 0), d)
        cells = [(V, F)]
    elif kind == "slab":
        d[r.integers(3)] *= 0.3
        V, F = box((0, 0, 0), d)
        cells = [(V, F)]
    elif kind == "boxsub":
        V, F = box((0, 0, 0), d)
        V, F = subdivide(V, F)
        cells = [(V, F)]
    elif kind == "ngon":
        n = int(r.integers(3, 9))
        a = 2 * np.pi * (np.arange(n) + 0.25 * (r.random(n) - 0.5)) / n
        V, F = prism(list(zip(d[0] * np.cos(a), d[1] * np.sin(a))), 0, d[2])
        cells = [(V, F)]
    elif kind in POLYS:
        V, F = prism([(x * d[0], y * d[1]) for x, y in POLYS[kind]], 0, 0.6 * d[2])
        cells = [(V, F)]
    elif kind == "tet":
        P = np.array([(1, 1, 1), (1, -1, -1), (-1, 1, -1), (-1, -1, 1)], float) + 0.3 * (r.random((4, 3)) - 0.5)
        V, F = hull(P)
        cells = [(V, F)]
    elif kind == "octa":
        P = np.array([(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)], float) * d
        V, F = hull(P)
        cells = [(V, F)]
    elif kind == "frustum":
        n = int(r.integers(3, 7))
        a = 2 * np.pi * np.arange(n) / n
        s = 0.5 + 0.4 * r.random()
        V, F = prism(list(zip(np.cos(a), np.sin(a))), 0, 0.5 + r.random())
        V[n:, :2] *= s
        cells = [(V, F)]
    elif kind == "cavity":
        Vo, Fo = box((0, 0, 0), (1.2, 1.2, 1.2))
        lo = 0.35 + 0.1 * r.random(3)
        Vi, Fi = box(lo, lo + 0.35 + 0.1 * r.random(3))
        Fi = Fi[:, ::-1]
        V = np.vstack([Vo, Vi])
        F = np.vstack([Fo, Fi + len(Vo)])
        cells = [(V, F), (Vi, Fi[:, ::-1])]
        return Model(V, F, cells, parts=[(Vo, Fo), (Vi, Fi)])._place(r, size, rotate, shift)
    elif kind == "apart":
        A = box((0, 0, 0), (0.8, 0.7, 0.6))
        g = 0.3 + 0.3 * r.random()
        Bb = box((0.8 + g, 0, 0), (0.8 + g + 0.6, 0.7, 0.8))
        V, F = merge([A, Bb])
        return Model(V, F, [A, Bb], parts=[A, Bb])._place(r, size, rotate, shift)
    elif kind in ("stack", "stack3"):
        zs = [0, 0.5 + 0.3 * r.random()]
        zs.append(zs[-1] + 0.5 + 0.3 * r.random())
        if kind == "stack3":
            zs.append(zs[-1] + 0.5)
        cells = [box((0, 0, a), (d[0], d[1], b)) for a, b in zip(zs[:-1], zs[1:])]
        V, F = merge(cells)
        return Model(V, F, cells, parts=cells)._place(r, size, rotate, shift)
    elif kind == "grid22":
        cells = [box((x, y, 0), (x + 0.7, y + 0.7, 0.7)) for x in (0, 0.7) for y in (0, 0.7)]
        V, F = merge(cells)
        return Model(V, F, cells, parts=cells)._place(r, size, rotate, shift)
    elif kind == "sphere":
        V, F = sphere(int(r.integers(2, 4)))
        V = V * (0.7 + 0.6 * d)
        return Model(V, F, [(V, F)], planar=False)._place(r, size, rotate, shift)
    elif kind == "torus":
        V, F = torus(1.0, 0.35 + 0.2 * r.random(), 32, 16)
        return Model(V, F, [(V, F)], planar=False)._place(r, size, rotate, shift)
    elif kind == "cylinder":
        n = int(r.integers(14, 25))
        a = 2 * np.pi * np.arange(n) / n
        V, F = prism(list(zip(0.6 * np.cos(a), 0.6 * np.sin(a))), 0, d[2])
        return Model(V, F, [(V, F)], planar=False)._place(r, size, rotate, shift)
    else:
        raise ValueError(kind)
    return Model(V, F, cells)._place(r, size, rotate, shift)


def _place(self, r, size, rotate, shift):
    M = rotation(r) if rotate else np.eye(3)
    t = (10 * r.random(3) - 5) * size if shift else np.zeros(3)
    return self.transform(size * M, t)


Model._place = _place


def write_obj(path, V, F, style=0):
    with open(path, "w") as f:
        if style == 1:
            f.write("# generated\no thing\n")
        for v in V:
            f.write("v %r %r %r\n" % tuple(float(c) for c in v))
        if style == 1:
            f.write("vn 0 0 1\nvt 0 0\ns off\n\n")
        for t in F:
            if style == 1:
                f.write("f %s\n" % " ".join("%d/1/1" % (i + 1) for i in t))
            else:
                f.write("f %d %d %d\n" % tuple(int(i) + 1 for i in t))


def sharp_features(V, F, cos_thr):
    """reference: sharp edges (sorted index pairs) and sharp corners of a triangulation"""
    ed = {}
    nrm = np.cross(V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]])
    nrm /= np.linalg.norm(nrm, axis=1)[:, None]
    for k, f in enumerate(F):
        for i in range(3):
            a, b = int(f[i]), int(f[(i + 1) % 3])
            ed.setdefault((min(a, b), max(a, b)), []).append(k)
    sharp = []
    for e, fs in ed.items():
        if len(fs) != 2 or float(nrm[fs[0]] @ nrm[fs[1]]) < cos_thr:
            sharp.append(e)
    at = {}
    for a, b in sharp:
        at.setdefault(a, []).append(b)
        at.setdefault(b, []).append(a)
    corners = []
    for p, q in at.items():
        if len(q) == 2:
            u = V[q[0]] - V[p]
            v = V[q[1]] - V[p]
            if -float(u @ v) / np.linalg.norm(u) / np.linalg.norm(v) < cos_thr:
                corners.append(p)
        else:
            corners.append(p)
    return sorted(sharp), sorted(corners)
