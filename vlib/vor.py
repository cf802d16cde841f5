"""Reference Voronoi diagrams (Qhull) and the oracle for explicit Voronoi meshes."""
import numpy as np
from scipy.spatial import ConvexHull, QhullError, Voronoi

from .server import Violation


def newell(P):
    """area vector of a planar polygon"""
    Q = np.roll(P, -1, axis=0)
    return 0.5 * np.cross(P - P[0], Q - P[0]).sum(0)


class Ref:
    """cells: indices of the seeds to look at.  vol[i]; area[(i,j)] with i<j for faces of these cells"""

    def __init__(self, S, cells):
        v = Voronoi(S, qhull_options="Qbb Qc Qz")
        self.V = v.vertices
        self.vol, self.area, self.nv = {}, {}, 0
        want = np.zeros(len(S), bool)
        want[cells] = True
        used = set()
        for i in cells:
            r = v.regions[v.point_region[i]]
            if not r or -1 in r:
                raise ValueError("unbounded cell")
            used.update(r)
            self.vol[i] = 0.0
        for (a, b), rv in zip(v.ridge_points, v.ridge_vertices):
            if not (want[a] or want[b]):
                continue
            P = self.V[rv]
            # ridge vertices come ordered; be safe and take the convex polygon
            n = S[b] - S[a]
            d = np.linalg.norm(n)
            n = n / d
            u = np.linalg.svd(n[None])[2][1:]
            q = (P - P[0]) @ u.T
            c = q.mean(0)
            o = np.argsort(np.arctan2(q[:, 1] - c[1], q[:, 0] - c[0]))
            q = q[o]
            A = 0.5 * abs(np.sum(q[:, 0] * np.roll(q[:, 1], -1) - q[:, 1] * np.roll(q[:, 0], -1)))
            k = (min(a, b), max(a, b))
            self.area[k] = self.area.get(k, 0.0) + A
            for i in (a, b):
                if want[i]:
                    self.vol[i] += A * d / 6.0
        self.used = sorted(used)
        self.nv = len(used)

    def min_vertex_gap(self):
        from scipy.spatial import cKDTree
        P = self.V[self.used]
        if len(P) < 2:
            return np.inf
        d, _ = cKDTree(P).query(P, k=2)
        return float(d[:, 1].min())

    def simple(self, S, tol):
        """every vertex of the cells has exactly four seeds at its distance, clearly"""
        from scipy.spatial import cKDTree
        if len(S) < 5:
            return False
        d, _ = cKDTree(S).query(self.V[self.used], k=5)
        return bool((d[:, 4] - d[:, 3] > tol).all())


def split_faces(flat):
    out, p = [], 0
    flat = [int(x) for x in flat]
    while p < len(flat):
        k = flat[p]
        if k < 3 or p + k + 3 > len(flat):
            raise Violation("a face with %d corners" % k)
        out.append((flat[p + 1:p + 1 + k], flat[p + 1 + k], flat[p + 2 + k]))
        p += k + 3
    return out


def check_mesh(S, reg, V, faces, ref, scale, labels):
    """raises Violation unless (V, faces) is the Voronoi diagram of S restricted to reg != 0"""
    tol = 2e-9 * scale + 1e-9
    n = len(S)
    cells = np.nonzero(reg)[0]
    general = ref.min_vertex_gap() > max(1e-5 * scale, 5e-6) and ref.simple(S, 1e-6 * scale)
    area, pairs = {}, set()
    inc = {int(i): [] for i in cells}
    for f, i, j in faces:
        if not (0 <= i < n and 0 <= j < n and i != j):
            raise Violation("a face separates seeds %d and %d" % (i, j))
        if reg[i] == 0 and reg[j] == 0:
            raise Violation("a face between two exterior seeds")
        k = (min(i, j), max(i, j))
        if k in pairs:
            raise Violation("two faces between seeds %d and %d" % k)
        pairs.add(k)
        if min(f) < 0 or max(f) >= len(V):
            raise Violation("face corner out of range")
        if len(set(f)) != len(f):
            raise Violation("face between %d and %d repeats a corner" % k)
        P = V[f]
        di = np.linalg.norm(P - S[i], axis=1)
        dj = np.linalg.norm(P - S[j], axis=1)
        e = float(np.abs(di - dj).max())
        if e > tol:
            raise Violation("a corner of the face between seeds %d and %d is %.3g off their bisector" % (i, j, e))
        nv = newell(P)
        A = float(np.linalg.norm(nv))
        area[k] = A
        for c in (i, j):
            if reg[c]:
                inc[c].append((f, i, j))
        # convex polygon traversed once: perimeter consistency via the fan of triangles
        fan = 0.5 * np.linalg.norm(np.cross(P[1:-1] - P[0], P[2:] - P[0]), axis=1).sum()
        if fan > A + 1e-7 * scale ** 2:
            raise Violation("corners of the face between %d and %d are not in order around it" % k)
    if len(V):
        from scipy.spatial import cKDTree
        dmin, _ = cKDTree(S).query(V)
        own = np.full(len(V), -1)
        for f, i, j in faces:
            own[f] = i
        # several corners at one point (degenerate position) may leave one of them unused
        if general and (own < 0).any():
            raise Violation("a mesh vertex belongs to no face")
        own = np.where(own < 0, cKDTree(S).query(V)[1], own)
        d = np.linalg.norm(V - S[own], axis=1)
        bad = d > dmin + tol
        if bad.any():
            raise Violation("mesh vertex %d is %.3g closer to a seed that is not its cell's" % (int(np.argmax(d - dmin)), float((d - dmin).max())))
    atol = 1e-7 * scale ** 2
    for k, A in ref.area.items():
        if not (reg[k[0]] or reg[k[1]]):
            continue
        B = area.get(k, 0.0)
        if abs(A - B) > atol:
            raise Violation("face between seeds %d and %d has area %.12g, expected %.12g" % (k + (B, A)))
    for k, B in area.items():
        if k not in ref.area and B > atol:
            raise Violation("face between seeds %d and %d (area %.6g) does not exist in the diagram" % (k + (B,)))
    for c in cells:
        c = int(c)
        vol, vec = 0.0, np.zeros(3)
        edges = {}
        for f, i, j in inc[c]:
            o = j if i == c else i
            k = (min(i, j), max(i, j))
            d = S[o] - S[c]
            h = np.linalg.norm(d)
            vol += area[k] * h / 6.0
            vec += area[k] * d / h
            for a, b in zip(f, f[1:] + f[:1]):
                e = (min(a, b), max(a, b))
                edges[e] = edges.get(e, 0) + 1
        if abs(vol - ref.vol[c]) > 1e-7 * scale ** 3:
            raise Violation("cell of seed %d has volume %.12g, expected %.12g" % (c, vol, ref.vol[c]))
        if np.abs(vec).max() > 1e-6 * scale ** 2:
            raise Violation("faces of the cell of seed %d do not close (%s)" % (c, vec))
        if general:
            if any(q != 2 for q in edges.values()):
                raise Violation("cell of seed %d is not bounded by a closed polyhedron: an edge has %s faces" % (c, sorted(set(edges.values()))))
            nvx = len(set(v for f, _, _ in inc[c] for v in f))
            if nvx - len(edges) + len(inc[c]) != 2:
                raise Violation("cell of seed %d: V-E+F = %d" % (c, nvx - len(edges) + len(inc[c])))
    if general:
        labels.add("general position")
        if len(V) != ref.nv:
            raise Violation("%d mesh vertices, the diagram has %d" % (len(V), ref.nv))
    else:
        labels.add("degenerate position")
    return area
