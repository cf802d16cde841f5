"""The oracle for a written mesh file: the grid of the seeds that Qhull's diagram defines."""
import numpy as np
from scipy.spatial import cKDTree

from .pipe import need


def check_vcg(g, S, reg, ref, scale, labels, regions=True):
    """g: parsed file, S/reg: the seeds it was made of, ref: vor.Ref of the cells.
    Returns {cell index: seed index}."""
    ids = np.nonzero(reg)[0]
    need(len(g.id) == len(ids), "mesh.vcg has %d cells for %d non-exterior seeds" % (len(g.id), len(ids)))
    if len(ids) == 0:
        need(len(g.a) == 0, "connections without cells")
        return
    big = float(np.abs(S).max()) + scale
    tol = 1e-9 * big
    e = np.abs(g.x - S[ids]).max(1)
    k = int(e.argmax())
    need(e[k] <= tol, "cell %d lies at %s, its seed at %s" % (k + 1, g.x[k], S[ids[k]]))
    if regions:
        bad = np.nonzero(g.reg != reg[ids])[0]
        need(len(bad) == 0, "cell %d has region %s, its seed has %s" % (
            (bad[0] + 1, g.reg[bad[0]], reg[ids[bad[0]]]) if len(bad) else (0, 0, 0)))
    need((g.reg > 0).all(), "a cell of the exterior region")
    rv = np.array([ref.vol[int(i)] for i in ids])
    e = np.abs(g.vol - rv)
    k = int(e.argmax())
    need(e[k] <= 1e-7 * scale ** 3, "cell %d has volume %.12g, expected %.12g" % (k + 1, g.vol[k], rv[k]))
    m = len(g.a)
    need(m > 0, "no connections")
    nn = np.linalg.norm(g.n, axis=1)
    need(np.abs(nn - 1).max() < 1e-9, "a connection normal is not a unit vector")
    a = ids[g.a - 1]
    inner = g.a != g.b
    # the seed on the other side: of a boundary connection the mirror image of the cell's seed
    b = ids[g.b - 1].copy()
    q = cKDTree(S)
    if (~inner).any():
        mir = 2 * g.c[~inner] - S[a[~inner]]
        d, j = q.query(mir)
        k = int(d.argmax())
        need(d[k] <= 1e-8 * big, "boundary connection of cell %d: no seed lies opposite its point (%.3g away)" % (
            g.a[~inner][k], d[k]))
        need((reg[j] == 0).all(), "a boundary connection leads to a seed that is not exterior")
        b[~inner] = j
        labels.add("boundary")
    dv = S[b] - S[a]
    L = np.linalg.norm(dv, axis=1)
    e = np.abs(dv / L[:, None] - g.n).max(1)
    k = int((e * L).argmax())
    need((e <= 1e-9 + 1e-9 * big / L).all(), "the normal of the connection of cells %d and %d is not the direction from the first seed to the second" % (g.a[k], g.b[k]))
    mid = 0.5 * (S[b] + S[a])
    e = np.abs(np.einsum("ij,ij->i", g.c - mid, g.n))
    k = int(e.argmax())
    need(e[k] <= 1e-8 * big, "the point of the connection of cells %d and %d is %.3g off the face's plane" % (g.a[k], g.b[k], e[k]))
    got = {}
    for i, j, A in zip(a.tolist(), b.tolist(), g.area.tolist()):
        key = (min(i, j), max(i, j))
        need(key not in got, "two connections between seeds %d and %d" % key)
        got[key] = A
    at = 1e-7 * scale ** 2
    want = {k: A for k, A in ref.area.items() if reg[k[0]] or reg[k[1]]}
    for k, A in want.items():
        B = got.get(k)
        if B is None:
            need(A <= at, "no connection between seeds %d and %d, which share a face of area %.6g" % (k + (A,)))
        else:
            need(abs(A - B) <= at, "connection between seeds %d and %d has area %.12g, expected %.12g" % (k + (B, A)))
    for k, B in got.items():
        need(k in want or B <= at, "connection between seeds %d and %d, which share no face (area %.6g)" % (k + (B,)))
    # divergence theorem, from the file alone
    vec = np.zeros((len(ids), 3))
    np.add.at(vec, g.a - 1, g.area[:, None] * g.n)
    np.add.at(vec, g.b[inner] - 1, -(g.area[:, None] * g.n)[inner])
    k = int(np.abs(vec).max(1).argmax())
    need(np.abs(vec).max() <= 1e-6 * scale ** 2, "the faces of cell %d do not close (%s)" % (k + 1, vec[k]))
    if inner.any():
        labels.add("inner")
    return got


def components(n, pairs):
    p = list(range(n))

    def f(i):
        while p[i] != i:
            p[i] = p[p[i]]
            i = p[i]
        return i
    for a, b in pairs:
        a, b = f(a), f(b)
        if a != b:
            p[a] = b
    return [f(i) for i in range(n)]
