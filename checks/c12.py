"""C12: geometric kernels agree with their mathematical definitions."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Check, Group
from vlib.server import Violation

OPS = ["dist", "dot", "normalize", "cos", "angle", "normal_comp", "overlap", "area", "normal", "proj_tri", "proj_seg",
       "proj_line", "power2", "power2s", "powern", "powerns", "sliver", "covered"]


def rot(r):
    q, _ = np.linalg.qr(r.standard_normal((3, 3)))
    return q


def closest_on_triangle(p, a, b, c):
    """Voronoi-region walk (independent of the code's plane-then-edges scheme)"""
    ab, ac, ap = b - a, c - a, p - a
    d1, d2 = ab @ ap, ac @ ap
    if d1 <= 0 and d2 <= 0:
        return a
    bp = p - b
    d3, d4 = ab @ bp, ac @ bp
    if d3 >= 0 and d4 <= d3:
        return b
    vc = d1 * d4 - d3 * d2
    if vc <= 0 and d1 >= 0 and d3 <= 0:
        return a + ab * (d1 / (d1 - d3))
    cp = p - c
    d5, d6 = ab @ cp, ac @ cp
    if d6 >= 0 and d5 <= d6:
        return c
    vb = d5 * d2 - d1 * d6
    if vb <= 0 and d2 >= 0 and d6 <= 0:
        return a + ac * (d2 / (d2 - d6))
    va = d3 * d6 - d5 * d4
    if va <= 0 and d4 - d3 >= 0 and d5 - d6 >= 0:
        return b + (c - b) * ((d4 - d3) / ((d4 - d3) + (d5 - d6)))
    den = va + vb + vc
    return a + ab * (vb / den) + ac * (vc / den)


def triangle(r, shape, sc, off):
    while True:
        if shape == "needle":
            T = np.array([[0, 0, 0], [1, 0, 0], [r.random(), 10 ** -(1 + 2 * r.random()), 0]]) @ rot(r).T
        elif shape == "axis":
            T = np.round(r.random((3, 3)) * 4) / 4
            T[:, r.integers(3)] = 0.5
        else:
            T = r.random((3, 3))
        n = np.cross(T[1] - T[0], T[2] - T[0])
        if np.linalg.norm(n) > 1e-4:
            break
    return (T[r.permutation(3)]) * sc + off


def spheres(r, n, D, sc, off):
    """n spheres in general position (affinely independent centres, not too flat)"""
    while True:
        C = r.random((n, D))
        if n == 1:
            break
        s = np.linalg.svd(C[1:] - C[0], compute_uv=False)
        if s[-1] > 0.05:
            break
    R = 0.2 + 0.8 * r.random(n)
    return np.hstack([C * sc + off[:D], (R * sc)[:, None]])


def power_ref(S):
    D = S.shape[1] - 1
    c0 = S[0, :D]
    A = S[1:, :D] - c0
    b = 0.5 * ((A * A).sum(1) + S[0, D] ** 2 - S[1:, D] ** 2)
    y, *_ = np.linalg.lstsq(A, b, rcond=None)     # least norm: in the span of the centres
    return c0 + y


def close(got, want, tol, msg):
    if not np.isfinite(got).all() or np.abs(np.asarray(got) - np.asarray(want)).max() > tol:
        raise Violation("%s: got %s, expected %s" % (msg, np.array2string(np.asarray(got, float), precision=12), np.array2string(np.asarray(want, float), precision=12)))


def run(case, ctx):
    srv = ctx.srv("srv_geom", case["variant"])
    op, sc = case["op"], 10.0 ** case["scale"]
    r = np.random.default_rng([case["seed"], 41])
    off = np.array(case["off"] * 2, float)[:8] * sc
    code, dat, exp = [], [], []
    mag = sc * (1 + np.abs(off).max() / sc)
    tol = 1e-9 * mag
    for _ in range(case["n"]):
        D = int(r.integers(1, 7))
        if op in ("dist", "dot", "cos"):
            k = 3 if op == "cos" else 2
            X = gen.cloud(["uniform", "lattice", "dup"][int(r.integers(3))], k, D, int(r.integers(2 ** 31))) * sc + off[0]
            code += [{"dist": 0, "dot": 1, "cos": 3}[op], D, 0]
            dat += list(X.ravel())
            exp.append((op, X))
        elif op == "normalize":
            x = r.standard_normal(D) * sc * (10.0 ** -r.integers(0, 14))
            code += [2, D, 0]
            dat += list(x)
            exp.append((op, x))
        elif op == "angle":
            k = int(r.integers(4))
            if k == 0:
                x = r.choice([-1.0, 0.0, 1.0, 1e-12, -1e-12], 2)
            elif k == 1:
                t = r.integers(0, 16) * np.pi / 8
                x = np.array([np.cos(t), np.sin(t)]) * sc
            else:
                x = r.standard_normal(2) * sc
            code += [4, 2, 0]
            dat += list(x)
            exp.append((op, x))
        elif op == "normal_comp":
            D = int(r.integers(2, 7))
            N = int(r.integers(0, D))
            q = np.linalg.qr(r.standard_normal((D, D)))[0][:, :N].T
            v = r.standard_normal(D)
            if r.random() < 0.2 and N:
                v = q.T @ r.standard_normal(N)
            code += [5, D, N]
            dat += list(q.ravel()) + list(v)
            exp.append((op, q, v))
        elif op == "overlap":
            x, y = r.random(D + 1) * sc, r.random(D + 1) * sc
            if r.random() < 0.5:     # nearly touching
                h = np.linalg.norm(x[:D] - y[:D])
                x[D] = max(h - y[D] + sc * r.choice([-1, 1]) * 10.0 ** -r.integers(2, 7), 0)
            code += [6, D, 0]
            dat += list(x) + list(y)
            exp.append((op, x, y))
        elif op in ("area", "normal", "proj_tri"):
            T = triangle(r, case["shape"], sc, off[:3])
            code += [{"area": 7, "normal": 8, "proj_tri": 9}[op], 3, 3]
            dat += list(T.ravel())
            p = None
            if op == "proj_tri":
                k = int(r.integers(5))
                w = r.dirichlet([1, 1, 1])
                if k == 0:
                    p = T.mean(0) + 3 * (r.random(3) - .5) * sc
                elif k == 1:      # above the inside
                    p = w @ T + np.cross(T[1] - T[0], T[2] - T[0]) / sc * r.standard_normal()
                elif k == 2:      # on an edge or its extension
                    t = r.choice([0, 1, .5, -0.5, 1.7])
                    p = T[0] + t * (T[1] - T[0])
                elif k == 3:      # next to a corner
                    p = T[int(r.integers(3))] + 0.05 * sc * r.standard_normal(3)
                else:             # in the plane
                    w = 3 * r.standard_normal(3)
                    p = (w - w.mean() + 1 / 3) @ T
                dat += list(p)
            exp.append((op, T, p))
        elif op in ("proj_seg", "proj_line"):
            a, b = r.random((2, 3)) * sc + off[:3]
            t = r.choice([0, 1, .5, -.7, 1.4]) if r.random() < 0.4 else r.random()
            p = a + t * (b - a) + (r.standard_normal(3) * sc if r.random() < 0.8 else 0)
            if op == "proj_line":
                b = (b - a) / np.linalg.norm(b - a)
            code += [10 if op == "proj_seg" else 11, 3, 0]
            dat += list(p) + list(a) + list(b)
            exp.append((op, p, a, b))
        elif op in ("power2", "power2s"):
            S = spheres(r, 2, D, sc, off)
            code += [12 if op == "power2" else 13, D, 0]
            dat += list(S.ravel())
            exp.append((op, S))
        elif op in ("powern", "powerns"):
            D = int(r.integers(2, 6))
            n = int(r.integers(2, D + 2))
            S = spheres(r, n, D, sc, off)
            code += [14 if op == "powern" else 15, D, n]
            dat += list(S.ravel())
            exp.append((op, S))
        elif op == "sliver":
            n = int(r.integers(4, 6))
            S = spheres(r, 4, 3, sc, off)
            if n == 5:
                S = np.vstack([S, spheres(r, 1, 3, sc, off)])
            f = (r.random(n) < 0.3)
            code += [16, 3, n]
            for i in range(n):
                dat += list(S[i]) + [float(f[i])]
            exp.append((op, S, f))
        else:
            S = spheres(r, 1, 3, sc, off)[0]
            al = float(r.choice([0.0, 0.3, 0.5, 0.8]))
            u = r.standard_normal(3)
            u /= np.linalg.norm(u)
            p = S[:3] + u * S[3] * np.sqrt(1 - al * al) * (1 + r.choice([-1, 1]) * 10.0 ** -r.integers(1, 5))
            code += [17, 3, 0]
            dat += list(p) + list(S) + [al]
            exp.append((op, p, S, al))
    out, = srv.call("geom", np.array(code), np.array(dat, float))
    k = 0
    labels = {op}

    def take(n):
        nonlocal k
        k += n
        if k > len(out):
            raise Violation("%s: too few results" % op)
        return out[k - n:k]

    for e in exp:
        if op == "dist":
            close(take(1), [np.linalg.norm(e[1][0] - e[1][1])], tol, "distance")
        elif op == "dot":
            close(take(1), [e[1][0] @ e[1][1]], 1e-12 * 8 * mag ** 2, "dot product")
        elif op == "cos":
            u, v = e[1][0] - e[1][1], e[1][2] - e[1][1]
            g = take(1)
            if np.linalg.norm(u) > 1e-6 * sc and np.linalg.norm(v) > 1e-6 * sc:
                close(g, [u @ v / np.linalg.norm(u) / np.linalg.norm(v)], 1e-8, "cosine of the angle at y of x,y,z")
        elif op == "normalize":
            x = e[1]
            ok, = take(1)
            g = take(len(x))
            nn = np.linalg.norm(x)
            if nn > 2e-10:
                if not ok:
                    raise Violation("a vector of length %g was not normalized" % nn)
                close(g, x / nn, 1e-12, "normalize")
            elif nn < 5e-11:
                if ok:
                    raise Violation("a vector of length %g was normalized" % nn)
                labels.add("degenerate vector")
        elif op == "angle":
            g, = take(1)
            x, y = e[1]
            if max(abs(x), abs(y)) > 2e-10:
                w = np.arctan2(y, x)
                d = (g - w + np.pi) % (2 * np.pi) - np.pi
                if not abs(d) < 1e-8 + 2e-10 / max(abs(x), abs(y)):
                    raise Violation("polar angle of (%r, %r) is %r, expected %r" % (x, y, g, w % (2 * np.pi)))
                if not -1e-12 <= g <= 2 * np.pi + 1e-9:
                    raise Violation("polar angle %r of (%r, %r) outside [0, 2 pi]" % (g, x, y))
        elif op == "normal_comp":
            q, v = e[1], e[2]
            D = len(v)
            rc, nm = take(2)
            g = take(D)
            w = v - q.T @ (q @ v)
            nw = np.linalg.norm(w)
            if nw > 1e-4:
                if rc != 0:
                    raise Violation("normal component: status %d for a residue of length %g" % (rc, nw))
                close(g, w / nw, 1e-9 / nw, "normal component")
            elif nw < 1e-6:
                labels.add("vector in the span")
                if rc == 0:
                    raise Violation("normal component of a vector in the span of the basis reported as found")
        elif op == "overlap":
            x, y = e[1], e[2]
            g, = take(1)
            d = np.linalg.norm(x[:-1] - y[:-1]) - x[-1] - y[-1]
            if abs(d) > 1e-9 * (1 + sc) and bool(g) != (d < 0):
                raise Violation("overlap of spheres %s %s reported as %s, gap %g" % (x, y, bool(g), d))
        elif op in ("area", "normal", "proj_tri"):
            T, p = e[1], e[2]
            N = np.cross(T[1] - T[0], T[2] - T[0])
            A2 = np.linalg.norm(N)
            cond = (np.linalg.norm(T[1] - T[0]) * np.linalg.norm(T[2] - T[0])) / A2
            if op == "area":
                close(take(1), [0.5 * A2], 1e-9 * mag ** 2, "triangle area")
            elif op == "normal":
                ok, = take(1)
                g = take(3)
                if not ok:
                    raise Violation("normal of a triangle of area %g reported as degenerate" % (A2 / 2))
                close(g, N / A2, 1e-9 * cond * (mag / sc) * 10, "triangle normal")
            else:
                g = take(4)
                q = closest_on_triangle(p, *T)
                t = 1e-8 * mag * max(1, cond * 0.1)
                close([g[3]], [np.linalg.norm(p - q)], t, "distance of %s to triangle %s" % (p, T.tolist()))
                close([np.linalg.norm(g[:3] - p)], [g[3]], tol, "distance of the projection")
                q2 = closest_on_triangle(g[:3], *T)
                if np.linalg.norm(q2 - g[:3]) > t:
                    raise Violation("projection of %s is %.3g off the triangle %s" % (p, np.linalg.norm(q2 - g[:3]), T.tolist()))
                if np.linalg.norm(g[:3] - q) > 1e-4 * mag:
                    raise Violation("projection of %s on %s is %s, expected %s" % (p, T.tolist(), g[:3], q))
            if take(1)[0] != 1:
                raise Violation("%s modified the triangle's corners" % op)
        elif op in ("proj_seg", "proj_line"):
            p, a, b = e[1:]
            g = take(4)
            d = b - a if op == "proj_seg" else b
            t = (p - a) @ d / (d @ d)
            if op == "proj_seg":
                t = min(1, max(0, t))
            q = a + t * d
            close(g[:3], q, 1e-8 * mag, op)
            close([g[3]], [np.linalg.norm(p - q)], 1e-8 * mag, op + " distance")
        elif op in ("power2", "power2s", "powern", "powerns"):
            S = e[1]
            D = S.shape[1] - 1
            if op != "power2":
                rc, = take(1)
                if rc != (0 if op == "power2s" else 1):
                    raise Violation("power vertex of %d spheres in dimension %d not found" % (len(S), D))
            g = take(D)
            close(g, power_ref(S), 1e-6 * mag, "power vertex of %s" % S.tolist())
            pw = ((g - S[:, :D]) ** 2).sum(1) - S[:, D] ** 2
            if pw.max() - pw.min() > 1e-6 * mag ** 2:
                raise Violation("powers differ: %s" % pw)
        elif op == "sliver":
            S, f = e[1], e[2]
            gi, gr = take(2)
            n = len(S)
            best, amb = None, False
            cand = []
            for i in range(n):
                for j in range(i + 1, n):
                    for m in range(j + 1, n):
                        pv = power_ref(S[[i, j, m]])
                        v2 = S[i, 3] ** 2 - ((pv - S[i, :3]) ** 2).sum()
                        if abs(v2) < 1e-6 * sc * sc:
                            amb = True
                        if v2 < 0:
                            continue
                        nn = np.cross(S[j, :3] - S[i, :3], S[m, :3] - S[i, :3])
                        nn /= np.linalg.norm(nn)
                        for l in range(n):
                            if f[l] or l in (i, j, m):
                                continue
                            h = min(np.linalg.norm(S[l, :3] - pv - s * np.sqrt(v2) * nn) for s in (1, -1))
                            if h < S[l, 3]:
                                cand.append((S[l, 3] - 0.95 * h, l, 0.95 * h))
                            if abs(h - S[l, 3]) < 1e-6 * sc:
                                amb = True
            cand.sort()
            if amb or (len(cand) > 1 and cand[1][0] - cand[0][0] < 1e-6 * sc and cand[1][1] != cand[0][1]):
                continue
            if not cand:
                if gi != n:
                    raise Violation("a sliver was reported among spheres %s that have none" % S.tolist())
                continue
            labels.add("sliver found")
            if gi != cand[0][1]:
                raise Violation("sliver of %s (fixed %s): sphere %d chosen, the smallest shrinkage is that of %d" % (S.tolist(), f.tolist(), gi, cand[0][1]))
            close([gr], [cand[0][2]], 1e-6 * mag, "sliver radius")
        else:
            p, S, al = e[1:]
            g, = take(1)
            d = np.linalg.norm(p - S[:3]) - np.sqrt(1 - al * al) * S[3]
            if abs(d) > 1e-6 * (1 + mag) and bool(g) != (d < 0):
                raise Violation("point %s in sphere %s shrunk by %g: reported %s" % (p, S, al, bool(g)))
    if k != len(out):
        raise Violation("%s: too many results" % op)
    return {"nontrivial": True, "labels": sorted(labels)}


def strat(variant):
    return lambda: st.fixed_dictionaries({
        "op": st.sampled_from(OPS), "seed": gen.seeds(), "n": st.integers(1, 60), "scale": st.sampled_from([0, 1, -1, 2, -2, 3]),
        "shape": st.sampled_from(["any", "needle", "axis"]), "variant": st.just(variant),
        "off": st.lists(st.sampled_from([0.0, 1.0, -3.5, 8.0]), min_size=4, max_size=4)})


CHECK = Check(
    "C12",
    rule="A case is 1 to 60 random argument tuples of one kernel (dimensions 1 to 6, scales 1e-2 to 1e3, offsets up to 8 scales, needle, "
         "axis-aligned and random triangles, points at corners, on edges and extensions), each compared with an independent formula. Every case is non-trivial.",
    groups=[Group("kernels", strat("rel"), run, quick=30000, thorough=600000),
            Group("kernels_asan", strat("asan"), run, quick=3000, thorough=60000)],
    targets=[("srv_geom", "rel"), ("srv_geom", "asan")],
    assumptions=["arguments are non-degenerate by more than the kernels' absolute tolerance of 1e-10"],
)
