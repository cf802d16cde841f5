"""C17: monitoring points are imposed, and generated, faithfully."""
import os

import numpy as np
from hypothesis import strategies as st
from scipy.spatial import cKDTree

from checks import c06
from vlib import models, pipe, runs, world
from vlib.core import Check, Group
from vlib.pipe import need


def points(w, case, f):
    """points of all kinds: anywhere, on both sides of spheres, next to seeds"""
    g = np.random.default_rng([case["seed"], 171])
    lo, hi = w.S.min(0), w.S.max(0)
    al = c06.spheres_of(w)
    P = []
    for _ in range(case["points"]):
        k = g.integers(0, 5)
        if k == 0 or not len(al):
            x = lo + (hi - lo) * (1.3 * g.random(3) - 0.15)
        elif k == 1:
            x = lo + (hi - lo) * (0.2 + 0.6 * g.random(3))
        elif k == 2:
            x = w.S[g.integers(len(w.S))] + g.standard_normal(3) * f * 0.2
        else:
            s = al[g.integers(len(al))]
            v = g.standard_normal(3)
            x = s[:3] + v / np.linalg.norm(v) * s[3] * (1 + g.choice([-1, 1]) * g.choice([1e-6, 1e-3, 0.05, 0.3]))
        P.append(np.append(x, f * np.exp(g.uniform(np.log(0.3), np.log(1.5)))))
    P = np.array(P).reshape(-1, 4)
    # two of them may want the same place: none may
    keep = [i for i in range(len(P)) if i == 0 or np.linalg.norm(P[:i, :3] - P[i, :3], axis=1).min() > 1e-6 * f]
    return P[keep]


def verdicts(P, S, reg, al, unit):
    """-> 1 to be accepted, 0 to be rejected, -1 too close to call; region of the closest seed"""
    d, i = cKDTree(S).query(P[:, :3], k=2)
    v = np.ones(len(P), int)
    r = reg[i[:, 0]].copy()
    tie = (d[:, 1] - d[:, 0] < 1e-9 * unit) & (reg[i[:, 0]] != reg[i[:, 1]])
    v[r == 0] = 0
    v[tie] = -1
    if len(al):
        D = np.linalg.norm(P[:, None, :3] - al[None, :, :3], axis=2) - al[None, :, 3]
        D = D.min(1)
        v[(np.abs(D) < 1e-8 * unit + 3e-10) & (v == 1)] = -1
        v[D < -1e-8 * unit - 3e-10] = 0
    return v, r, tie


def placed(P, v, r, S, sz, reg, n0, tol, size_kept):
    """the accepted points follow the n0 seeds of before, in their order -> indices of those accepted"""
    got, k = [], n0
    for i in range(len(P)):
        here = k < len(S) and np.abs(S[k] - P[i, :3]).max() <= tol
        need(not (here and v[i] == 0), "the point %d at %s, which is inside a sphere or outside the domain, was imposed" % (i, P[i, :3]))
        need(here or v[i] != 1, "the point %d at %s, inside the domain and outside all spheres, was not imposed" % (i, P[i, :3]))
        if here:
            need(r is None or v[i] < 0 or reg[k] == r[i], "the imposed point %d has region %d, the closest seed has %d" % (i, reg[k], r[i] if r is not None else 0))
            need(reg[k] != 0, "the imposed point %d is exterior" % i)
            need(abs(sz[k] - P[i, 3]) <= 1e-11 * P[i, 3] if size_kept else sz[k] <= P[i, 3] * (1 + 1e-12),
                 "the imposed point %d has size %g, requested was %g" % (i, sz[k], P[i, 3]))
            got.append(i)
            k += 1
    return got


def run(case, ctx):
    w = world.expand(case)
    P = points(w, case, w.unit)
    n0 = len(w.S)
    al = c06.spheres_of(w)
    fill = case["fill"]
    cnt, S, sz, reg = world.call(ctx, "both" if fill else "imposed", case, w, P, variant=case["variant"])
    v, r, tie = verdicts(P, w.S, w.reg, al, w.unit)
    n1 = int(cnt[0])
    need(np.array_equal(S[:n0], w.S) and np.array_equal(reg[:n0], w.reg), "a seed that was there before changed its place or region")
    got = placed(P, v, r, S[:n1], sz, reg, n0, 0.0, not fill)
    need(n1 - n0 == len(got), "%d seeds were imposed, only %d of them at a requested point" % (n1 - n0, len(got)))
    labels = {case["kind"]}
    if fill:
        labels.add("filled afterwards")
        c06.judge(S, sz, reg, n1, al, w.lip, w.rmax, w.sz, w.unit, labels)
    if (v == 0).any():
        labels.add("some rejected")
    return {"nontrivial": bool(got) and bool((v == 0).any()), "labels": sorted(labels)}


def run_cli(case, ctx):
    r = runs.execute(case, ctx, extra=[("GENERATE_MONITORING_POINTS", None)])
    d2 = None
    try:
        runs.read_seeds(r)
        runs.read_spheres(r)
        m, size = r.m, case["size"]
        need(not os.path.exists(runs.path(r, "monitoring_points_closest_seeds.csv")), "monitoring points were imposed though none were to be")
        _, mp = pipe.read_csv(runs.path(r, "monitoring_points.csv"))
        al = runs.all_spheres(r)
        on = on_spheres(r.S, al)
        n0 = int(np.nonzero(on)[0].max()) + 1
        need(len(mp) <= 100 and len(mp) >= min(100, len(r.S) - n0), "%d monitoring points are generated for %d interior seeds" % (len(mp), len(r.S) - n0))
        t = cKDTree(r.S)
        if len(mp):
            dd, i = t.query(mp[:, :3])
            need(dd.max() < 1e-9 * size and len(set(i)) == len(i), "the generated monitoring points are not distinct seeds")
            need(not on[i].any() and (r.reg[i] > 0).all(), "a generated monitoring point is no interior seed")
            need(np.abs(mp[:, 3] - r.sz_seed[i]).max() <= 1e-9 * size, "a generated monitoring point does not have its seed's size")
        # the same model again, with points of all kinds imposed
        g = np.random.default_rng([case["seed"], 172])
        lo, hi = m.V.min(0), m.V.max(0)
        P = []
        for _ in range(case["points"]):
            k = g.integers(0, 6)
            if k == 0:
                x = lo + (hi - lo) * (1.2 * g.random(3) - 0.1)
            elif k <= 3 and len(mp):
                x = mp[g.integers(len(mp)), :3] + (g.standard_normal(3) * size * g.choice([0, 1e-3, 0.03]))
            elif k == 4:
                s = al[g.integers(len(al))]
                u = g.standard_normal(3)
                x = s[:3] + u / np.linalg.norm(u) * s[3] * (1 + g.choice([-1, 1]) * g.choice([1e-4, 0.05, 0.4]))
            else:
                x = lo + (hi - lo) * g.random(3)
            P.append(np.append(x, size * np.exp(g.uniform(np.log(0.05), np.log(0.5)))))
        P = np.array(P)
        keep = [i for i in range(len(P)) if i == 0 or np.linalg.norm(P[:i, :3] - P[i, :3], axis=1).min() > 1e-6 * size]
        P = P[keep]
        shutil_files = [f for f in os.listdir(r.dir) if f.endswith(".csv") and f != "sizing.csv"]
        for f in shutil_files:
            os.remove(runs.path(r, f))
        with open(runs.path(r, "monitoring_points.csv"), "w") as f:
            f.write("x1coord, x2coord, x3coord, radius\n")
            for row in P:
                f.write(", ".join("%r" % float(q) for q in row) + "\n")
        c = open(runs.path(r, "vc.in")).read().replace("GENERATE_MONITORING_POINTS", "IMPOSE_MONITORING_POINTS")
        open(runs.path(r, "vc2.in"), "w").write(c)
        before = open(runs.path(r, "monitoring_points.csv")).read()
        runs.go(r, ctx, "vc2.in", dict(case, rng=case["rng2"]))
        need(open(runs.path(r, "monitoring_points.csv")).read() == before, "the file of monitoring points was changed")
        runs.read_seeds(r)
        runs.read_spheres(r)
        al = runs.all_spheres(r)
        # inside a solid: its own winding number
        where = m.region_of(P[:, :3])
        v = (where >= 0).astype(int)
        v[models.surface_dist(P[:, :3], m.V, m.F) < 1e-7 * size] = -1
        D = (np.linalg.norm(P[:, None, :3] - al[None, :, :3], axis=2) - al[None, :, 3]).min(1)
        v[(np.abs(D) < 1e-6 * size) & (v == 1)] = -1
        v[D < -1e-6 * size] = 0
        tol = 1e-10 * (size + np.abs(m.V).max())
        t = cKDTree(r.S)
        at = t.query(P[:, :3])
        k0 = min([int(at[1][i]) for i in range(len(P)) if at[0][i] <= tol and v[i] != 0] or [len(r.S)])
        got = placed(P, v, None, r.S, r.sz_seed, r.reg, k0, tol, False) if k0 < len(r.S) else []
        need(len(got) or not (v == 1).any(), "no point was imposed")
        for k, i in enumerate(got):
            need(abs(r.sz_seed[k0 + k] - P[i, 3]) <= 1e-9 * size, "the imposed point %d has size %g, requested was %g" % (i, r.sz_seed[k0 + k], P[i, 3]))
        # their region is that of the solid
        own = {}
        far = models.surface_dist(r.S, m.V, m.F) > 1e-7 * size
        ws = m.region_of(r.S)
        for i in np.nonzero(far & (r.reg > 0))[0]:
            own.setdefault(int(r.reg[i]), int(ws[i]))
        for k, i in enumerate(got):
            need(v[i] < 0 or own[int(r.reg[k0 + k])] == where[i], "the imposed point %d lies in solid %d, its region is that of solid %d" % (i, where[i], own[int(r.reg[k0 + k])]))
            # nothing generated in its own sphere
            q = [j for j in t.query_ball_point(P[i, :3], P[i, 3] * (1 - 1e-9)) if j >= k0 + len(got)]
            need(not q, "the imposed point %d of size %g has %d generated seeds, the first number %d, inside its sphere" % (i, P[i, 3], len(q), min(q or [0])))
        _, cl = pipe.read_csv(runs.path(r, "monitoring_points_closest_seeds.csv"))
        need(len(cl) == len(P), "%d closest seeds are reported for %d monitoring points" % (len(cl), len(P)))
        for i in range(len(P)):
            j = np.nonzero(np.abs(r.S - cl[i, :3]).max(1) <= tol)[0]
            need(len(j) > 0, "the closest seed reported for point %d, at %s, is no seed of the final set" % (i, cl[i, :3]))
            dd = np.linalg.norm(cl[i, :3] - P[i, :3])
            need(dd <= at[0][i] + 1e-7 * size, "the seed reported as the closest of point %d is %g away, another one %g" % (i, dd, at[0][i]))
            need(np.abs(r.sz_seed[j] - cl[i, 3]).min() <= 1e-9 * size, "the closest seed reported for point %d has size %g, not %g" % (i, cl[i, 3], r.sz_seed[j[0]]))
        labels = {case["kind"]}
        if len(got) < len(P):
            labels.add("some rejected")
        return {"nontrivial": 0 < len(got) < len(P), "labels": sorted(labels)}
    finally:
        ctx.drop(r.dir)


def on_spheres(S, al):
    t = cKDTree(al[:, :3])
    on = np.zeros(len(S), bool)
    for i, q in enumerate(t.query_ball_point(S, al[:, 3].max() * (1 + 1e-6))):
        if q:
            q = np.array(q)
            on[i] = np.abs(np.linalg.norm(al[q, :3] - S[i], axis=1) / al[q, 3] - 1).min() < 1e-6
    return on


def strat(variant, threads=(1, 1, 2, 4, 8)):
    return lambda: st.tuples(world.strategy(threads), st.integers(0, 60), st.booleans()).map(
        lambda t: dict(t[0], points=t[1], fill=t[2], variant=variant))


CHECK = Check(
    "C17",
    rule="A case is a domain with boundary seeds and protecting spheres and up to 60 monitoring points of all kinds (anywhere, outside, on either side of a sphere, next to a seed), or a whole "
         "model meshed twice: monitoring points are generated by the first run and imposed, moved or not and mixed with others, on a second run with other random numbers. "
         "Non-trivial: some points are to be accepted and some rejected.",
    groups=[Group("impose", strat("rel"), run, quick=5000, thorough=80000),
            Group("impose_asan", strat("asan"), run, quick=250, thorough=5000),
            Group("whole", lambda: st.tuples(runs.strategy(threads=(1, 1, 2, 4), lips=(0.25, 0.5, 0.8), rmax=(None, 0.3, 0.2)), st.integers(1, 40), st.integers(1, 10 ** 6)).map(
                      lambda t: dict(t[0], points=t[1], rng2=t[2])), run_cli, quick=24, thorough=300, shrink=runs.simpler)],
    targets=[("srv_mesher", "rel"), ("srv_mesher", "asan"), ("vc_mesh", "rel")],
    assumptions=["monitoring points are pairwise distinct", "points within 1e-8 (whole runs: 1e-6) of a sphere or 1e-7 of the surface may go either way"],
)
