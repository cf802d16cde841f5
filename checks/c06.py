"""C06: interior seeds respect spacing, protection, sizing and regions."""
import numpy as np
from hypothesis import strategies as st
from scipy.spatial import cKDTree

from vlib import runs, world
from vlib.core import Check, Group
from vlib.pipe import need
from vlib.server import Violation


def spheres_of(w):
    return np.vstack([a for a in w.sph.values()])


def judge(S, sz, reg, n0, al, lip, rmax, szf, unit, labels, order=True):
    """the first n0 seeds were there before; al: protecting spheres (x y z r); szf: sizing points"""
    n = len(S)
    need(np.isfinite(S).all() and np.isfinite(sz).all() and (sz > 0).all(), "a seed is not finite or has no size")
    t = cKDTree(S)
    new = np.arange(n0, n)
    if len(new):
        # protection
        if len(al):
            ts = cKDTree(S[new])
            for k, q in enumerate(ts.query_ball_point(al[:, :3], al[:, 3] * (1 - 1e-9))):
                if q:
                    raise Violation("interior seed %d lies inside the protecting sphere %d (%s)" % (n0 + min(q), k, al[k]))
        # spacing
        for i, q in enumerate(t.query_ball_point(S, sz * (1 - 1e-9))):
            q = [j for j in q if j >= n0 and j > i]
            if q:
                raise Violation("interior seed %d is %.9g from the earlier seed %d, whose size is %.9g" % (
                    q[0], np.linalg.norm(S[q[0]] - S[i]), i, sz[i]))
        # maximum, sizing function
        need((sz[new] <= rmax * (1 + 1e-9)).all(), "an interior seed has size %g, the maximum is %g" % (sz[new].max(), rmax))
        if szf is not None and len(szf):
            d, i = cKDTree(szf[:, :3]).query(S[new], k=min(2, len(szf)))
            d, i = d.reshape(len(new), -1), i.reshape(len(new), -1)
            tie = (d[:, -1] - d[:, 0]) < 1e-9 * unit
            lim = np.where(tie, szf[i, 3].max(1), szf[i[:, 0], 3])
            k = (sz[new] - lim).argmax()
            need((sz[new] <= lim * (1 + 1e-9)).all(), "interior seed %d has size %g, the sizing function asks for %g" % (n0 + k, sz[new][k], lim[k]))
        # region: that of the closest seed there was
        for j in new:
            k = 8
            while True:
                d, i = t.query(S[j], k=min(k, n))
                q = i < j
                if q.any():
                    break
                k *= 4
            d, i = d[q], i[q]
            near = set(reg[i[d <= d[0] + 1e-9 * unit]])
            need(reg[j] != 0 and reg[j] in near, "interior seed %d of region %d has the earlier seed %d of region %d next to it" % (j, reg[j], i[0], reg[i[0]]))
    # gradation within reach
    pr = t.query_pairs(2 * sz.max(), output_type="ndarray")
    if len(pr):
        a, b = pr[:, 0], pr[:, 1]
        d = np.linalg.norm(S[a] - S[b], axis=1)
        big, small = np.maximum(sz[a], sz[b]), np.minimum(sz[a], sz[b])
        e = big - small - lip * d
        e[d >= 2 * big] = -1
        k = e.argmax()
        need(e[k] <= 1e-9 * unit + 2e-10, "the sizes %g and %g of the seeds %d and %d, %g apart, are not graded" % (sz[a[k]], sz[b[k]], a[k], b[k], d[k]))
    # filling
    lo, hi = S[reg > 0].min(0), S[reg > 0].max(0)
    P = lo + (hi - lo) * np.random.default_rng(7).random((2500, 3))
    d, i = t.query(P)
    ok = reg[i] > 0
    if len(al):
        hit = np.zeros(len(P), bool)
        tp = cKDTree(P)
        for q in tp.query_ball_point(al[:, :3], al[:, 3]):
            hit[q] = True
        ok &= ~hit
    q = (d / sz[i])[ok]
    if len(q):
        need(q.max() < 6, "a point of the domain is %.2f sizes away from the nearest seed" % q.max())
    if len(q) > 300:
        need((q > 2).mean() < 0.2, "%.0f%% of the domain are more than twice the local size away from all seeds" % (100 * (q > 2).mean()))
        labels.add("filling measured")


def run(case, ctx):
    w = world.expand(case)
    cnt, S, sz, reg = world.call(ctx, "interior", case, w, variant=case["variant"])
    n0 = len(w.S)
    labels = {case["kind"], "threads %d" % case["threads"]}
    need(len(S) >= n0 and cnt[-1] == len(S), "seeds were lost")
    need(np.array_equal(S[:n0], w.S) and np.array_equal(reg[:n0], w.reg), "a seed that was there before changed its place or region")
    need((sz[:n0] <= w.size + 1e-15).all(), "the size of a seed that was there before grew")
    need((sz[:n0] >= min(w.size.min(), sz.min()) - 1e-15).all() and sz.min() >= min(w.size.min(), w.rmax, w.sz[:, 3].min() if len(w.sz) else np.inf) * (1 - 1e-9),
         "a seed has size %g, smaller than the smallest size asked for" % sz.min())
    judge(S, sz, reg, n0, spheres_of(w), w.lip, w.rmax, w.sz, w.unit, labels)
    if w.where is not None:
        P = w.back(S[n0:])
        need((w.where(P) == reg[n0:]).all(), "an interior seed lies in another region than its own")
    if len(w.sz):
        labels.add("sizing function")
    if case["threads"] == 1 and case["rng"] % 3 == 0:
        again = world.call(ctx, "interior", case, w, variant=case["variant"])
        need(all(np.array_equal(a, b) for a, b in zip(again, (cnt, S, sz, reg))), "the same call gives other seeds the second time")
    return {"nontrivial": len(S) - n0 >= 10, "labels": sorted(labels)}


def run_cli(case, ctx):
    r = runs.execute(case, ctx)
    try:
        runs.read_seeds(r)
        runs.read_spheres(r)
        al = runs.all_spheres(r)
        unit = r.m.size
        # surface seeds lie on spheres, interior seeds outside of all
        t = cKDTree(al[:, :3])
        on = np.zeros(len(r.S), bool)
        for i, q in enumerate(t.query_ball_point(r.S, al[:, 3].max() * (1 + 1e-6))):
            if q:
                q = np.array(q)
                on[i] = np.abs(np.linalg.norm(al[q, :3] - r.S[i], axis=1) / al[q, 3] - 1).min() < 1e-6
        n0 = int(np.nonzero(on)[0].max()) + 1
        need(n0 >= 8, "there are no surface seeds")
        labels = {case["kind"]}
        judge(r.S, r.sz_seed, r.reg, n0, al, case["lip"], r.rmax, r.sz, unit, labels)
        return {"nontrivial": len(r.S) - n0 >= 20, "labels": sorted(labels)}
    finally:
        ctx.drop(r.dir)


def strat(variant, threads=(1, 1, 2, 4, 8)):
    return lambda: st.tuples(world.strategy(threads), st.just(variant)).map(lambda t: dict(t[0], variant=t[1]))


CHECK = Check(
    "C06",
    rule="A case is a domain with boundary seeds and protecting spheres (a block of one to three layers, or a freeform domain inside a shell of exterior seeds "
         "with scattered spheres), a gradation, a maximum size, sizing points and a thread count, filled by the interior seeding; or a whole run. Every pair of seeds and "
         "every seed and sphere is checked. Non-trivial: at least 10 (whole runs: 20) interior seeds were placed.",
    groups=[Group("fill", strat("rel"), run, quick=6000, thorough=100000),
            Group("fill_asan", strat("asan"), run, quick=250, thorough=5000),
            Group("whole", lambda: runs.strategy(threads=(1, 2, 4), lips=(0.1, 0.25, 0.5, 0.9), rmax=(None, 0.3, 0.2), sizing=True), run_cli,
                  quick=16, thorough=300, shrink=runs.simpler)],
    targets=[("srv_mesher", "rel"), ("srv_mesher", "asan"), ("vc_mesh", "rel")],
    assumptions=["protecting spheres of one kind are graded, and exterior seeds close the domain (what the sphere sampling provides)",
                 "filling is judged on 2500 probe points per case: none farther than 6 sizes from its nearest seed, at most a fifth farther than 2"],
)
