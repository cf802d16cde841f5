"""C09: sphere and seed sizes grow no faster than the Lipschitz constant."""
import numpy as np
from hypothesis import strategies as st
from scipy.spatial import cKDTree

from vlib import runs, spheres
from vlib.core import Check, Group
from vlib.pipe import need


def run_spheres(case, ctx):
    x, r, h, g = spheres.expand(case)
    S = np.column_stack([x, r])
    lip = case["lip"]
    srv = ctx.srv("srv_spheres", case["variant"])
    want = spheres.graded(x, r, lip)
    tol = 1e-12 * (np.abs(x).max() + r.max()) * 10
    labels = {case["kind"]}
    res = []
    for brute in (0, 1):
        if brute and len(x) > 150:
            continue
        o, sh = srv.call("grade", np.array([brute, case["seed"] % 2]), np.array([lip]), S, limit=60)
        o = o.reshape(-1, 4)
        name = "brute-force gradation" if brute else "gradation"
        need(np.array_equal(o[:, :3], x), "%s moved a sphere" % name)
        k = (o[:, 3] - r).argmax()
        need(o[k, 3] <= r[k], "%s enlarged sphere %d from %r to %r" % (name, k, r[k], o[k, 3]))
        k = (o[:, 3] - want).argmax()
        need(o[k, 3] <= want[k] + tol, "%s left sphere %d at radius %.12g, a sphere within reach allows only %.12g" % (name, k, o[k, 3], want[k]))
        k = (want - o[:, 3]).argmax()
        need(o[k, 3] >= want[k] - tol, "%s shrank sphere %d to %.12g, the smallest radius needed is %.12g" % (name, k, o[k, 3], want[k]))
        need(bool(sh[0]) == bool((o[:, 3] != r).any()), "%s reports that it %s" % (name, "shrank a sphere but none did" if sh[0] else "shrank no sphere but one did"))
    n = int((want < r).sum())
    return {"nontrivial": n > 0, "labels": sorted(labels)}


def run_seeds(case, ctx):
    x, r, h, g = spheres.expand(case)
    lip = case["lip"]
    want = spheres.graded(x, r, lip)
    e = np.zeros((0, 4))
    out = {}
    for th in {1, case["threads"]}:
        cnt, s, sz, reg = ctx.srv("srv_mesher", case["variant"]).call(
            "imposed", np.array([th]), np.array([lip, 1e6]), x, r, np.ones(len(x), int), e, e, e, e, e, limit=60)
        need(np.array_equal(s.reshape(-1, 3), x) and (reg == 1).all(), "the gradation changed the seeds")
        need((sz <= r).all(), "the gradation enlarged a seed's size")
        tol = 1e-10 * len(x) + 1e-11 * (np.abs(x).max() + r.max())
        k = (want - sz).argmax()
        need(sz[k] >= want[k] - tol, "seed %d was given size %.12g, the smallest needed is %.12g" % (k, sz[k], want[k]))
        local(x, sz, lip, 2e-10 + tol * 1e-2)
        out[th] = sz
    need(np.abs(out[1] - out[case["threads"]]).max() <= 1e-9 * r.max() + 1e-10 * len(x), "%d threads grade otherwise than one" % case["threads"])
    return {"nontrivial": bool((out[1] < r).any()), "labels": sorted({case["kind"], "threads %d" % case["threads"]})}


def local(x, r, lip, tol, what="seeds"):
    pr = cKDTree(x).query_pairs(2 * r.max(), output_type="ndarray")
    if not len(pr):
        return
    a, b = pr[:, 0], pr[:, 1]
    d = np.linalg.norm(x[a] - x[b], axis=1)
    big, small = np.maximum(r[a], r[b]), np.minimum(r[a], r[b])
    e = big - small - lip * d
    e[d >= 2 * big] = -1
    k = e.argmax()
    need(e[k] <= tol, "the sizes %.10g and %.10g of the %s %d and %d, %.10g apart, are not graded (constant %g)" % (
        r[a[k]], r[b[k]], what, a[k], b[k], d[k], lip))


def run_cli(case, ctx):
    r = runs.execute(case, ctx)
    try:
        runs.read_seeds(r)
        runs.read_spheres(r)
        lip, n = case["lip"], 0
        for k, s in r.sph.items():
            if len(s) < 2:
                continue
            w = spheres.graded(s[:, :3], s[:, 3], lip)
            n += len(s)
            i = (s[:, 3] - w).argmax()
            need(s[i, 3] <= w[i] + 1e-7 * case["size"], "the %s sphere %d of radius %.10g is not graded, another one allows only %.10g" % (k, i, s[i, 3], w[i]))
        local(r.S, r.sz_seed, lip, 1e-7 * case["size"])
        return {"nontrivial": n > 20, "labels": [case["kind"]] + (["sizing function"] if r.sz is not None else [])}
    finally:
        ctx.drop(r.dir)


def s_sph(variant):
    return lambda: spheres.strategy().map(lambda c: dict(c, variant=variant))


def s_seeds(variant):
    return lambda: st.tuples(spheres.strategy(), st.sampled_from([2, 3, 4, 8])).map(lambda t: dict(t[0], threads=t[1], variant=variant))


CHECK = Check(
    "C09",
    rule="A case is a set of 1 to 400 spheres or seeds (in space, on a plane, curve, line or lattice, in distant groups; sizes over up to four decades) and a constant, graded by the library, "
         "or a whole run whose sphere and seed files are checked pair by pair. The result is compared with the closed form min over j of r_j + Lip*d_ij. "
         "Non-trivial: at least one size had to shrink (whole runs: over 20 spheres).",
    groups=[Group("spheres", s_sph("rel"), run_spheres, quick=6000, thorough=100000),
            Group("spheres_asan", s_sph("asan"), run_spheres, quick=300, thorough=5000),
            Group("seeds", s_seeds("rel"), run_seeds, quick=6000, thorough=100000),
            Group("seeds_asan", s_seeds("asan"), run_seeds, quick=300, thorough=5000),
            Group("whole", lambda: runs.strategy(threads=(1, 1, 2, 4), lips=(0.1, 0.2, 0.25, 0.4, 0.6), rmax=(None, 0.3, 0.2), sizing=True), run_cli,
                  quick=32, thorough=500, shrink=runs.simpler)],
    targets=[("srv_spheres", "rel"), ("srv_spheres", "asan"), ("srv_mesher", "rel"), ("srv_mesher", "asan"), ("vc_mesh", "rel")],
    assumptions=["no two spheres of a kind share a centre", "seeds are graded within reach of each other (distance below twice the larger size), spheres of a kind against all others"],
)
