"""C02: point, sphere and seed files read back as what was written."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Check, Group
from vlib.pipe import need

REL = 6e-16     # sixteen significant digits


def numbers(g, n, m, kind):
    """n x m numbers of all magnitudes"""
    x = g.standard_normal((n, m))
    if kind == "wide":
        x = x * 10.0 ** g.integers(-30, 31, (n, m))
    elif kind == "extreme":
        x = x * 10.0 ** g.integers(-290, 291, (n, m)).astype(float)
    elif kind == "round":
        x = np.round(x * 4) / 4
    elif kind == "exact":
        x = g.integers(-10 ** 15, 10 ** 15, (n, m)).astype(float)
    elif kind == "near":
        x = 1.0 + x * 1e-15
    if n:
        x[g.random((n, m)) < 0.1] = 0.0
    return x


def mess(text, k):
    """the same file as another program might leave it"""
    if k & 1:
        text += "\n"
    if k & 2:
        text += "\n\n"
    if k & 4 and text.endswith("\n"):
        text = text[:-1]
    if k & 8:
        text = text.replace(", ", ",")
    if k & 16:
        head, _, body = text.partition("\n")
        text = head + "\n\n" + body
    if k & 32:
        text = text.replace(", ", ",   ")
    return text


def same(got, want, what):
    need(got.shape == want.shape, "%s: %s entries came back, %s were written" % (what, got.shape, want.shape))
    if got.size:
        e = np.abs(got - want) - REL * np.abs(want)
        k = np.unravel_index(e.argmax(), e.shape)
        need(np.isfinite(got).all() and e[k] <= 0, "%s: entry %s was %r and came back as %r" % (what, k, want[k], got[k]))


def adds(P, N, A, dim):
    ops, dat = [], []
    for i in range(len(P)):
        ops += [0, P.shape[1], int(N is not None), A.shape[1]] + [int(a) for a in A[i]]
        dat += list(P[i]) + (list(N[i]) if N is not None else [])
    return ops, dat


def run_tree(case, ctx):
    dim, nd, na = case["dim"], case["dim"] + case["extra"], case["attrs"]
    srv = ctx.srv("srv_tree", case["variant"])
    g = np.random.default_rng([case["seed"], 21])
    parts, texts = [], []
    for k, n in enumerate(case["sizes"]):
        P = numbers(g, n, nd, case["numbers"])
        N = gen.unit(g, max(n, 1), dim)[:n] if case["normals"] else None
        A = g.integers(0, 2 ** (63 if case["big"] else 12), (n, na))
        parts.append((P, N if N is not None else np.zeros((n, dim)), A))
        ops, dat = adds(P, N, A, dim)
        if k == 0 and case["pre"]:
            pre = (ops, dat)
            continue
        if k == 0:
            pre = ([], [])
        if case["rebuild"] and n:
            ops.append(1)
        text, = srv.call("save", np.array([dim]), np.array([nd]), np.array(ops, np.int64), np.array(dat, float), limit=60)
        lines = text.rstrip("\n").split("\n")
        need(len(lines) == n + 1, "the file of %d points has %d lines" % (n, len(lines)))
        want = nd + dim + (na + 1 if na and n else 0)
        for i, l in enumerate(lines):
            need(len(l.split(",")) == want, "line %d of the file of points with %d coordinates, %d normals and %d attributes has %d columns" % (i, nd, dim, na, len(l.split(","))))
        texts.append(mess(text, case["mess"]))
    q = [28, nd]
    cl = []
    X = np.vstack([p[0] for p in parts])
    if len(X) and case["numbers"] in ("plain", "round", "near"):
        for _ in range(4):
            x = X[g.integers(len(X)), :dim] + 0.1 * g.standard_normal(dim)
            q += [21]
            cl += list(x) + [1.7e308]
    oi, od = srv.call("load", np.array([dim]), np.array([nd]), np.array(pre[0], np.int64), np.array(pre[1], float),
                      np.array(q, np.int64), np.array(cl, float), *texts, limit=60)
    n = int(oi[0])
    need(n == len(X), "%d points are there after loading, %d were written" % (n, len(X)))
    k = nd + dim
    D = od[:n * k].reshape(n, k)
    same(D[:, :nd], X, "coordinates")
    same(D[:, nd:], np.vstack([p[1] for p in parts]), "normals")
    A = np.vstack([p[2] for p in parts])
    p = 1
    for i in range(n):
        m = int(oi[p])
        p += 1
        if na:
            need(m == na + 1, "point %d has %d attributes after loading, %d were written" % (i, m - 1, na))
            need([int(v) for v in oi[p:p + m - 1]] == [int(v) for v in A[i]], "the attributes of point %d came back as %s, written were %s" % (i, oi[p:p + m - 1], A[i]))
            p += m - 1
        else:
            need(m == 0, "point %d has attributes after loading" % i)
    od = od[n * k:]
    for j in range(len(cl) // (dim + 1)):
        x = np.array(cl[j * (dim + 1):j * (dim + 1) + dim])
        d = np.linalg.norm(X[:, :dim] - x, axis=1).min()
        need(abs(od[j] - d) <= 1e-9 * (1 + d), "after loading, the closest point is reported at %r, it is at %r" % (od[j], d))
    return {"nontrivial": len(X) > 1, "labels": [case["numbers"], "files %d" % len(texts)] + (["appended"] if case["pre"] and len(texts) and len(parts[0][0]) else [])}


def run_spheres(case, ctx):
    g = np.random.default_rng([case["seed"], 22])
    dim, n = case["dim"], case["n"]
    X = numbers(g, n, dim, case["numbers"])
    R = np.abs(numbers(g, n, 1, case["numbers"]))[:, 0]
    ids = g.integers(0, 2 ** (63 if case["big"] else 6), n)
    a = [np.array([dim, int(case["split"]), int(case["ids"])]), X, R, ids]
    t0, c, y = ctx.srv("srv_mesher", case["variant"]).call("spheres", *a, limit=60)
    text = t0
    lines = text.rstrip("\n").split("\n")
    need(len(lines) == n + 1, "the file of %d spheres has %d lines" % (n, len(lines)))
    W = np.column_stack([X, R])
    same(y.reshape(-1, dim + 1), W, "spheres")
    rows = np.array([[float(v) for v in l.split(",")[:dim + 1]] for l in lines[1:]]).reshape(n, dim + 1)
    same(rows, W, "the file of spheres")
    if case["ids"]:
        for i, l in enumerate(lines[1:]):
            need(int(l.split(",")[dim + 1]) == int(ids[i]), "the file gives sphere %d the id %s, it was %d" % (i, l.split(",")[dim + 1], ids[i]))
    t, c, y = ctx.srv("srv_mesher", case["variant"]).call("spheres", *(a + ["\n" * (case["mess"] & 3)]), limit=60)
    same(y.reshape(-1, dim + 1), W, "spheres, the file ending in blank lines")
    return {"nontrivial": n > 1, "labels": [case["numbers"]]}


def run_seeds(case, ctx):
    g = np.random.default_rng([case["seed"], 23])
    n = case["n"]
    X = numbers(g, n, 3, case["numbers"])
    R = np.abs(numbers(g, n, 1, case["numbers"]))[:, 0]
    ids = g.integers(0, 2 ** (63 if case["big"] else 6), n)
    text, c, y = ctx.srv("srv_mesher", "rel").call("spheres", np.array([3, 1, 1]), X, R, ids, limit=60)
    x, z, r = ctx.srv("srv_vc", case["variant"]).call("seeds", mess(text, case["mess"]), limit=60)
    same(x.reshape(-1, 3), X, "seeds")
    same(z, R, "sizes of seeds")
    need([int(v) for v in r] == [int(v) for v in ids], "the region ids of the seeds changed")
    return {"nontrivial": n > 1, "labels": [case["numbers"]]}


KINDS = st.sampled_from(["plain", "plain", "wide", "extreme", "round", "exact", "near"])
COUNT = st.one_of(st.integers(0, 5), st.integers(0, 120), st.sampled_from([99, 100, 101, 199, 200, 201, 400, 401]))


def s_tree(v):
    return lambda: st.fixed_dictionaries({
        "dim": st.integers(1, 5), "extra": st.integers(0, 2), "attrs": st.sampled_from([0, 1, 2, 5]), "normals": st.booleans(),
        "sizes": st.lists(COUNT, min_size=1, max_size=3), "numbers": KINDS, "seed": gen.seeds(), "pre": st.booleans(),
        "rebuild": st.booleans(), "big": st.booleans(), "mess": st.integers(0, 63), "variant": st.just(v)})


def s_flat(v, dims):
    return lambda: st.fixed_dictionaries({
        "dim": dims, "n": COUNT, "numbers": KINDS, "seed": gen.seeds(), "split": st.booleans(), "ids": st.booleans(),
        "big": st.booleans(), "mess": st.integers(0, 63), "variant": st.just(v)})


CHECK = Check(
    "C02",
    rule="A case is a list of 0 to 401 points (1 to 5 dimensions, extra coordinates, normals, attributes), spheres or seeds with numbers of all magnitudes, written by the library and loaded again, "
         "several files one after the other and behind points already there, with blank lines and other spacing added to the text. Non-trivial: more than one entry.",
    groups=[Group("points", s_tree("rel"), run_tree, quick=4000, thorough=60000),
            Group("points_asan", s_tree("asan"), run_tree, quick=300, thorough=6000),
            Group("spheres", s_flat("rel", st.integers(1, 6)), run_spheres, quick=3000, thorough=60000),
            Group("spheres_asan", s_flat("asan", st.integers(1, 6)), run_spheres, quick=300, thorough=6000),
            Group("seeds", s_flat("rel", st.just(3)), run_seeds, quick=2000, thorough=40000, needs=("srv_vc", "rel")),
            Group("seeds_asan", s_flat("asan", st.just(3)), run_seeds, quick=300, thorough=6000, needs=("srv_vc", "asan"))],
    targets=[("srv_tree", "rel"), ("srv_tree", "asan"), ("srv_mesher", "rel"), ("srv_mesher", "asan")],
    optional=[("srv_vc", "rel"), ("srv_vc", "asan")],
    assumptions=["all points of one file have the same number of attributes", "numbers come back within the sixteen digits written", "rows are complete; only empty lines may be added"],
)
