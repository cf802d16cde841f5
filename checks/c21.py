"""C21: coverage and overlap queries on graded sphere sets equal direct evaluation."""
import numpy as np
from hypothesis import strategies as st

from vlib import spheres
from vlib.core import Check, Group
from vlib.pipe import need

KINDS = ["point", "edge", "face", "overlap", "point (listing)", "point and sphere"]


def run(case, ctx):
    x, r, h, g = spheres.expand(case)
    lip = case["lip"]
    # repeated minima leave rounding: a hair below the limit
    r = spheres.graded(x, r, lip * (1 - 1e-9)) * (1 - 1e-12)
    S = np.column_stack([x, r])
    n = len(S)
    alphas = [0.0, 0.0, 0.3, 0.5, 0.866]
    ints, dat, want = [case["seed"] % 2], [], []
    und = 1e-7
    for q in range(case["queries"]):
        kind = int(g.integers(0, 6))
        al = float(alphas[g.integers(len(alphas))])
        beta = np.sqrt(1 - al * al)
        s = S[g.integers(n)]
        v = g.standard_normal(3)
        v /= np.linalg.norm(v)
        f = g.choice([0.0, 0.5, 0.999, 1 - 1e-5, 1 + 1e-5, 1.001, 1.3, 3.0, 20.0])
        p = s[:3] + v * s[3] * f * (beta if kind != 3 else 1)
        ijk = [int(k) for k in g.integers(0, n, 3)]
        if g.random() < 0.5:
            ijk[0] = int(np.linalg.norm(x - p, axis=1).argmin())
        ints += [kind] + ijk
        dat.append(al)
        if kind in (0, 1, 2):
            C = [p]
            for _ in range(kind):
                w = g.standard_normal(3)
                w /= np.linalg.norm(w)
                C.append(s[:3] + w * s[3] * beta * g.choice([0.3, 0.9, 0.999, 1.001, 1.5, f]))
            C = [C[k] for k in g.permutation(kind + 1)]
            m = np.max([np.linalg.norm(x - c, axis=1) - beta * r for c in C], axis=0)
            lim = und * (r + 1)
            want.append((kind, bool((m < -lim).any()), bool((m < lim).any()), al, C))
            dat += [float(t) for c in C for t in c]
        elif kind == 3:
            rq = float(s[3] * g.choice([0.01, 0.3, 1.0, 3.0, 30.0]))
            if g.random() < 0.3:
                p, rq = s[:3], float(s[3])
            d = np.linalg.norm(x - p, axis=1) - r - rq
            want.append((kind, set(np.nonzero(d < -und * (1 + r + rq))[0].tolist()), set(np.nonzero(d < und * (1 + r + rq))[0].tolist()), al, (p, rq)))
            dat += [float(t) for t in p] + [rq]
        elif kind == 4:
            m = np.linalg.norm(x - p, axis=1) - beta * r
            lim = und * (r + 1)
            a, b = set(np.nonzero(m < -lim)[0].tolist()) - set(ijk), set(np.nonzero(m < lim)[0].tolist()) - set(ijk)
            want.append((kind, a, b, al, p))
            dat += [float(t) for t in p]
        else:
            m = np.linalg.norm(s[:3] - p) - beta * s[3]
            lim = und * (s[3] + 1)
            want.append((kind, bool(m < -lim), bool(m < lim), al, (p, s)))
            dat += [float(t) for t in p] + [float(t) for t in s]
    ans, after = ctx.srv("srv_spheres", case["variant"]).call("query", np.array(ints), np.array([lip]), S, np.array(dat), limit=60)
    need(np.array_equal(after.reshape(-1, 4), S), "a query changed the spheres")
    k, pos, neg = 0, 0, 0
    for q, (kind, sure, may, al, what) in enumerate(want):
        name = "%s query %d (alpha %g) at %s" % (KINDS[kind], q, al, what)
        if kind in (0, 1, 2, 5):
            a = bool(ans[k])
            k += 1
            need(a or not sure, "%s: not covered, but it is" % name)
            need(may or not a, "%s: covered, but it is not" % name)
        else:
            if kind == 4:
                flag = bool(ans[k])
                k += 1
            m = int(ans[k])
            got = ans[k + 1:k + 1 + m].tolist()
            k += 1 + m
            need(len(set(got)) == len(got), "%s: a sphere is listed twice" % name)
            need(sure <= set(got), "%s: the spheres %s are missing" % (name, sorted(sure - set(got))[:5]))
            need(set(got) <= may, "%s: the spheres %s do not belong" % (name, sorted(set(got) - may)[:5]))
            a = m > 0
            if kind == 4:
                need(flag == a, "%s: covered is %s, but %d spheres are listed" % (name, flag, m))
        pos, neg = pos + a, neg + (not a)
    return {"nontrivial": pos > 0 and neg > 0 and n > 2, "labels": [case["kind"], "lip %g" % lip]}


def strat(variant):
    return lambda: st.tuples(spheres.strategy(), st.integers(1, 60)).map(lambda t: dict(t[0], queries=t[1], variant=variant))


CHECK = Check(
    "C21",
    rule="A case is a graded set of 1 to 400 spheres (in space, on a plane, curve, line or lattice, in distant groups) and up to 60 queries: a point, segment or triangle placed in, at and "
         "outside of a sphere under one of several coverage ratios, a sphere of any size, a point with up to three spheres excepted. Non-trivial: both answers occur and there are over two spheres.",
    groups=[Group("queries", strat("rel"), run, quick=12000, thorough=250000),
            Group("queries_asan", strat("asan"), run, quick=500, thorough=12000)],
    targets=[("srv_spheres", "rel"), ("srv_spheres", "asan")],
    assumptions=["the spheres are graded by the constant", "within 1e-7 of the boundary either answer is accepted; a segment or triangle is covered when one sphere covers all its corners"],
)
