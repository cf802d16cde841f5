"""C01: spatial queries on a point set agree with exhaustive search after any history."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Check, Group
from vlib.server import Violation

DBL_MAX = np.finfo(float).max


class Model:
    def __init__(self, dim):
        self.dim = dim
        self.clear()

    def clear(self):
        self.nd = self.dim
        self.p = []          # full coordinates
        self.n = []
        self.a = []          # None or list
        self.links = {}

    def x(self):
        return np.array([q[:self.dim] for q in self.p]).reshape(len(self.p), self.dim)


def encode(case):
    """case -> (ops, dat, trace) ; the trace says what each output must satisfy"""
    dim = case["dim"]
    ops, dat, tr = [], [], []
    m = Model(dim)
    off = np.array(case["off"][:dim])
    sc = 10.0 ** case["scale"]

    def coords(b):
        if b["kind"] == "explicit":
            return np.array([[float(c) for c in (q * dim)[:dim]] for q in b["pts"]]).reshape(len(b["pts"]), dim)
        return gen.cloud(b["kind"], b["n"], dim, b["seed"])

    for step in case["steps"]:
        t = step["t"]
        if t == "add":
            P = coords(step) * sc + off
            r = np.random.default_rng([step["seed"], 5])
            N = gen.unit(r, max(1, len(P)), dim)
            if m.p:
                nd = m.nd
            else:
                nd = dim + step["extra"]
                m.nd = nd
            for i, q in enumerate(P):
                full = list(q) + [float(v) for v in np.round(r.random(nd - dim), 6)]
                hasn = step["normals"]
                na = step["attrs"] if (i % 3 != 2 or step["attrs"] > 1) else 0
                at = [int(v) for v in r.integers(0, 1000, na)]
                ops += [0, nd, int(hasn), na] + at
                dat += full
                if hasn:
                    dat += list(N[i])
                m.p.append(full)
                m.n.append(list(N[i]) if hasn else [0.0] * dim)
                m.a.append(at if na else None)
        elif t == "rebuild":
            if m.p:
                ops.append(1)
        elif t == "clear":
            ops.append(2)
            m.clear()
        elif t == "noauto":
            ops.append(4)
        elif t == "attr":
            r = np.random.default_rng([step["seed"], 6])
            c = [i for i in range(len(m.p)) if m.a[i]]
            if c:
                i = c[int(r.integers(len(c)))]
                k = int(r.integers(len(m.a[i])))
                v = int(r.integers(1, 10 ** 6))
                ops += [5, i, k, v]
                m.a[i][k] = v
            if m.p and m.nd > dim:
                i = int(r.integers(len(m.p)))
                k = int(r.integers(m.nd - dim))
                v = float(r.random())
                ops += [6, i, k]
                dat += [v]
                m.p[i][dim + k] = v
        elif t == "link":
            r = np.random.default_rng([step["seed"], 7])
            n = len(m.p)
            if n:
                for _ in range(step["k"]):
                    # few hubs, so that neighbour lists grow past their first capacity
                    a = int(r.integers(min(n, 3)) if r.random() < 0.5 else r.integers(n))
                    b = int(r.integers(n))
                    if r.random() < 0.5:
                        ops += [7, a, b]
                        tr.append(("skip1",))
                        m.links.setdefault(a, [])
                        m.links.setdefault(b, [])
                        if b not in m.links[a]:
                            m.links[a].append(b)
                        if a not in m.links[b]:
                            m.links[b].append(a)
                    else:
                        ops += [8, a, b]
                        tr.append(("skip1",))
                        m.links.setdefault(a, [])
                        if b not in m.links[a]:
                            m.links[a].append(b)
                for _ in range(4):
                    a, b = int(r.integers(n)), int(r.integers(n))
                    ops += [29, a, b]
                    tr.append(("linked", b in m.links.get(a, [])))
                if m.links:
                    for a in list(m.links)[:5]:
                        ops += [30, a]
                        tr.append(("links", sorted(m.links[a])))
        elif t == "unlink":
            if m.p:
                ops.append(9)
                m.links = {}
        elif t == "renumber":
            if m.p and not m.links:
                ops += [3, 28, m.nd]
                tr.append(("dump", [list(q) for q in m.p], [list(q) for q in m.n],
                           [None if a is None else list(a) for a in m.a], m.nd, True))
                tr.append(("end",))
                return ops, dat, tr, m     # indices are new from here on: driven in a second phase
        elif t == "query":
            queries(step, m, ops, dat, tr, sc, off)
        if t in ("add", "clear"):
            ops += [31]
            tr.append(("count", len(m.p), dim))
    if m.p:
        ops += [28, m.nd]
        tr.append(("dump", [list(q) for q in m.p], [list(q) for q in m.n],
                   [None if a is None else list(a) for a in m.a], m.nd, False))
    return ops, dat, tr, m


def queries(step, m, ops, dat, tr, sc, off):
    dim, n = m.dim, len(m.p)
    r = np.random.default_rng([step["seed"], 8])
    X = m.x() if n else np.zeros((0, dim))
    if n == 0:
        x = r.random(dim) * sc + off
        ops += [21]
        dat += list(x) + [DBL_MAX]
        tr.append(("empty",))
        return
    Nn = np.array(m.n)
    for _ in range(step["k"]):
        w = r.random()
        if w < 0.25:
            x = X[r.integers(n)].copy()
        elif w < 0.5:
            x = 0.5 * (X[r.integers(n)] + X[r.integers(n)])
        elif w < 0.6:
            x = X[r.integers(n)].copy()
            x[r.integers(dim)] += sc * r.choice([-1, 1]) * 10.0 ** r.integers(-3, 1)
        elif w < 0.9:
            x = (1.4 * r.random(dim) - 0.2) * sc + off
        else:
            x = (20 * r.random(dim) - 10) * sc + off
        d = np.sqrt(((X - x) ** 2).sum(1))
        cap = DBL_MAX
        v = r.random()
        if v < 0.15:
            cap = float(r.random() * sc)
        elif v < 0.3:
            cap = float(np.sort(d)[min(n - 1, int(r.integers(5)))] * (1 + r.choice([-0.01, 0.01])))
        op = int(r.choice([20, 21, 22, 23, 24, 25, 26, 27, 27, 32, 33]))
        thr = float(r.choice([0.1, 0.5, 0.866, 0.95, 0.99]))
        tol = float(r.choice([1e-10, 1e-3, 0.05, 0.3])) * sc
        if op == 20:
            i = int(r.integers(n))
            dd = np.sqrt(((X - X[i]) ** 2).sum(1))
            ok = np.ones(n, bool)
            ok[i] = False
            ops += [20, i]
            dat += [cap]
            tr.append(("near", dd, ok, ok, cap, sc, "closest point to stored point"))
        elif op == 21:
            ops += [21]
            dat += list(x) + [cap]
            ok = np.ones(n, bool)
            tr.append(("near", d, ok, ok, cap, sc, "closest point"))
        elif op == 22:
            o = np.argsort(d, kind="stable")
            k = int(r.choice([0, 1, 2, min(5, n), min(20, n), n]))
            k = min(k, n)
            ex = list(o[:k]) if r.random() < 0.6 else list(r.choice(n, k, replace=False))
            ok = np.ones(n, bool)
            ok[ex] = False
            ops += [22, k] + [int(e) for e in ex]
            dat += list(x) + [cap]
            tr.append(("near", d, ok, ok, cap, sc, "closest point with exclusions"))
        elif op in (23, 24, 25, 26):
            dx = x - X
            safe = np.where(d > 0, d, 1.0)
            cp = np.clip((dx * Nn).sum(1) / safe, -1, 1)
            eps = 1e-7
            lbl = {23: "closest non-smooth point", 24: "closest non-smooth point (normal)",
                   25: "closest non-smooth point (normals)", 26: "closest non-smooth edge point"}[op]
            if op in (23, 26):
                q = np.sqrt(1 - cp ** 2) if op == 23 else np.abs(cp)
                sure = (d > tol * (1 + 1e-9)) & (q < thr - eps)
                may = (d > tol * (1 - 1e-9)) & (q <= thr + eps)
                ops += [op]
                dat += list(x) + [tol, thr, cap]
            elif op == 24:
                nx = gen.unit(r, 1, dim)[0] if r.random() < 0.5 else Nn[r.integers(n)]
                cx = np.clip((dx * nx).sum(1) / safe, -1, 1)
                q1, q2 = np.sqrt(1 - cp ** 2), np.sqrt(1 - cx ** 2)
                far, near = d > 1.1e-10, d > 0.9e-10
                sure = far & ((q1 < thr - eps) | (q2 < thr - eps))
                may = near & ((q1 <= thr + eps) | (q2 <= thr + eps))
                ops += [op]
                dat += list(x) + list(nx) + [thr, cap]
            else:
                k = int(r.integers(1, 4))
                nn = gen.unit(r, k, dim)
                if r.random() < 0.5:
                    nn[0] = Nn[r.integers(n)]
                far, near = d > 1.1e-5, d > 0.9e-5
                q1 = np.sqrt(1 - cp ** 2)
                a = np.abs(Nn @ nn.T).max(1)
                # smooth := (close or q1 > thr) and some normal agrees
                smooth_sure = ((~near) | (q1 > thr + eps)) & (a > thr + eps)
                smooth_may = ((~far) | (q1 > thr - eps)) & (a > thr - eps)
                sure, may = ~smooth_may, ~smooth_sure
                ops += [op, k]
                dat += list(x) + [float(c) for c in nn.ravel()] + [thr, cap]
            tr.append(("near", d, sure, may, cap, sc, lbl))
        elif op == 27:
            rad = float(r.choice([0.0, 0.01, 0.1, 0.5, 3.0])) * sc * (0.5 + r.random())
            if r.random() < 0.3:
                rad = float(np.sort(d)[min(n - 1, int(r.integers(8)))]) * (1 + float(r.choice([-1e-3, 1e-3])))
            ops += [27, int(r.choice([1, 2, 10, 100]))]
            dat += list(x) + [rad]
            tol2 = 1e-12 * (np.abs(x).max() + np.abs(X).max(initial=0.0))
            tr.append(("ball", d < rad * (1 - 1e-9) - tol2, d <= rad * (1 + 2e-6) + tol2))
        elif op == 32:
            i = int(r.integers(n))
            ops += [32, i]
            tr.append(("coords", m.p[i][:dim]))
        else:
            i = int(r.integers(n))
            k = int(r.integers(0, 4))
            a = m.a[i]
            # the attribute block's first entry counts the block itself
            if a is None:
                exp = (0, 0)
            elif k < len(a):
                exp = (1, a[k])
            else:
                exp = None
            if exp is not None:
                ops += [33, i, k]
                tr.append(("attr", exp))


def check_near(idx, h, e):
    _, d, sure, may, cap, sc, what = e
    n = len(d)
    tol = 1e-12 * sc + 1e-12 * (0 if cap == DBL_MAX else cap)
    ds = d[sure].min() if sure.any() else np.inf
    dm = d[may].min() if may.any() else np.inf
    if idx == n:
        if ds < cap - tol - 1e-12 * ds:
            raise Violation("%s: nothing reported, but point %d at distance %.17g qualifies (limit %.6g)"
                            % (what, int(np.nonzero(sure & (d == ds))[0][0]), ds, cap))
        if h != cap:
            raise Violation("%s: nothing found but the distance changed from %r to %r" % (what, cap, h))
        return "none"
    if idx < 0 or idx > n:
        raise Violation("%s: index %d out of range 0..%d" % (what, idx, n))
    t = tol + 1e-10 * abs(d[idx]) + 1e-11 * sc
    if not may[idx]:
        raise Violation("%s: reported point %d does not qualify" % (what, idx))
    if not abs(h - d[idx]) <= t:
        raise Violation("%s: reported distance %.17g, true distance of point %d is %.17g" % (what, h, idx, d[idx]))
    if h > ds + t:
        raise Violation("%s: reported distance %.17g but a qualifying point is at %.17g" % (what, h, ds))
    if h > cap + tol or h < dm - t:
        raise Violation("%s: reported distance %.17g outside [%g, %g]" % (what, h, dm, cap))
    return "found"


def verify(tr, oi, od, m, labels):
    pi = pd = 0
    perm = None
    for e in tr:
        k = e[0]
        if k == "near":
            r = check_near(int(oi[pi]), float(od[pd]), e)
            labels.add(e[6] + "/" + r)
            pi += 1
            pd += 1
        elif k == "empty":
            if not (oi[pi] == 0 and od[pd] == DBL_MAX):
                raise Violation("a query on the emptied set reports point %d" % oi[pi])
            pi += 1
            pd += 1
            labels.add("query on an empty set")
        elif k == "ball":
            c = int(oi[pi])
            got = [int(v) for v in oi[pi + 1:pi + 1 + c]]
            pi += 1 + c
            s = set(got)
            if len(s) != len(got):
                raise Violation("points in sphere: duplicates in %s" % got)
            miss = set(np.nonzero(e[1])[0].tolist()) - s
            extra = s - set(np.nonzero(e[2])[0].tolist())
            if miss or extra:
                raise Violation("points in sphere: missing %s, wrongly reported %s" % (sorted(miss)[:5], sorted(extra)[:5]))
            labels.add("ball/%s" % ("none" if c == 0 else "few" if c < 10 else "many"))
        elif k == "skip1":
            pi += 1
        elif k == "linked":
            if bool(oi[pi]) != e[1]:
                raise Violation("link query answers %d, expected %s" % (oi[pi], e[1]))
            pi += 1
        elif k == "links":
            c = int(oi[pi])
            got = sorted(int(v) for v in oi[pi + 1:pi + 1 + c])
            pi += 1 + c
            if got != e[1]:
                raise Violation("links are %s, expected %s" % (got, e[1]))
            labels.add("links/%s" % ("few" if c < 10 else "past first capacity"))
        elif k == "count":
            if oi[pi] != e[1] or oi[pi + 1] != e[2]:
                raise Violation("point count/dimension %d/%d, expected %d/%d" % (oi[pi], oi[pi + 1], e[1], e[2]))
            pi += 2
        elif k == "coords":
            g = od[pd:pd + 2 * len(e[1])].reshape(-1, 2)
            pd += 2 * len(e[1])
            if not (np.array_equal(g[:, 0], e[1]) and np.array_equal(g[:, 1], e[1])):
                raise Violation("stored coordinates read back as %s, expected %s" % (g.tolist(), e[1]))
        elif k == "attr":
            if (int(oi[pi]), int(oi[pi + 1])) != e[1]:
                raise Violation("attribute reads back as %s, expected %s" % ((int(oi[pi]), int(oi[pi + 1])), e[1]))
            pi += 2
        elif k == "dump":
            P, N, A, nd, anyorder = e[1:]
            dim = len(N[0])
            if int(oi[pi]) != len(P):
                raise Violation("%d points stored, expected %d" % (oi[pi], len(P)))
            pi += 1
            rows = []
            for _ in range(len(P)):
                row = od[pd:pd + nd + dim].tolist()
                pd += nd + dim
                c = int(oi[pi])
                at = None if c == 0 else [int(v) for v in oi[pi + 1:pi + c]]
                pi += 1 if c == 0 else c
                rows.append((row, at))
            exp = [(list(map(float, p)) + list(map(float, q)), a) for p, q, a in zip(P, N, A)]
            if anyorder:
                key = lambda z: (z[0], z[1] or [])
                if sorted(rows, key=key) != sorted(exp, key=key):
                    raise Violation("renumbering changed the stored points")
                perm = rows
            elif rows != exp:
                i = [a == b for a, b in zip(rows, exp)].index(False)
                raise Violation("point %d stored as %s, expected %s" % (i, rows[i], exp[i]))
    return perm


def run(case, ctx):
    labels = set()
    ops, dat, tr, m = encode(case)
    srv = ctx.srv("srv_tree", case.get("variant", "rel"))
    args = [np.array([case["dim"]]), np.array([case["ctor"]])]
    two = bool(tr) and tr[-1] == ("end",)
    if two:
        oi, od = srv.call("history", *args, np.array(ops, dtype=np.int64), np.array(dat, dtype=float))
        perm = verify(tr[:-1], oi, od, m, labels)
        # same history again, now followed by queries against the renumbered model
        m.p = [r[0][:m.nd] for r in perm]
        m.n = [r[0][m.nd:] for r in perm]
        m.a = [r[1] for r in perm]
        k0, d0 = len(ops), len(dat)
        tr2 = []
        last = [s for s in case["steps"] if s["t"] == "renumber"][0]
        queries({"seed": last["seed"], "k": 25}, m, ops, dat, tr2, 10.0 ** case["scale"], np.array(case["off"][:case["dim"]]))
        oi2, od2 = srv.call("history", *args, np.array(ops, dtype=np.int64), np.array(dat, dtype=float))
        verify(tr2, oi2[len(oi):], od2[len(od):], m, labels)
        labels.add("renumbered")
    else:
        oi, od = srv.call("history", *args, np.array(ops, dtype=np.int64), np.array(dat, dtype=float))
        verify(tr, oi, od, m, labels)
    for s in case["steps"]:
        if s["t"] in ("rebuild", "clear", "noauto", "unlink", "attr"):
            labels.add("step " + s["t"])
    n = len(m.p)
    labels.add("n<3" if n < 3 else "n<100" if n < 100 else "n>=100 (storage grown)")
    nq = sum(1 for e in tr if e[0] in ("near", "ball")) + (25 if two else 0)
    return {"nontrivial": n >= 3 and nq >= 3, "labels": sorted(labels)}


def steps(dim):
    add = st.fixed_dictionaries({
        "t": st.just("add"), "kind": st.sampled_from(gen.KINDS),
        "n": st.one_of(st.integers(1, 12), st.integers(90, 130), st.integers(150, 450)),
        "seed": gen.seeds(), "normals": st.booleans(), "attrs": st.integers(0, 4), "extra": st.integers(0, 2)})
    num = st.one_of(st.integers(-3, 3), st.integers(-64, 64).map(lambda v: v / 16.0))
    addx = st.fixed_dictionaries({
        "t": st.just("add"), "kind": st.just("explicit"),
        "pts": st.lists(st.lists(num, min_size=dim, max_size=dim), min_size=1, max_size=12),
        "seed": gen.seeds(), "normals": st.booleans(), "attrs": st.integers(0, 4), "extra": st.integers(0, 2)})
    q = st.fixed_dictionaries({"t": st.just("query"), "seed": gen.seeds(), "k": st.integers(1, 40)})
    other = st.fixed_dictionaries({"t": st.sampled_from(["rebuild", "rebuild", "noauto", "attr", "renumber", "clear", "unlink"]),
                                   "seed": gen.seeds()})
    link = st.fixed_dictionaries({"t": st.just("link"), "seed": gen.seeds(), "k": st.integers(1, 60)})
    any_ = st.one_of(add, addx, q, q, other, link)
    # most histories begin with points and end with queries
    return st.one_of(
        st.lists(any_, min_size=2, max_size=9),
        st.tuples(st.one_of(add, addx), st.lists(any_, min_size=1, max_size=9), q).map(lambda t: [t[0]] + t[1] + [t[2]]),
        st.tuples(st.one_of(add, addx), st.lists(any_, min_size=1, max_size=9), q).map(lambda t: [t[0]] + t[1] + [t[2]]))


def strategy(variant="rel"):
    def f():
        return st.integers(1, 5).flatmap(lambda dim: st.fixed_dictionaries({
            "dim": st.just(dim), "ctor": st.sampled_from([1, 1, 0]) if dim == 3 else st.just(1),
            "scale": st.sampled_from([0, 0, 0, 0, -3, 3]),
            "off": st.sampled_from([[0.0] * 5, [0.0] * 5, [-0.5] * 5, [10.0, -20.0, 5.0, 0.0, 1.0]]),
            "variant": st.just(variant), "steps": steps(dim)}))
    return f


def run_array(case, ctx):
    """the constructor that takes an existing array of points"""
    dim = case["dim"]
    P = gen.cloud(case["kind"], case["n"], dim, case["seed"])
    m = Model(dim)
    m.p = [list(q) for q in P]
    m.n = [[0.0] * dim for _ in P]
    m.a = [None] * len(P)
    ops, dat, tr, labels = [], [], [], set()
    r = np.random.default_rng([case["seed"], 9])
    X = P
    for _ in range(40):
        x = 1.4 * r.random(dim) - 0.2 if r.random() < 0.6 else X[r.integers(len(X))].copy()
        d = np.sqrt(((X - x) ** 2).sum(1))
        ok = np.ones(len(X), bool)
        if r.random() < 0.5:
            ops += [21]
            dat += list(x) + [DBL_MAX]
            tr.append(("near", d, ok, ok, DBL_MAX, 1.0, "closest point (array)"))
        else:
            rad = float(r.random() * r.choice([0.05, 0.3, 1.0]))
            ops += [27, 4]
            dat += list(x) + [rad]
            tr.append(("ball", d < rad * (1 - 1e-9) - 1e-12, d <= rad * (1 + 2e-6) + 1e-12))
    oi, od = ctx.srv("srv_tree").call("history", np.array([dim]), np.array([2]), np.array(ops, dtype=np.int64),
                                      np.array(dat), P.ravel())
    verify(tr, oi, od, m, labels)
    return {"nontrivial": len(P) >= 3, "labels": sorted(labels)}


def array_strategy():
    return st.fixed_dictionaries({"dim": st.integers(1, 4), "kind": st.sampled_from(gen.KINDS),
                                  "n": st.one_of(st.integers(1, 20), st.integers(50, 2000)), "seed": gen.seeds()})


CHECK = Check(
    "C01",
    rule="A case is a history of insertions (several spatial distributions, duplicates, sorted input, 1-5 dimensions), "
         "rebuilds, renumberings, clears, attribute writes and links, interleaved with closest-point, excluded, non-smooth "
         "and ball queries; every answer is compared with an exhaustive scan of a reference list. Non-trivial: at least "
         "3 stored points and 3 queries.",
    groups=[
        Group("history", strategy("rel"), run, quick=9000, thorough=150000),
        Group("history_asan", strategy("asan"), run, quick=1600, thorough=24000),
        Group("array", array_strategy, run_array, quick=2000, thorough=30000),
    ],
    targets=[("srv_tree", "rel"), ("srv_tree", "asan")],
    assumptions=["distances are compared within 1e-10 relative; points within 1e-7 of a smoothness threshold and within "
                 "2e-6 relative of a query ball's surface may be reported either way",
                 "IEEE double arithmetic; queries on an empty set other than closest-point are not issued (no caller does)"],
)
