"""C18: sorting, growable arrays and number parsing behave as their models."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Check, Group
from vlib.server import Violation


def keys(case, n):
    r = np.random.default_rng([case["seed"], 59])
    k = case["shape"]
    if case["explicit"]:
        x = np.array((case["explicit"] * n)[:n], dtype=float)
    elif k == "random":
        x = r.integers(0, 10 ** 6, n).astype(float)
    elif k == "few":
        x = r.integers(0, 3, n).astype(float)
    elif k == "sorted":
        x = np.sort(r.integers(0, 10 ** 4, n)).astype(float)
    elif k == "reversed":
        x = np.sort(r.integers(0, 10 ** 4, n))[::-1].astype(float)
    elif k == "equal":
        x = np.full(n, 7.0)
    elif k == "organ":
        x = np.minimum(np.arange(n), np.arange(n)[::-1]).astype(float)
    else:
        x = np.sort(r.integers(0, 10 ** 4, n)).astype(float)
        if n > 1:
            i, j = r.integers(n, size=2)
            x[[i, j]] = x[[j, i]]
    if case["t"] == 1:
        x = (x - 5) * 10.0 ** case["scale"]
    return x


def run_sort(case, ctx):
    n, t = case["n"], case["t"]
    x = keys(case, n)
    lo = case["lo"] % n
    hi = lo + case["len"] % (n - lo) if case["sub"] else n - 1
    lo = lo if case["sub"] else 0
    I = np.arange(n)[::-1].copy() * 3 + 1
    if t != 1:
        x = x.astype(np.int64)
    y, J = ctx.srv("srv_geom", case["variant"]).call("sort", np.array([t, lo, hi]), x, I)
    what = ("integers", "reals with companions", "integers with companions")[t]
    if not (np.array_equal(y[:lo], x[:lo]) and np.array_equal(y[hi + 1:], x[hi + 1:])):
        raise Violation("sorting %s %d..%d changed entries outside the range" % (what, lo, hi))
    if not np.array_equal(y[lo:hi + 1], np.sort(x[lo:hi + 1])):
        raise Violation("sorting %s %s (%d..%d) gave %s" % (what, x.tolist(), lo, hi, y.tolist()))
    if t == 0:
        if not np.array_equal(I, J):
            raise Violation("?")
    else:
        k = (I[0] - J) // 3           # position each companion came from
        if not np.array_equal(np.sort(J), np.sort(I)):
            raise Violation("companions were lost or repeated: %s" % J.tolist())
        if not np.array_equal(x[k], y):
            raise Violation("companions no longer belong to their keys: %s -> %s, %s" % (x.tolist(), y.tolist(), J.tolist()))
    return {"nontrivial": hi > lo, "labels": [what, case["shape"]]}


def run_grow(case, ctx):
    r = np.random.default_rng([case["seed"], 61])
    n, k = case["n"], case["t"]
    x = r.standard_normal(n) if k == 1 else r.integers(0, 2 ** 40, n)
    y, c = ctx.srv("srv_geom", case["variant"]).call("grow", np.array([k, case["cap"]]), x)
    if not np.array_equal(x, y):
        raise Violation("appending %d entries (kind %d, capacity %d) stored %s" % (n, k, case["cap"], y.tolist()[:20]))
    if c[0] != n or c[1] < n:
        raise Violation("after %d appends the count is %d and the capacity %d" % (n, c[0], c[1]))
    return {"nontrivial": n >= case["cap"], "labels": ["grew" if n >= case["cap"] else "fits"]}


def run_parse(case, ctx):
    texts, want = [], []
    for a in case["items"]:
        if isinstance(a, int):
            s = "%d" % a
            want.append((float(a), a if a >= 0 else None))
        elif isinstance(a, float):
            s = case["fmt"] % a
            f = float(s)
            want.append((f, None))
        else:
            s = a
            want.append((0.0, 0))
        texts.append(" " * case["pad"] + s + " " * case["pad"])
    d, i = ctx.srv("srv_geom", case["variant"]).call("parse", *texts)
    for s, w, g, k in zip(texts, want, d, i):
        if g != w[0] and not (g == 0 and w[0] == 0):
            raise Violation("%r read as %r, expected %r" % (s, g, w[0]))
        if w[1] is not None and k != w[1]:
            raise Violation("%r read as %d, expected %d" % (s, k, w[1]))
    return {"nontrivial": True, "labels": []}


def strat_sort(variant):
    return lambda: st.fixed_dictionaries({
        "t": st.sampled_from([0, 1, 2]), "n": st.one_of(st.integers(1, 12), st.integers(1, 400)), "seed": gen.seeds(),
        "shape": st.sampled_from(["random", "few", "sorted", "reversed", "equal", "organ", "swap"]),
        "explicit": st.one_of(st.just([]), st.lists(st.integers(0, 5), min_size=1, max_size=8)), "scale": st.sampled_from([-8, 0, 3]),
        "sub": st.booleans(), "lo": st.integers(0, 400), "len": st.integers(0, 400), "variant": st.just(variant)})


def strat_grow(variant):
    return lambda: st.fixed_dictionaries({
        "t": st.integers(0, 4), "n": st.one_of(st.integers(0, 20), st.integers(0, 600)), "cap": st.sampled_from([1, 2, 3, 4, 8, 10, 100]),
        "seed": gen.seeds(), "variant": st.just(variant)})


def strat_parse(variant):
    num = st.one_of(st.integers(-10 ** 9, 2 ** 52), st.floats(allow_nan=False, allow_infinity=False, min_value=-1e300, max_value=1e300).filter(lambda v: v == 0 or abs(v) > 1e-300),
                    st.sampled_from(["abc", "", "x1", "-", "."]))
    return lambda: st.fixed_dictionaries({"items": st.lists(num, min_size=1, max_size=12), "fmt": st.sampled_from(["%r", "%.17g", "%.16f", "%e", "%.3f"]),
                                          "pad": st.integers(0, 2), "variant": st.just(variant)}).filter(
        lambda c: all(not isinstance(a, float) or (math.isfinite(a) and len(c["fmt"] % a) < 400) for a in c["items"]))


CHECK = Check(
    "C18",
    rule="A case sorts one array (or part of it) of up to 400 keys in random, sorted, reversed, constant, few-valued or organ-pipe order, appends up to 600 entries "
         "to an array of small capacity, or parses up to 12 written numbers. Non-trivial: more than one key sorted, the array grew, or any number parsed.",
    groups=[Group("sort", strat_sort("rel"), run_sort, quick=20000, thorough=400000),
            Group("sort_asan", strat_sort("asan"), run_sort, quick=4000, thorough=60000),
            Group("grow", strat_grow("asan"), run_grow, quick=5000, thorough=60000),
            Group("parse", strat_parse("rel"), run_parse, quick=4000, thorough=60000)],
    targets=[("srv_geom", "rel"), ("srv_geom", "asan")],
)
