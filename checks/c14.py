"""C14: random sampling stays in its domain, is uniform and reproducible."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats

from vlib import gen
from vlib.core import Check, Group
from vlib.server import Violation

SAME = 1 << 41          # keep drawing from the current stream
PMIN = 1e-12            # a statistical test below this is a violation


def z(x, mean, var, what):
    """mean of x against its expectation, in standard errors"""
    d = abs(x.mean(0) - mean) / np.sqrt(var / len(x))
    if np.max(d) > 8:
        raise Violation("%s: sample mean %s, expected %s (%.1f standard errors, %d samples)" % (what, x.mean(0), mean, np.max(d), len(x)))


def ks(x, what):
    p = stats.kstest(x, "uniform").pvalue
    if p < PMIN:
        raise Violation("%s: not uniform (Kolmogorov-Smirnov p=%.3g over %d samples)" % (what, p, len(x)))


def run(case, ctx):
    srv = ctx.srv("srv_geom", case["variant"])
    kind, n, D, C = case["kind"], case["n"], case["dim"], case["corners"]
    r = np.random.default_rng([case["dseed"], 53])
    seed, burn = case["seed"], case["burn"]
    labels = {kind}
    many = n >= 2000

    def call(plan, dat=()):
        return srv.call("rng", np.array(plan), np.array(dat, float))[0]

    if kind == "uniform":
        x = call([0, seed, burn, n, 0, 0])
        if not ((x >= 0) & (x <= 1)).all():
            raise Violation("a uniform number outside [0,1]: %r" % x[(x < 0) | (x > 1)][0])
        if many:
            ks(x, "uniform numbers")
            for lag in (1, 2, 7, 30, 1190, 1220):
                if n > lag + 1000:
                    c = np.corrcoef(x[:-lag], x[lag:])[0, 1] * np.sqrt(n - lag)
                    if abs(c) > 8:
                        raise Violation("uniform numbers: correlation at lag %d (%.1f standard errors)" % (lag, c))
            if len(np.unique(x)) < 0.999 * n:
                raise Violation("the stream repeats itself: %d different values among %d" % (len(np.unique(x)), n))
    elif kind == "repro":
        x = call([0, seed, burn, n, 0, 0])
        # the same seed after another stream, and the same stream drawn in two pieces
        k = case["cut"] % max(1, n)
        y = call([0, case["seed2"], 3, 5, 0, 0, 0, seed, burn, k, 0, 0, 0, SAME, 0, n - k, 0, 0])[5:]
        if not np.array_equal(x, y):
            raise Violation("seed %d does not reproduce its stream (first difference at %d)" % (seed, int(np.argmax(x != y))))
        if (seed - case["seed2"]) % (1 << 24) and seed and case["seed2"] and n >= 50:
            w = call([0, case["seed2"], burn, n, 0, 0])
            if np.array_equal(x, w):
                raise Violation("seeds %d and %d give the same stream" % (seed, case["seed2"]))
    elif kind == "threads":
        a, b = case["t1"], case["t2"]
        x = call([0, -1 - a, 0, n, 0, 0])
        y = call([0, -1 - b, 0, n, 0, 0])
        if not (((x >= 0) & (x <= 1)).all() and ((y >= 0) & (y <= 1)).all()):
            raise Violation("a uniform number outside [0,1]")
        if a == b:
            if not np.array_equal(x, y):
                raise Violation("the stream of thread %d is not reproducible" % a)
        elif n >= 500:
            c = np.corrcoef(x, y)[0, 1] * np.sqrt(n)
            if abs(c) > 8 or (x == y).mean() > 0.01:
                raise Violation("the streams of threads %d and %d are related (correlation %.1f standard errors, %.0f%% equal)" % (a, b, c, 100 * (x == y).mean()))
    elif kind == "default":
        big = 1 << 40
        x = call([0, big, 0, n, 0, 0, 0, big, 0, n, 0, 0])
        a, b = x[:n], x[n:]
        if not ((x >= 0) & (x <= 1)).all():
            raise Violation("a uniform number outside [0,1]")
        if not np.array_equal(x, call([0, big, 0, n, 0, 0, 0, big, 0, n, 0, 0])):
            raise Violation("two processes with the same clock do not draw the same numbers")
        if n >= 500:
            c = np.corrcoef(a, b)[0, 1] * np.sqrt(n)
            if abs(c) > 8 or (a == b).mean() > 0.01:
                raise Violation("two samplers of one process draw related numbers (%.1f standard errors)" % c)
    elif kind == "box":
        lo = r.standard_normal(D) * 3
        hi = lo + r.random(D) * 10.0 ** r.integers(-2, 3)
        if r.random() < 0.2:
            hi[r.integers(D)] = lo[0] if D == 1 else hi[0]
            hi = np.maximum(lo, hi)
        x = call([1, seed, burn, n, D, 0], list(lo) + list(hi)).reshape(n, D)
        e = 1e-12 * (1 + np.abs(lo) + np.abs(hi))
        if not ((x >= lo - e) & (x <= hi + e)).all():
            raise Violation("a sample left its box")
        if many:
            for d in range(D):
                if hi[d] > lo[d]:
                    ks((x[:, d] - lo[d]) / (hi[d] - lo[d]), "coordinate %d of samples of a box" % d)
    elif kind == "sphere":
        x = call([2, seed, burn, n, D, 0]).reshape(n, D)
        if not np.isfinite(x).all() or np.abs((x * x).sum(1) - 1).max() > 1e-12:
            raise Violation("a direction in dimension %d is not a unit vector" % D)
        if many:
            z(x, 0.0, 1.0 / D, "directions in dimension %d" % D)
            # second and fourth moments along random directions: E t^2 = 1/D, E t^4 = 3/(D(D+2))
            u = np.vstack([gen.unit(r, 3, D), np.eye(D), np.ones(D) / np.sqrt(D)])
            t = x @ u.T
            if D > 1:
                z(t ** 2, 1.0 / D, 3.0 / (D * (D + 2)) - 1.0 / D ** 2, "squared components of directions in dimension %d" % D)
                z(t ** 4, 3.0 / (D * (D + 2)), 105.0 / (D * (D + 2) * (D + 4) * (D + 6)) - 9.0 / (D * (D + 2)) ** 2,
                  "fourth powers of components of directions in dimension %d" % D)
    elif kind == "simplex":
        C = min(C, D + 1)
        P = r.standard_normal((C, D)) * 10.0 ** r.integers(-1, 2)
        while C > 1 and np.linalg.svd(P[1:] - P[0], compute_uv=False)[-1] < 1e-2:
            P = r.standard_normal((C, D))
        x = call([3, seed, burn, n, D, C], P.ravel()).reshape(n, D)
        if C == 1:
            w = np.ones((n, 1))
            if np.abs(x - P[0]).max() > 1e-12 * (1 + np.abs(P).max()):
                raise Violation("samples of a point differ from it")
        else:
            A = (P[1:] - P[0]).T
            y = np.linalg.lstsq(A, (x - P[0]).T, rcond=None)[0].T
            if np.abs(y @ A.T - (x - P[0])).max() > 1e-9 * (1 + np.abs(P).max()):
                raise Violation("a sample left the plane of its simplex")
            w = np.column_stack([1 - y.sum(1), y])
            if w.min() < -1e-9 or w.max() > 1 + 1e-9:
                raise Violation("a sample lies outside its simplex (barycentric coordinate %g)" % w.min())
        if many and C > 1:
            # flat Dirichlet: each weight is Beta(1, C-1)
            for k in range(C):
                ks(np.clip(1 - (1 - w[:, k]) ** (C - 1), 0, 1), "weight %d of samples of a simplex with %d corners" % (k, C))
            # independence structure: E[wi wj] = 1/(C(C+1))
            i, j = 0, C - 1
            q = w[:, i] * w[:, j]
            v = 4.0 / (C * (C + 1) * (C + 2) * (C + 3)) - (1.0 / (C * (C + 1))) ** 2
            z(q, 1.0 / (C * (C + 1)), v, "product of two weights of a simplex with %d corners" % C)
    else:
        C = case["cells"]
        w = r.random(C) * (r.random(C) < 0.7) * 10.0 ** r.integers(-3, 4)
        zero = r.random() < 0.1
        if zero:
            w[:] = 0
        elif w.sum() == 0:
            w[r.integers(C)] = 1.0
        cdf = np.cumsum(w)
        x = call([4, seed, burn, n, 0, C], cdf)
        if not (x == np.floor(x)).all() or x.min() < 0 or x.max() >= C:
            raise Violation("a sampled cell does not exist: %r of %d" % (x.max(), C))
        x = x.astype(int)
        cnt = np.bincount(x, minlength=C)
        if not zero and (cnt[w == 0] > 0).any():
            raise Violation("a cell of weight zero was sampled")
        p = np.full(C, 1.0 / C) if zero else w / w.sum()
        if many:
            k = p * n > 20
            sd = np.sqrt(n * p[k] * (1 - p[k]))
            dev = np.abs(cnt[k] - n * p[k]) / np.maximum(sd, 1e-9)
            if (sd > 0).any() and dev[sd > 0].max() > 9:
                raise Violation("a cell is sampled %d times in %d, expected %.1f" % (cnt[k][np.argmax(dev)], n, (n * p[k])[np.argmax(dev)]))
    if many:
        labels.add("statistics")
    return {"nontrivial": n >= 10, "labels": sorted(labels)}


def strat(variant):
    return lambda: st.fixed_dictionaries({
        "kind": st.sampled_from(["uniform", "repro", "threads", "default", "box", "sphere", "sphere", "simplex", "simplex", "cdf"]),
        "seed": st.one_of(st.integers(0, 2 ** 31), st.sampled_from([0, 1, 2, 1234567890, 617283945, 123456789])),
        "seed2": st.integers(1, 2 ** 24 - 1), "dseed": gen.seeds(), "burn": st.sampled_from([0, 0, 1, 7, 1219, 1220, 1221, 5000]),
        "n": st.one_of(st.integers(1, 60), st.sampled_from([2000, 5000, 20000])), "dim": st.integers(1, 7), "corners": st.integers(1, 6),
        "cells": st.one_of(st.integers(1, 12), st.integers(1, 300)), "cut": st.integers(0, 3000),
        "t1": st.integers(0, 40), "t2": st.integers(0, 40), "variant": st.just(variant)})


CHECK = Check(
    "C14",
    rule="A case draws 1 to 20000 samples of one kind (uniform numbers, box, direction, simplex, weighted cell, repeated and parallel streams) "
         "from a generated seed and position in the stream. Non-trivial: at least 10 samples; statistical tests from 2000 samples.",
    groups=[Group("samples", strat("rel"), run, quick=12000, thorough=200000),
            Group("samples_asan", strat("asan"), run, quick=800, thorough=10000)],
    targets=[("srv_geom", "rel"), ("srv_geom", "asan")],
    assumptions=["statistical tests fail at p < 1e-12 or 8 standard errors, far beyond what chance produces in the number of cases run",
                 "seeds equal modulo 2^24 share a stream (the generator's seeding uses only those bits)"],
)
