"""C10: the same input and random seed give the same files; other seeds and thread counts give the same regions."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import gen, models, pipe, runs, seedsets, vor
from vlib.core import Check, Group
from vlib.pipe import need
from checks.c04 import write_seeds

OUTPUTS = ["seeds.csv", "mesh.vcg", "surface_spheres.csv", "edges_spheres.csv", "corner_spheres.csv", "clean.obj", "surface_mesh.obj", "model_combined.obj",
           "monitoring_points.csv", "monitoring_points_closest_seeds.csv", "VoroCrustLog.txt", "interface_spheres.csv", "t.csv"]


def files(d):
    out = {}
    for b, _, fs in os.walk(d):
        for n in fs:
            with open(os.path.join(b, n), "rb") as f:
                out[os.path.relpath(os.path.join(b, n), d)] = f.read()
    return out


def surroundings(r, threads):
    """environment variables that are none of the program's business"""
    e = {"MALLOC_PERTURB_": str(int(r.integers(1, 256)))}
    for k, v in (("OMP_NUM_THREADS", str(int(r.integers(1, 9)))), ("OMP_SCHEDULE", str(r.choice(["static", "dynamic", "guided,3"]))), ("OMP_PROC_BIND", str(r.choice(["true", "false"]))),
                 ("LC_ALL", str(r.choice(["C", "POSIX", "C.UTF-8", "de_DE.UTF-8"]))), ("LANG", "xx"), ("TZ", str(r.choice(["UTC", "Asia/Tokyo"]))), ("HOME", "/nonexistent"),
                 ("PADDING", "x" * int(r.integers(1, 5000))), ("R_MAX", "0.001"), ("MALLOC_ARENA_MAX", "1"), ("MALLOC_TOP_PAD_", str(int(r.integers(1, 1 << 20))))):
        if r.random() < 0.5:
            e[k] = v
    return e


def stale(d, r, keep):
    """files an earlier run may have left, with other contents"""
    for n in OUTPUTS:
        if n in keep or r.random() < 0.4:
            continue
        with open(os.path.join(d, n), "w") as f:
            k = int(r.integers(4))
            if k == 0:
                f.write("")
            elif k == 1:
                f.write("x1coord, x2coord, x3coord, radius, region\n" + "".join("%r, %r, %r, 0.1, 1\n" % tuple(r.random(3)) for _ in range(30)))
            elif k == 2:
                f.write("v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\n")
            else:
                f.write("nonsense " * 100)


def prepare(case, m, d, threads, extra):
    keys = [("LIP_CONST", repr(case["lip"])), ("NUM_THREADS", str(threads))]
    angle = min(case["angle"], float(np.floor(0.9 * runs.bend(m.V, m.F)))) if m.planar else case["angle"]
    keys.append(("VC_ANGLE", repr(float(angle))))
    for k, (V, F) in enumerate(runs.soup(m, case)):
        f = "model%s.obj" % (k or "")
        models.write_obj(os.path.join(d, f), V, F, case.get("style", 0))
        keys.append(("INPUT_MESH_FILE", f))
    keys.append(("R_MAX", repr(case["rmax"] * case["size"] if case["rmax"] else 1e4 * case["size"])))
    if case.get("sizing"):
        s = case["sizing"]
        g = np.random.default_rng([case["seed"], 99])
        lo, hi = m.V.min(0), m.V.max(0)
        x = lo + (hi - lo) * (1.4 * g.random((s["n"], 3)) - 0.2)
        v = case["size"] * np.exp(g.uniform(np.log(s["lo"]), np.log(max(s["lo"], s["hi"])), s["n"]))
        with open(os.path.join(d, "sizing.csv"), "w") as f:
            f.write("x1coord, x2coord, x3coord, radius\n" + "".join(", ".join("%r" % float(t) for t in row) + "\n" for row in np.column_stack([x, v])))
        keys.append(("SIZING_FILE", "sizing.csv"))
    pipe.control(os.path.join(d, "vc.in"), keys + extra)


def same(a, b, what):
    a = {k: v for k, v in a.items() if k != "VoroCrustLog.txt"}
    b = {k: v for k, v in b.items() if k != "VoroCrustLog.txt"}
    need(set(a) == set(b), "%s: only one of them wrote %s" % (what, sorted(set(a) ^ set(b))))
    for n in a:
        if a[n] != b[n]:
            x, y = a[n].split(b"\n"), b[n].split(b"\n")
            k = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            need(False, "%s: %s differs from line %d of %d: %r, %r" % (what, n, k + 1, len(x), x[k][:80] if k < len(x) else b"", y[k][:80] if k < len(y) else b""))


def run_twice(case, ctx):
    m = runs.model(case)
    r = np.random.default_rng([case["seed"], 10])
    extra = [("GENERATE_VCG_FILE", None)]
    mon = None
    if case["mon"] == 1:
        extra.append(("GENERATE_MONITORING_POINTS", "true"))
    elif case["mon"] == 2:
        extra.append(("IMPOSE_MONITORING_POINTS", "true"))
        lo, hi = m.V.min(0), m.V.max(0)
        mon = "x1coord, x2coord, x3coord, radius\n" + "".join(", ".join("%r" % float(t) for t in list(lo + (hi - lo) * r.random(3)) + [0.1 * case["size"]]) + "\n" for _ in range(4))
    res = []
    for k in range(2):
        d = top = ctx.scratch()
        if k and case["deep"]:
            d = os.path.join(d, "a", "longer name", "b" * 40)
            os.makedirs(d)
        prepare(case, m, d, 1, extra)
        if mon:
            with open(os.path.join(d, "monitoring_points.csv"), "w") as f:
                f.write(mon)
        before = set(files(d))
        if k and case["stale"]:
            stale(d, r, {"monitoring_points.csv"} if mon else set())
        left = files(d)
        env = {"VERIF_RNG_SEED": str(case["rng"])}
        if k:
            env.update(surroundings(r, 1))
        q = pipe.run_cli(ctx.exe("vc_mesh"), d, ["-vc", "vc.in"], env=env, limit=240)
        need(q.rc == 0 and "Mission Accomplished" in q.out, "the run ended with status %s: %s" % (q.rc, (q.err or q.out)[-300:]))
        out = files(d)
        # what was there and is not an output stays
        out = {n: t for n, t in out.items() if n in before or n not in left or t != left[n]}
        res.append(out)
        if not k:
            first = runs.read_seeds(_at(d)).S
        ctx.drop(top)
    same(res[0], res[1], "the same run twice")
    if case["other"]:
        # another random seed is another sample
        d = ctx.scratch()
        prepare(case, m, d, 1, extra)
        if mon:
            with open(os.path.join(d, "monitoring_points.csv"), "w") as f:
                f.write(mon)
        q = pipe.run_cli(ctx.exe("vc_mesh"), d, ["-vc", "vc.in"], env={"VERIF_RNG_SEED": str((case["rng"] + 1 + int(r.integers(1000))))}, limit=240)
        need(q.rc == 0, "the run ended with status %s" % q.rc)
        S = runs.read_seeds(_at(d)).S
        need(S.shape != first.shape or (S != first).any(), "runs with different random seeds placed all %d seeds alike" % len(S))
        ctx.drop(d)
    return {"nontrivial": True, "labels": sorted({case["kind"], "leftovers" if case["stale"] else "clean", ["plain", "generate", "impose"][case["mon"]]} | ({"sizing"} if case.get("sizing") else set()))}


class _at:
    def __init__(self, d):
        self.dir = d


def volumes(d):
    g = pipe.read_vcg(os.path.join(d, "mesh.vcg"))
    return np.sort([g.vol[g.reg == k].sum() for k in sorted(set(g.reg.tolist()))]), len(g.vol)


def run_others(case, ctx):
    """other seeds and other thread counts: the same regions"""
    m = runs.model(case)
    size = case["size"]
    res = []
    for k, (rng, th) in enumerate([(case["rng"], 1), (case["rng"] if case["same"] else case["rng2"], case["threads"])]):
        d = ctx.scratch()
        prepare(case, m, d, th, [("GENERATE_VCG_FILE", None)])
        q = pipe.run_cli(ctx.exe("vc_mesh"), d, ["-vc", "vc.in"], env={"VERIF_RNG_SEED": str(rng)}, limit=240)
        need(q.rc is not None, "the run with %d threads did not end" % th)
        need(q.rc == 0 and "Mission Accomplished" in q.out, "the run with %d threads ended with status %s: %s" % (th, q.rc, (q.err or q.out)[-300:]))
        res.append((volumes(d), runs.read_seeds(_at(d))))
        ctx.drop(d)
    (v, n), (w, k) = res[0][0], res[1][0]
    need(len(v) == len(w), "%d regions with one thread, %d with %d threads and another seed" % (len(v), len(w), case["threads"]))
    need(np.abs(v - w).max() <= 2e-7 * max(v.max(), size ** 3), "region volumes %s with one thread, %s with %d threads" % (v, w, case["threads"]))
    # the two samples are of the same density
    need(n <= 3 * k + 60 and k <= 3 * n + 60, "%d cells with one thread, %d with %d threads" % (n, k, case["threads"]))
    return {"nontrivial": True, "labels": [case["kind"], "threads %d" % case["threads"], "same seed" if case["same"] else "other seed"]}


def run_seeds(case, ctx):
    """from-seeds mode: twice the same with one thread; with more, the same cells"""
    S, reg, sz = seedsets.expand(case)
    if not reg.any():
        return {"nontrivial": False, "labels": ["skipped: no cells"]}
    try:
        vor.Ref(S, np.nonzero(reg)[0])
    except (ValueError, vor.QhullError):
        return {"nontrivial": False, "labels": ["skipped: unbounded"]}
    r = np.random.default_rng([case["seed"], 11])
    res = []
    for k, th in enumerate([1, 1, case["threads"]]):
        d = ctx.scratch()
        write_seeds(os.path.join(d, "in.csv"), S, reg, sz)
        pipe.control(os.path.join(d, "vc.in"), [("SEEDS_FILE", "in.csv"), ("GENERATE_MESH_FROM_SEEDS", "true"), ("GENERATE_VCG_FILE", "true"), ("NUM_THREADS", str(th))])
        before = set(files(d))
        if k == 1 and case["stale"]:
            stale(d, r, set())
        left = files(d)
        env = {"VERIF_RNG_SEED": str(case["rng"])}
        if k:
            env.update(surroundings(r, th))
            env.pop("OMP_NUM_THREADS", None)
        q = pipe.run_cli(ctx.exe("vc_mesh"), d, ["-vc", "vc.in"], env=env, limit=60)
        need(q.rc == 0, "the run ended with status %s: %s" % (q.rc, (q.err or q.out)[-300:]))
        out = files(d)
        if k < 2:
            res.append({n: t for n, t in out.items() if n in before or n not in left or t != left[n]})
            if k == 0:
                g = pipe.read_vcg(os.path.join(d, "mesh.vcg"))
        else:
            h = pipe.read_vcg(os.path.join(d, "mesh.vcg"))
        ctx.drop(d)
    same(res[0], res[1], "the same run twice")
    # h: the same cells in the same order, connections in any order
    need((len(g.vol), len(g.area)) == (len(h.vol), len(h.area)), "%d cells and %d connections with one thread, %d and %d with %d" % (len(g.vol), len(g.area), len(h.vol), len(h.area), case["threads"]))
    s = case["scale"]
    need((g.x == h.x).all() and (g.reg == h.reg).all(), "cells or their regions differ with %d threads" % case["threads"])
    need(np.abs(g.vol - h.vol).max() <= 1e-7 * s ** 3, "volumes differ by %g with %d threads" % (np.abs(g.vol - h.vol).max(), case["threads"]))
    A = {tuple(sorted(p)): x for p, x in zip(zip(g.a.tolist(), g.b.tolist()), g.area)}
    B = {tuple(sorted(p)): x for p, x in zip(zip(h.a.tolist(), h.b.tolist()), h.area)}
    for p in set(A) | set(B):
        need(abs(A.get(p, 0) - B.get(p, 0)) <= 1e-7 * s * s, "connection %s has area %r with one thread and %r with %d" % (p, A.get(p), B.get(p), case["threads"]))
    return {"nontrivial": len(g.vol) >= 2, "labels": [case["kind"], "threads %d" % case["threads"]]}


def strat_seeds():
    return st.tuples(seedsets.strategy(), st.fixed_dictionaries({"threads": st.sampled_from([2, 3, 4, 8]), "stale": st.booleans(), "rng": st.integers(1, 2 ** 31 - 1)})).map(lambda t: dict(t[0], **t[1]))


SMALL = ["tet", "octa", "box", "ngon", "frustum", "L", "slab", "stack", "step", "grid22"]


def strat_twice():
    return st.tuples(runs.strategy(kinds=SMALL, sizing=True, lips=(0.4, 0.6, 0.8)), st.fixed_dictionaries({
        "mon": st.sampled_from([0, 0, 1, 2]), "stale": st.booleans(), "deep": st.booleans(), "other": st.sampled_from([False, False, True])})).map(lambda t: dict(t[0], **t[1]))


def strat_others():
    return st.tuples(runs.strategy(kinds=SMALL + ["cavity", "stack3", "T"], lips=(0.4, 0.6, 0.8), threads=(2, 2, 3, 4, 8)), st.fixed_dictionaries({
        "rng2": st.integers(1, 2 ** 31 - 1), "same": st.booleans()})).map(lambda t: dict(t[0], **t[1]))


def simpler(c):
    return runs.simpler(c)


CHECK = Check(
    "C10",
    rule="A case is a model or seed set, a configuration and a random seed, run two or three times: with other environment variables, memory contents, directories and leftover files (files compared byte by byte), "
         "and with another random seed or number of threads (regions, volumes and cells compared). Every completed case is non-trivial; of seed sets, those with two cells.",
    groups=[Group("seeds", strat_seeds, run_seeds, quick=400, thorough=8000, racy=True),
            Group("twice", strat_twice, run_twice, quick=16, thorough=400, shrink=simpler),
            Group("others", strat_others, run_others, quick=16, thorough=400, shrink=simpler, racy=True)],
    targets=[("vc_mesh", "rel")],
    assumptions=["the random seed is an input of the harness: it replaces time(), from which the program seeds itself", "planar models; VC_ANGLE below every bend of the model"],
)
