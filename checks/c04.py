"""C04: the written mesh file is a consistent finite-volume grid of the seeds."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import gen, grid, pipe, runs, seedsets, vor
from vlib.core import Check, Group
from vlib.pipe import need


def write_seeds(path, S, reg, sz, crlf=False, tail=""):
    with open(path, "w", newline="") as f:
        e = "\r\n" if crlf else "\n"
        f.write("x1coord, x2coord, x3coord, radius" + e)
        for x, z, g in zip(S, sz, reg):
            f.write(", ".join([repr(float(v)) for v in (x[0], x[1], x[2], z)] + ["%d" % g]) + e)
        f.write(tail)


def run_seeds(case, ctx):
    """from-seeds mode of the program"""
    S, reg, sz = seedsets.expand(case)
    labels = {case["kind"]}
    if case["empty"]:
        if case["empty"] == 1:
            reg = reg * 0
        else:
            S, reg, sz = S[:0], reg[:0], sz[:0]
    try:
        ref = vor.Ref(S, np.nonzero(reg)[0]) if reg.any() else None
    except (ValueError, vor.QhullError):
        return {"nontrivial": False, "labels": ["skipped: unbounded"]}
    d = ctx.scratch()
    try:
        write_seeds(os.path.join(d, "my seeds.csv".replace(" ", "_")), S, reg, sz, tail=case["tail"])
        keys = [("GENERATE_MESH_FROM_SEEDS", None), ("SEEDS_FILE", "my_seeds.csv"), ("NUM_THREADS", str(case["threads"])),
                ("GENERATE_VCG_FILE", None)]
        k = case["order"]
        keys = keys[k:] + keys[:k]
        pipe.control(os.path.join(d, "c.in"), keys)
        r = pipe.run_cli(ctx.exe("vc_mesh", case["variant"]), d, ["-vc", "c.in"], limit=120)
        need(r.rc == 0, "the run ended with status %s: %s" % (r.rc, (r.err or r.out)[-400:]))
        if not len(S):
            return {"nontrivial": True, "labels": ["no seeds"]}
        g = pipe.read_vcg(os.path.join(d, "mesh.vcg"))
        grid.check_vcg(g, S, reg, ref, case["scale"], labels)
    finally:
        ctx.drop(d)
    if not reg.any():
        labels.add("no cells")
    return {"nontrivial": int((reg > 0).sum()) >= 2 or not reg.any(), "labels": sorted(labels)}


def strat_seeds(variant):
    return lambda: st.tuples(seedsets.strategy(), st.fixed_dictionaries({
        "variant": st.just(variant), "tail": st.sampled_from(["", "", "\n", "\n\n"]), "order": st.integers(0, 3),
        "empty": st.sampled_from([0] * 20 + [1, 2])})).map(lambda t: dict(t[0], **t[1]))


def run_explicit(case, ctx):
    """the meshing step of a full run: interior seeds that touch belong to one region"""
    S, reg, sz = seedsets.expand(case)
    labels = {case["kind"]}
    r = np.random.default_rng([case["seed"], 47])
    surf = (reg == 0) | (r.random(len(S)) < case["surf"])
    o = np.concatenate([np.nonzero(surf)[0], np.nonzero(~surf)[0]])
    S, reg, sz = S[o], reg[o], sz[o]
    if case["many"]:
        reg = np.where(reg > 0, r.integers(1, 2 + len(S), len(S)), 0)
    ns = int(surf.sum())
    if not reg.any():
        return {"nontrivial": False}
    try:
        ref = vor.Ref(S, np.nonzero(reg)[0])
    except (ValueError, vor.QhullError):
        return {"nontrivial": False, "labels": ["skipped: unbounded"]}
    text, = ctx.srv("srv_vc", case["variant"]).call("explicit", np.array([case["threads"], ns]), S, reg, sz)
    d = ctx.scratch()
    try:
        with open(os.path.join(d, "mesh.vcg"), "w") as f:
            f.write(text)
        g = pipe.read_vcg(os.path.join(d, "mesh.vcg"))
    finally:
        ctx.drop(d)
    grid.check_vcg(g, S, reg, ref, case["scale"], labels, regions=False)
    at = 1e-6 * case["scale"] ** 2
    nr = int(reg.max()) + 1
    ids = np.nonzero(reg)[0]
    new = np.zeros(len(S), int)
    new[ids] = g.reg
    sure, maybe = [], []
    for (a, b), A in ref.area.items():
        if a >= ns and b >= ns and reg[a] and reg[b]:
            maybe.append((int(reg[a]), int(reg[b])))
            if A > at:
                sure.append((int(reg[a]), int(reg[b])))
    lo, hi = np.array(grid.components(nr, sure)), np.array(grid.components(nr, maybe))
    # the diagram is degenerate where a face of no area may or may not be there
    for comp, finer in ((lo, True), (hi, False)):
        m = {}
        for i in ids:
            a, b = (comp[reg[i]], new[i]) if finer else (new[i], comp[reg[i]])
            need(m.setdefault(a, b) == b, "regions of touching interior seeds: seed %d of region %d got %d, another one of %s got %d" % (
                i, reg[i], new[i], "its connected regions" if finer else "unconnected regions", m[a]))
    merged = len(set(lo[reg[ids]])) < len(set(reg[ids]))
    if merged:
        labels.add("regions merged")
    return {"nontrivial": merged, "labels": sorted(labels)}


def strat_explicit(variant):
    return lambda: st.tuples(seedsets.strategy(), st.fixed_dictionaries({
        "variant": st.just(variant), "surf": st.sampled_from([0.0, 0.3, 0.6, 0.9]), "many": st.booleans()})
        ).map(lambda t: dict(t[0], **t[1]))


def run_full(case, ctx):
    """a full run, and meshing again from the seeds it saved"""
    r = runs.execute(case, ctx, extra=[("GENERATE_VCG_FILE", None)])
    try:
        runs.read_seeds(r)
        g = pipe.read_vcg(runs.path(r, "mesh.vcg"))
        labels = {case["kind"]}
        try:
            ref = vor.Ref(r.S, np.nonzero(r.reg)[0])
        except (ValueError, vor.QhullError):
            need(False, "a meshed cell is unbounded")
        scale = case["size"]
        grid.check_vcg(g, r.S, r.reg, ref, scale, labels, regions=False)
        ids = np.nonzero(r.reg)[0]
        m = {}
        for a, b in zip(r.reg[ids].tolist(), g.reg.tolist()):
            need(m.setdefault(a, b) == b, "seeds of region %d of seeds.csv have the regions %d and %d in the mesh" % (a, m[a], b))
        os.remove(runs.path(r, "mesh.vcg"))
        pipe.control(runs.path(r, "again.in"), [("SEEDS_FILE", "seeds.csv"), ("GENERATE_MESH_FROM_SEEDS", None),
                                                 ("GENERATE_VCG_FILE", None), ("NUM_THREADS", "2")])
        runs.go(r, ctx, "again.in", case)
        h = pipe.read_vcg(runs.path(r, "mesh.vcg"))
        grid.check_vcg(h, r.S, r.reg, ref, scale, set())
        big = float(np.abs(r.S).max()) + scale
        need(np.abs(g.x - h.x).max() <= 1e-9 * big and np.abs(g.vol - h.vol).max() <= 2e-7 * scale ** 3,
             "meshing from the saved seeds gives other cells than the run itself")
    finally:
        ctx.drop(r.dir)
    return {"nontrivial": True, "labels": sorted(labels)}


CHECK = Check(
    "C04",
    rule="A case is a seed set with regions, thread count and control-file order meshed by the program's from-seeds mode (or by the meshing "
         "step behind a full run, or a whole run of a generated model whose saved seeds are meshed again); the written file is compared with Qhull's "
         "diagram of the seeds. Non-trivial: at least two cells (or none at all), regions that had to be merged, or a whole run.",
    groups=[Group("from_seeds", strat_seeds("rel"), run_seeds, quick=1600, thorough=20000),
            Group("from_seeds_asan", strat_seeds("asan"), run_seeds, quick=90, thorough=2500),
            Group("explicit", strat_explicit("rel"), run_explicit, quick=1600, thorough=20000, needs=("srv_vc", "rel")),
            Group("full", lambda: runs.strategy(threads=(1, 1, 2, 4)), run_full, quick=24, thorough=500, shrink=runs.simpler)],
    targets=[("vc_mesh", "rel"), ("vc_mesh", "asan")], optional=[("srv_vc", "rel")],
    assumptions=["Qhull's diagram is the reference (areas within 1e-7 of the model size squared, volumes 1e-7 of its cube)",
                 "every non-exterior cell is bounded (the mesher's own precondition)"],
)
