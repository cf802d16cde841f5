"""C03: the explicit mesh is the Voronoi diagram of its seeds."""
import numpy as np
from hypothesis import strategies as st

from vlib import seedsets, vor
from vlib.core import Check, Group
from vlib.server import Violation


def run(case, ctx):
    S, reg, sz = seedsets.expand(case)
    labels = {case["kind"]}
    try:
        ref = vor.Ref(S, np.nonzero(reg)[0])
    except (ValueError, vor.QhullError):
        return {"nontrivial": False, "labels": ["skipped: unbounded"]}
    srv = ctx.srv("srv_mesher", case["variant"])
    out = srv.call("voronoi", np.array([case["threads"], len(S)]), S, reg, sz)
    V, flat, same = out
    V = V.reshape(-1, 3)
    if not np.isfinite(V).all():
        raise Violation("a mesh vertex is not finite")
    if same[0] != 1:
        raise Violation("the seeds were modified")
    faces = vor.split_faces(flat)
    vor.check_mesh(S, reg, V, faces, ref, case["scale"], labels)
    if case["threads"] > 1:
        V1, f1, _ = srv.call("voronoi", np.array([1, len(S)]), S, reg, sz)
        if not (np.array_equal(V1, V.ravel()) and np.array_equal(f1, flat)):
            raise Violation("the mesh with %d threads differs from the mesh with one" % case["threads"])
        labels.add("threads compared")
    return {"nontrivial": int((reg > 0).sum()) >= 2, "labels": sorted(labels)}


def strat(variant):
    return lambda: st.tuples(seedsets.strategy(), st.just(variant)).map(lambda t: dict(t[0], variant=t[1]))


CHECK = Check(
    "C03",
    rule="A case is a seed set (random inside an exterior shell, mirrored boxes, graded, nearly coincident pairs, exact and jittered "
         "lattices, structured surface seeds), region ids, search radii and a thread count; the mesh is compared with Qhull's diagram "
         "and with itself under one thread. Non-trivial: at least two meshed cells.",
    groups=[Group("mesh", strat("rel"), run, quick=2600, thorough=40000),
            Group("mesh_asan", strat("asan"), run, quick=250, thorough=5000)],
    targets=[("srv_mesher", "rel"), ("srv_mesher", "asan")],
    assumptions=["Qhull's diagram is the reference (areas within 1e-7 of the model size squared, volumes 1e-7 of its cube)",
                 "every non-exterior cell is bounded (the mesher's own precondition)"],
)
