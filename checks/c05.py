"""C05: meshed regions reproduce the input solids."""
import numpy as np
from hypothesis import strategies as st

from vlib import models, pipe, runs
from vlib.core import Check, Group
from vlib.pipe import need


def run(case, ctx):
    r = runs.execute(case, ctx, extra=[("GENERATE_VCG_FILE", None)])
    try:
        m, size = r.m, case["size"]
        runs.read_seeds(r)
        g = pipe.read_vcg(runs.path(r, "mesh.vcg"))
        labels = {case["kind"]}
        need(len(r.S) > 0, "no seeds")
        where = m.region_of(r.S)
        if m.planar:
            near = models.surface_dist(r.S, m.V, m.F) < 1e-7 * size
        else:
            near = models.surface_dist(r.S, m.V, m.F) < 0.05 * size
        bad = np.nonzero(~near & ((r.reg == 0) != (where < 0)))[0]
        need(len(bad) == 0, "%d seeds, the first (number %d) at %s, lie %s every solid and have region %d" % (
            len(bad), bad[0] if len(bad) else 0, r.S[bad[0]] if len(bad) else 0,
            "outside" if len(bad) and where[bad[0]] < 0 else "not outside", r.reg[bad[0]] if len(bad) else 0))
        own = {}
        for i in np.nonzero(~near & (r.reg > 0))[0]:
            k = own.setdefault(int(r.reg[i]), int(where[i]))
            need(k == where[i], "region %d of seeds.csv holds seeds of the solids %d and %d" % (r.reg[i], k, where[i]))
        cw = m.region_of(g.x)
        cn = (models.surface_dist(g.x, m.V, m.F) < (1e-7 if m.planar else 0.05) * size)
        ids = {}
        for i in np.nonzero(~cn)[0]:
            need(cw[i] >= 0, "a mesh cell is placed outside the solids")
            ids.setdefault(int(cw[i]), set()).add(int(g.reg[i]))
        for k in range(len(m.cells)):
            need(len(ids.get(k, ())) == 1, "solid %d of %d has the region ids %s in the mesh" % (k, len(m.cells), sorted(ids.get(k, ()))))
        one = [next(iter(ids[k])) for k in range(len(m.cells))]
        need(len(set(one)) == len(one), "two solids share a region id: %s" % one)
        need(set(g.reg.tolist()) == set(one), "the mesh has a region that is none of the solids")
        for k, v in enumerate(m.volumes()):
            w = float(g.vol[g.reg == one[k]].sum())
            t = 1e-7 if m.planar else 0.1
            need(abs(w - v) <= t * max(v, size ** 3), "solid %d has volume %.10g, its cells sum to %.10g" % (k, v, w))
        if len(one) > 1:
            labels.add("several regions")
        if not m.planar:
            labels.add("curved")
    finally:
        ctx.drop(r.dir)
    return {"nontrivial": True, "labels": sorted(labels)}


def apart(ctx):
    """two solids that do not touch: the run keeps adding seeds outside"""
    import os
    m = models.make("apart", 1, 1.0, False, False)
    d = ctx.scratch()
    try:
        models.write_obj(os.path.join(d, "m.obj"), m.V, m.F)
        pipe.control(os.path.join(d, "vc.in"), [("INPUT_MESH_FILE", "m.obj"), ("LIP_CONST", "0.5"), ("R_MAX", "1000")])
        q = pipe.run_cli(ctx.exe("vc_mesh"), d, ["-vc", "vc.in"], limit=15)
        return q.rc is None
    finally:
        ctx.drop(d)


CHECK = Check(
    "C05",
    rule="A case is a generated solid or group of touching solids (17 families; random proportions, placement, size, refinement, order and "
         "orientation of triangles, one or several files) and a configuration, meshed by the whole program; the seeds and cells are compared with "
         "winding numbers and exact volumes of the solids. Every completed run is non-trivial.",
    groups=[Group("planar", lambda: runs.strategy(threads=(1, 1, 1, 2, 3), lips=(0.2, 0.25, 0.5, 0.8, 0.9), angle=(20, 20, 10, 30)),
                  run, quick=48, thorough=900, shrink=runs.simpler),
            Group("curved", lambda: runs.strategy(kinds=["sphere", "cylinder"], rmax=(0.4,), lips=(0.3, 0.6, 0.8), angle=(30,)).map(
                      lambda c: dict(c, sub=False)), run, quick=8, thorough=60, shrink=runs.simpler)],
    targets=[("vc_mesh", "rel")], known={"apart": apart},
    assumptions=["planar models whose sharp edges all bend by more than VC_ANGLE; shells consistently oriented",
                 "curved models: volumes within 10%, seeds nearer to the surface than 5% of the size not looked at"],
)
