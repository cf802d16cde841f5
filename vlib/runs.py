"""Generated runs of the real program: a model, a control file, and what came out of it."""
import os

import numpy as np
from hypothesis import strategies as st

from . import gen, models, pipe
from .pipe import need

CHEAP = ["tet", "octa", "box", "boxsub", "ngon", "frustum", "L", "slab"]
MANY = CHEAP + ["step", "cavity", "stack", "stack", "grid22", "T", "U", "stack3", "plus"]


def strategy(kinds=None, threads=(1,), lips=(0.25, 0.5, 0.8), rmax=(None, None, 0.25, 0.15), sizing=False, angle=(20,),
             styles=True):
    d = {
        "kind": st.sampled_from(kinds or MANY), "seed": gen.seeds(), "size": st.sampled_from([1.0, 1.0, 1.0, 0.1, 10.0]),
        "rotate": st.booleans(), "shift": st.booleans(), "rmax": st.sampled_from(rmax), "lip": st.sampled_from(lips),
        "angle": st.sampled_from(angle), "threads": st.sampled_from(threads), "rng": st.integers(1, 2 ** 31 - 1),
        "style": st.integers(0, 1) if styles else st.just(0), "mix": st.booleans(), "flip": st.booleans(),
        "sub": st.sampled_from([False, False, True]), "files": st.booleans(),
    }
    if sizing:
        d["sizing"] = st.one_of(st.none(), st.fixed_dictionaries({
            "n": st.integers(1, 30), "lo": st.sampled_from([0.2, 0.3]), "hi": st.sampled_from([0.3, 0.6, 2.0])}))
    return st.fixed_dictionaries(d)


def model(c):
    m = models.make(c["kind"], c["seed"], c["size"], c["rotate"], c["shift"])
    m.size = c["size"]
    m.kind = c["kind"]
    return m


def reorder(V, F, r, flip):
    p = r.permutation(len(V))
    q = np.empty(len(V), int)
    q[p] = np.arange(len(V))
    V, F = V[p], q[F]
    F = F[r.permutation(len(F))]
    F = np.array([np.roll(f, r.integers(3)) for f in F])
    return V, (F[:, ::-1] if flip else F)


def soup(m, c):
    """the model's triangles as written to the input file or files: shuffled, refined, and with its
    shells oriented inwards or outwards"""
    parts = m.parts if (c.get("files") or len(m.parts) > 1 and m.kind == "cavity") else [(m.V, m.F)]
    r = np.random.default_rng([c["seed"], 77])
    out = []
    for V, F in parts:
        if c.get("sub") and len(F) <= 24:
            V, F = models.subdivide(V, F)
        if c.get("mix"):
            V, F = reorder(V, F, r, c.get("flip") and r.random() < 0.7)
        out.append((np.asarray(V), np.asarray(F)))
    if c.get("files") and len(out) > 1:
        return out
    Vs, Fs, n = [], [], 0
    for V, F in out:
        Vs.append(V)
        Fs.append(F + n)
        n += len(V)
    return [(np.vstack(Vs), np.vstack(Fs))]


def combined(m, c):
    """the triangles of all input files over welded points; coinciding triangles of two files both stay"""
    Vs, Fs, n = [], [], 0
    for V, F in soup(m, c):
        Vs.append(V)
        Fs.append(F + n)
        n += len(V)
    return models.weld(np.vstack(Vs), np.vstack(Fs), 1e-9 * c["size"])


class Run:
    pass


def bend(V, F):
    """the smallest angle, in degrees, by which two neighbouring faces that are not coplanar bend"""
    n = np.cross(V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]])
    n /= np.linalg.norm(n, axis=1)[:, None]
    ed = {}
    for k, f in enumerate(F):
        for i in range(3):
            ed.setdefault(tuple(sorted((int(f[i]), int(f[(i + 1) % 3])))), []).append(k)
    best = 180.0
    for fs in ed.values():
        for a in fs:
            for b in fs:
                x = np.degrees(np.arctan2(np.linalg.norm(np.cross(n[a], n[b])), abs(n[a] @ n[b])))
                if x > 1e-4:
                    best = min(best, x)
    return best


def execute(c, ctx, extra=(), m=None, before=None, limit=240, variant="rel"):
    """-> Run with .dir (drop it with ctx.drop), .m, .rc, .out"""
    r = Run()
    r.m = m or model(c)
    r.dir = ctx.scratch()
    # edges of planar models are to be sharp
    r.angle = min(c["angle"], float(np.floor(0.9 * bend(r.m.V, r.m.F)))) if r.m.planar else c["angle"]
    keys = [("LIP_CONST", repr(c["lip"])), ("VC_ANGLE", repr(r.angle)), ("NUM_THREADS", str(c["threads"]))]
    for k, (V, F) in enumerate(soup(r.m, c)):
        f = "model%s.obj" % (k or "")
        models.write_obj(os.path.join(r.dir, f), V, F, c.get("style", 0))
        keys.append(("INPUT_MESH_FILE", f))
    V = r.m.V
    r.rmax = c["rmax"] * c["size"] if c["rmax"] else 1e4 * c["size"]
    keys.append(("R_MAX", repr(r.rmax)))
    r.sz = None
    if c.get("sizing"):
        s = c["sizing"]
        g = np.random.default_rng([c["seed"], 99])
        lo, hi = V.min(0), V.max(0)
        x = lo + (hi - lo) * (1.4 * g.random((s["n"], 3)) - 0.2)
        v = c["size"] * np.exp(g.uniform(np.log(s["lo"]), np.log(max(s["lo"], s["hi"])), s["n"]))
        r.sz = np.column_stack([x, v])
        with open(os.path.join(r.dir, "sizing.csv"), "w") as f:
            f.write("x1coord, x2coord, x3coord, radius\n")
            for row in r.sz:
                f.write(", ".join("%r" % float(t) for t in row) + "\n")
        keys.append(("SIZING_FILE", "sizing.csv"))
    keys += list(extra)
    pipe.control(os.path.join(r.dir, "vc.in"), keys)
    if before:
        before(r)
    go(r, ctx, "vc.in", c, limit, variant)
    return r


def go(r, ctx, ctrl, c, limit=240, variant="rel"):
    q = pipe.run_cli(ctx.exe("vc_mesh", variant), r.dir, ["-vc", ctrl], env={"VERIF_RNG_SEED": str(c["rng"])}, limit=limit)
    r.rc, r.out, r.err, r.wall = q.rc, q.out, q.err, q.wall
    need(r.rc is not None, "the run did not end within %d s" % limit)
    need(r.rc == 0, "the run ended with status %s: %s" % (r.rc, (r.err or r.out)[-300:]))
    need("Mission Accomplished" in r.out, "the run did not report its end: %s" % r.out[-200:])
    return r


def path(r, name):
    return os.path.join(r.dir, name)


def read_seeds(r, name="seeds.csv"):
    h, a = pipe.read_csv(path(r, name))
    need(a.shape[1] == 5 or len(a) == 0, "%s has %d columns" % (name, a.shape[1]))
    r.S, r.sz_seed, r.reg = a[:, :3], a[:, 3], a[:, 4].astype(int)
    return r


def read_spheres(r):
    out = {}
    for k, f in (("corner", "corner_spheres.csv"), ("edge", "edges_spheres.csv"), ("surface", "surface_spheres.csv")):
        p = path(r, f)
        out[k] = pipe.read_csv(p)[1] if os.path.exists(p) else np.zeros((0, 4))
    r.sph = out
    return r


def all_spheres(r):
    return np.vstack([a[:, :4] for a in r.sph.values() if len(a)])


def simpler(c):
    """greedy shrinking of a failing run: one setting at a time to its simplest"""
    for k, v in (("threads", 1), ("files", False), ("sub", False), ("mix", False), ("flip", False), ("rotate", False),
                 ("shift", False), ("size", 1.0), ("style", 0), ("sizing", None), ("rmax", None), ("lip", 0.5), ("angle", 20),
                 ("kind", "box"), ("seed", 1), ("rng", 1)):
        if k in c and c[k] != v:
            yield dict(c, **{k: v})
