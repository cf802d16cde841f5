"""C11: what is meshed is the surface in the input files, cleaned."""
import os
import signal
import subprocess
import time
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from vlib import gen, models, pipe, soups
from vlib.core import Check, Group
from vlib.pipe import need

TOL = 1e-8


def weld_model(V, F, h):
    """the definition: every point joins the closest of the points kept so far if that is nearer than h
    -> kept points, faces, welded any; None if a decision is within rounding"""
    kept, where = [], []
    sure = True
    for v in V:
        if kept:
            d = np.linalg.norm(np.array(kept) - v, axis=1)
            k = int(d.argmin())
            if abs(d[k] - h) < 1e-3 * h:
                sure = False
            near = d[d < h]
            if len(near) > 1 and np.sort(near)[1] - near.min() < 1e-3 * h:
                sure = False
            if d[k] < h:
                where.append(k)
                continue
        where.append(len(kept))
        kept.append(v)
    W = np.array(where, int)
    G = W[F] if len(F) else F
    any_ = len(kept) < len(V)
    if any_ and len(G):
        G = G[(G[:, 0] != G[:, 1]) & (G[:, 1] != G[:, 2]) & (G[:, 0] != G[:, 2])]
    return np.array(kept, float).reshape(-1, 3), G, any_, sure


def cycles(F):
    """the triangles, wherever they start"""
    out = Counter()
    for f in np.asarray(F).tolist():
        k = f.index(min(f))
        out[tuple(f[k:] + f[:k])] += 1
    return out


def same_mesh(what, V, F, W, G, tol=0.0):
    need(len(V) == len(W), "%s: %d vertices, expected %d" % (what, len(V), len(W)))
    if len(V):
        d = np.abs(V - W)
        lim = tol * np.maximum(np.abs(W), 1e-300)
        bad = np.nonzero((d > lim).any(1))[0]
        need(len(bad) == 0, "%s: vertex %d is %s, expected %s" % (what, bad[0] if len(bad) else -1, V[bad[:1]], W[bad[:1]]))
    a, b = cycles(F), cycles(G)
    need(a == b, "%s: triangles not expected: %s; missing: %s" % (what, list((a - b).items())[:4], list((b - a).items())[:4]))


def near_copies(V, F, r, n, h, far):
    """doubles n vertices: copies at distances well below or above h, some faces moved to the copy"""
    V, F = V.copy(), F.copy()
    for _ in range(n):
        k = int(r.integers(len(V)))
        f = float(r.choice([0, 0, 0.01, 0.3, 0.6, 0.9, 1.2, 2.0, 5.0, 100.0]))
        u = r.standard_normal(3)
        u *= f * h / np.linalg.norm(u)
        V = np.vstack([V, V[k] + u])
        m = (F == k) & (r.random(F.shape) < 0.5)
        F[m] = len(V) - 1
    if far and len(F):
        # triangles that vanish in the welding
        for _ in range(far):
            a, b = (int(t) for t in r.integers(0, len(V), 2))
            V = np.vstack([V, V[a] + 0.2 * h * r.random(3)])
            if a != b:
                F = np.vstack([F, r.permutation([a, b, len(V) - 1])[None]])
    return V, F


def num(x, r, style):
    x = float(x)
    if style == 0:
        return "%r" % x
    if style == 1:
        return "%.17g" % x
    if style == 2:
        return "%.16e" % x
    s = "%.17g" % x
    return "+" + s if x >= 0 and r.random() < 0.3 else s


def text(V, F, r, c):
    """an OBJ file of these vertices and faces"""
    eol = "\r\n" if c["crlf"] else "\n"
    pad = [" ", "\t", "   "] if c["spaces"] else [" "]

    def sp():
        return str(r.choice(pad))
    tail = ["", "", " ", " # note", " 1.0", " 0.5 0.25 1"]

    def junk():
        return str(r.choice(["", "# v 1 2 3", "vn 0 0 1", "vt 0.5 0.5", "o part", "g f", "s off", "usemtl red", "#f 1 2 3", "   ", "vp 1", "mtllib a.mtl", "l 1 2", "# comment"]))
    vs = ["v" + sp() + sp().join(num(x, r, c["num"]) for x in v) + (str(r.choice(tail)) if c["noise"] else "") for v in V]
    fs = []
    for f in F:
        t = []
        for i in f:
            s = {0: "%d", 1: "%d/%d", 2: "%d//%d", 3: "%d/%d/%d"}[c["slash"] if c["slash"] < 4 else int(r.integers(4))]
            t.append(s % ((int(i) + 1,) + tuple(int(q) for q in r.integers(1, 99, s.count("%d") - 1))))
        fs.append("f" + sp() + sp().join(t) + (str(r.choice(["", " ", " # f"])) if c["noise"] else ""))
    if c["mixed"]:
        # vertices keep their order among themselves, faces may come anywhere
        where = np.sort(r.integers(0, len(vs) + 1, len(fs)))
        out, k = [], 0
        for i in range(len(vs) + 1):
            while k < len(fs) and where[k] == i:
                out.append(fs[k])
                k += 1
            if i < len(vs):
                out.append(vs[i])
    else:
        out = vs + fs
    if c["noise"]:
        o2 = []
        for l in out:
            if r.random() < 0.2:
                o2.append(junk())
            o2.append(("  " if r.random() < 0.05 else "") + l)
        out = o2 + [junk()]
    return eol.join(out) + (eol if c["end"] else "")


TEXT = {"crlf": st.booleans(), "spaces": st.booleans(), "noise": st.booleans(), "num": st.integers(0, 3), "slash": st.integers(0, 4),
        "mixed": st.booleans(), "end": st.booleans()}


def mesh_of(c):
    V, F = soups.expand(c["soup"])
    r = np.random.default_rng([c["soup"]["seed"], 111])
    if c["copies"] or c["far"]:
        V, F = near_copies(V, F, r, c["copies"], c.get("h", TOL) * 1.0, c["far"])
        if c["soup"]["seed"] % 2:
            p = r.permutation(len(V))
            q = np.empty(len(V), int)
            q[p] = np.arange(len(V))
            V, F = V[p], q[F]
            F = F[r.permutation(len(F))]
    return V, F, r


def parse_obj(t, what):
    V, F = [], []
    for l in t.split("\n"):
        k = l.split()
        if not k:
            continue
        if k[0] == "v":
            V.append([float(x) for x in k[1:4]])
        elif k[0] == "f":
            need(len(k) == 4, "%s: a face that is no triangle: %r" % (what, l))
            F.append([int(x.split("/")[0]) - 1 for x in k[1:]])
    return np.array(V, float).reshape(-1, 3), np.array(F, int).reshape(-1, 3)


def run_read(case, ctx):
    want, texts, weld, skip = [], [], False, False
    for c in case["files"]:
        V, F, r = mesh_of(c)
        if len(V) > 1500:
            skip = True
        K, G, w, sure = weld_model(V, F, TOL) if not skip else (V, F, False, True)
        skip |= not sure
        weld |= w
        texts.append(text(V, F, r, c))
        want.append((K, G))
    if skip:
        return {"nontrivial": False, "labels": ["skipped: undecided"]}
    out = ctx.srv("srv_mesh", case["variant"]).call("read", *texts, limit=60)
    for k, (K, G) in enumerate(want):
        V, F, clean = out[3 * k].reshape(-1, 3), out[3 * k + 1].reshape(-1, 3), out[3 * k + 2]
        same_mesh("file %d" % k, V, F, K, G)
        W, H = parse_obj(clean if isinstance(clean, str) else clean.decode(), "clean.obj")
        same_mesh("clean.obj of file %d" % k, W, H, V, F, 1e-15)
    nf = sum(len(G) for _, G in want)
    lab = sorted({c["soup"]["kind"] for c in case["files"]} | ({"welded"} if weld else set()))
    return {"nontrivial": nf > 0, "labels": lab}


def run_weld(case, ctx):
    V, F, r = mesh_of(case)
    K, G, w, sure = weld_model(V, F, case["h"])
    if not sure:
        return {"nontrivial": False, "labels": ["skipped: undecided"]}
    s = ctx.srv("srv_mesh", case["variant"])
    a, b = s.call("weld", V, F, np.array([case["h"]]), limit=60)
    same_mesh("welding within %g" % case["h"], a.reshape(-1, 3), b.reshape(-1, 3), K, G)
    t, a2, b2 = s.call("save", a, b, limit=60)
    W, H = parse_obj(t if isinstance(t, str) else t.decode(), "the saved mesh")
    same_mesh("the saved mesh", W, H, a.reshape(-1, 3), b.reshape(-1, 3), 1e-15)
    if case["h"] >= 2 * TOL:
        same_mesh("the mesh saved and read", a2.reshape(-1, 3), b2.reshape(-1, 3), a.reshape(-1, 3), b.reshape(-1, 3), 1e-15)
    return {"nontrivial": w and len(G) > 0, "labels": [case["soup"]["kind"], "welded" if w else "nothing to weld"]}


def run_files(case, ctx):
    """the program on several files: their union, welded"""
    Vs, Fs, n = [], [], 0
    d = ctx.scratch()
    keys = []
    base, bf, r0 = mesh_of(dict(case["files"][0], copies=0, far=0))
    for k, c in enumerate(case["files"]):
        V, F, r = mesh_of(c)
        # pieces of one surface, or surfaces of their own
        if case["pieces"]:
            keep = np.arange(len(bf)) % len(case["files"]) == k
            if not keep.any():
                keep[0] = True
            used = np.unique(bf[keep])
            q = np.full(len(base), -1)
            q[used] = np.arange(len(used))
            V, F = base[used] + (0.3 * TOL * r.standard_normal((len(used), 3)) / 2 if case["jiggle"] else 0), q[bf[keep]]
        K, G, w, sure = weld_model(V, F, TOL)
        if not sure or len(V) > 1500:
            ctx.drop(d)
            return {"nontrivial": False, "labels": ["skipped: undecided"]}
        with open(os.path.join(d, "part%d.obj" % k), "w", newline="") as f:
            f.write(text(V, F, r, c))
        keys.append(("INPUT_MESH_FILE", "part%d.obj" % k))
        Vs.append(K)
        Fs.append(G + n)
        n += len(K)
    V, F = np.vstack(Vs), np.vstack(Fs)
    K, G, w, sure = weld_model(V, F, TOL)
    if not sure or not len(G):
        ctx.drop(d)
        return {"nontrivial": False, "labels": ["skipped: undecided"]}
    pipe.control(os.path.join(d, "vc.in"), keys + [("NUM_THREADS", "1")])
    env = dict(os.environ, OMP_WAIT_POLICY="passive", ASAN_OPTIONS="detect_leaks=0")
    out = os.path.join(d, "log")
    with open(out, "wb") as f:
        p = subprocess.Popen([ctx.exe("vc_mesh", "rel"), "-vc", "vc.in"], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT)
    try:
        t0 = time.time()
        while p.poll() is None and time.time() - t0 < 60:
            # the combined model is complete once the features of the surface are being looked for
            with open(out, "rb") as f:
                if b"Feature Detection" in f.read():
                    break
            if os.path.exists(os.path.join(d, "surface_point_cloud.csv")):
                break
            time.sleep(0.002)
    finally:
        if p.poll() is None:
            p.send_signal(signal.SIGKILL)
        p.wait()
    W, H = pipe.read_obj(os.path.join(d, "model_combined.obj"))
    same_mesh("model_combined.obj", W, H, K, G, 1e-15)
    ctx.drop(d)
    return {"nontrivial": True, "labels": ["welded" if w else "nothing to weld", "pieces" if case["pieces"] else "parts"]}


def one(h=None):
    d = dict(TEXT, soup=soups.strategy(), copies=st.sampled_from([0, 0, 1, 3, 12]), far=st.sampled_from([0, 0, 1, 4]))
    if h is not None:
        d["h"] = h
    return d


def strat_read(variant):
    return lambda: st.fixed_dictionaries({"files": st.lists(st.fixed_dictionaries(one()), min_size=1, max_size=3), "variant": st.just(variant)})


def strat_weld(variant):
    return lambda: st.fixed_dictionaries(dict(one(st.sampled_from([1e-8, 1e-6, 1e-3, 0.05, 0.3])), variant=st.just(variant)))


def strat_files():
    return st.fixed_dictionaries({"files": st.lists(st.fixed_dictionaries(one()), min_size=2, max_size=4), "pieces": st.booleans(), "jiggle": st.booleans()})


CHECK = Check(
    "C11",
    rule="A case is one to four OBJ files (or a mesh and a tolerance) of a generated surface with loose and doubled vertices, copies at 0 to 100 times the tolerance, triangles that vanish, "
         "written with slashes, comments, other records, blank lines, extra columns, faces before vertices, tabs and CRLF. What is read, cleaned, combined and saved is compared with the definition. "
         "Non-trivial: triangles remain, and for the welding group some vertex is welded.",
    groups=[Group("read", strat_read("rel"), run_read, quick=3000, thorough=60000),
            Group("read_asan", strat_read("asan"), run_read, quick=300, thorough=6000),
            Group("weld", strat_weld("rel"), run_weld, quick=3000, thorough=60000),
            Group("weld_asan", strat_weld("asan"), run_weld, quick=300, thorough=6000),
            Group("files", strat_files, run_files, quick=300, thorough=6000)],
    targets=[("srv_mesh", "rel"), ("srv_mesh", "asan"), ("vc_mesh", "rel")],
    assumptions=["faces are triangles of three distinct vertices with positive indices; distances within 0.1% of the tolerance are not decided"],
)
