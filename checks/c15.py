"""C15: sharp features are exactly the creases and corners of the input."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats

from vlib import models, soups
from vlib.core import Check, Group
from vlib.pipe import need


def features(V, F):
    """every edge with its faces' bend and every vertex' sharp turn, computed once for any angle:
    -> edges {(a, b): cos or None}"""
    n = np.cross(V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]])
    n /= np.linalg.norm(n, axis=1)[:, None]
    out = {}
    for e, fs in soups.edges(F).items():
        out[e] = float(n[fs[0][0]] @ n[fs[1][0]]) if len(fs) == 2 else None
    return out, n


def expect(V, F, thr, ed):
    """-> sharp edges, corners, distance of the closest decision from the threshold"""
    sharp, gap = set(), 1.0
    for e, c in ed.items():
        if c is None or c < thr:
            sharp.add(e)
        if c is not None:
            gap = min(gap, abs(c - thr))
    at = {}
    for a, b in sharp:
        at.setdefault(a, []).append(b)
        at.setdefault(b, []).append(a)
    corners = set()
    for p, q in at.items():
        if len(q) != 2:
            corners.add(p)
            continue
        u, v = V[q[0]] - V[p], V[q[1]] - V[p]
        c = -float(u @ v) / np.linalg.norm(u) / np.linalg.norm(v)
        gap = min(gap, abs(c - thr))
        if c < thr:
            corners.add(p)
    return sharp, corners, gap


def call(ctx, case, V, F, thr, full):
    return ctx.srv("srv_sampler", case["variant"]).call(
        "features", np.array([int(full), case["threads"], 20]), V, F, np.array([thr, 0.0]), limit=120)


def judge(case, out, sharp, corners):
    e, c, same = out[:3]
    e = e.reshape(-1, 2)
    need(same[0] == 1, "the feature detection changed its input")
    got = {(int(min(a, b)), int(max(a, b))) for a, b in e}
    a = "VC_ANGLE %.12g" % case["angle"]
    need(got == sharp, "%s: %d sharp edges, expected %d; not expected: %s; missing: %s" % (
        a, len(got), len(sharp), sorted(got - sharp)[:4], sorted(sharp - got)[:4]))
    gc = set(int(x) for x in c)
    need(len(gc) == len(c), "a sharp corner is listed twice")
    need(gc == corners, "%s: sharp corners not expected: %s; missing: %s" % (a, sorted(gc - corners)[:6], sorted(corners - gc)[:6]))


def prepare(case):
    V, F = soups.expand(case["soup"])
    ar = soups.areas(V, F)
    el = np.array([np.linalg.norm(V[a] - V[b]) for a, b in soups.edges(F)])
    size = np.ptp(V[np.unique(F)], axis=0).max()
    # slivers and inconsistent orientation are outside the input format
    if ar.min() < 1e-6 * size ** 2 or el.min() < 1e-4 * size or ar.min() < 1e-9:
        return None
    if not soups.consistent(F):
        return None
    ed, n = features(V, F)
    if case["pick"]:
        # an angle just above or below the bend of one of the edges
        b = sorted({round(float(np.degrees(np.arccos(np.clip(c, -1, 1)))), 6) for c in ed.values() if c is not None})
        b = [x for x in b if 1 < x < 89]
        if b:
            x = b[case["pick"] % len(b)]
            case = dict(case, angle=x + (0.01 if case["above"] else -0.01))
    thr = float(np.cos(case["angle"] * np.pi / 180.0))
    sharp, corners, gap = expect(V, F, thr, ed)
    if gap < 1e-9:
        return None
    return case, V, F, n, thr, sharp, corners, size


def labels(case, F, sharp, corners):
    l = {case["soup"]["kind"]}
    if len(sharp) == 0:
        l.add("no sharp edge")
    elif not corners:
        l.add("no corner")
    return l


def run_fast(case, ctx):
    p = prepare(case)
    if p is None:
        return {"nontrivial": False, "labels": ["skipped: degenerate"]}
    case, V, F, n, thr, sharp, corners, size = p
    out = None
    try:
        out = call(ctx, case, V, F, thr, False)
        judge(case, out, sharp, corners)
    except Exception:
        # the features were read while the program was still at work: let it finish
        judge(case, call(ctx, case, V, F, thr, True), sharp, corners)
    ne = len(soups.edges(F))
    return {"nontrivial": 0 < len(sharp) < ne or bool(corners), "labels": sorted(labels(case, F, sharp, corners))}


def proportions(what, idx, w):
    cnt = np.bincount(idx, minlength=len(w))
    ex = w / w.sum() * len(idx)
    big = ex >= 10
    o = np.append(cnt[big], cnt[~big].sum())
    x = np.append(ex[big], ex[~big].sum())
    if x[-1] < 10:
        o, x = o[:-1], x[:-1]
    if len(x) > 1:
        chi = float(((o - x) ** 2 / x).sum())
        p = stats.chi2.sf(chi, len(x) - 1)
        need(p > 1e-12, "the %s are not sampled in proportion to their size (p=%.3g, e.g. %d samples where %.1f are due)" % (
            what, p, o[np.argmax(np.abs(o - x) / np.sqrt(x))], x[np.argmax(np.abs(o - x) / np.sqrt(x))]))
    need((cnt[w > 0.01 * w.sum()] > 0).all(), "one of the %s has no sample" % what)


def run_full(case, ctx):
    p = prepare(case)
    if p is None:
        return {"nontrivial": False, "labels": ["skipped: degenerate"]}
    case, V, F, n, thr, sharp, corners, size = p
    out = call(ctx, case, V, F, thr, True)
    judge(case, out, sharp, corners)
    e = out[0].reshape(-1, 2)
    sx, sa, ex, ea = out[3:]
    sx, ex = sx.reshape(-1, 7), ex.reshape(-1, 7)
    need(len(sa) >= 1000 and (len(e) == 0 or len(ea) >= 1000), "the surface is sampled by %d points, the edges by %d" % (len(sa), len(ea)))
    tol = 1e-9 * (np.abs(V).max() + size)
    need(len(sx) == 0 or (sa.min() >= 0 and sa.max() < len(F)), "a sample names a face that does not exist")
    f = F[sa[::20]]
    # barycentric coordinates of the samples
    A, B, C = V[f[:, 0]], V[f[:, 1]], V[f[:, 2]]
    u, v, w = B - A, C - A, sx[:, :3] - A
    d = (u * u).sum(1) * (v * v).sum(1) - (u * v).sum(1) ** 2
    s = ((v * v).sum(1) * (u * w).sum(1) - (u * v).sum(1) * (v * w).sum(1)) / d
    t = ((u * u).sum(1) * (v * w).sum(1) - (u * v).sum(1) * (u * w).sum(1)) / d
    off = np.linalg.norm(w - s[:, None] * u - t[:, None] * v, axis=1)
    need(off.max() < tol and min(s.min(), t.min()) > -1e-6 and (s + t).max() < 1 + 1e-6, "a surface sample is not on its face")
    need(np.abs(sx[:, 4:] - n[sa[::20]]).max() < 1e-6, "the normal of a surface sample is not that of its face")
    need(abs(s.mean() - 1 / 3) < 0.02 and abs(t.mean() - 1 / 3) < 0.02, "the samples of the faces are not uniform (mean barycentric coordinates %.3f %.3f)" % (s.mean(), t.mean()))
    proportions("faces", sa, soups.areas(V, F))
    if len(e):
        need(ea.min() >= 0 and ea.max() < len(e), "a sample names an edge that does not exist")
        q = e[ea[::20]]
        a, b = V[q[:, 0]], V[q[:, 1]]
        L = np.linalg.norm(b - a, axis=1)
        t = (b - a) / L[:, None]
        h = ((ex[:, :3] - a) * t).sum(1)
        need(np.linalg.norm(ex[:, :3] - a - h[:, None] * t, axis=1).max() < tol and h.min() > -tol and (h - L).max() < tol, "an edge sample is not on its edge")
        need(np.abs(np.abs((ex[:, 4:] * t).sum(1)) - 1).max() < 1e-6, "the tangent of an edge sample is not that of its edge")
        need(abs((h / L).mean() - 0.5) < 0.03, "the samples of the edges are not uniform (mean position %.3f)" % (h / L).mean())
        proportions("sharp edges", ea, np.linalg.norm(V[e[:, 0]] - V[e[:, 1]], axis=1))
    else:
        need(len(ea) == 0, "edges are sampled though none is sharp")
    return {"nontrivial": len(F) > 1, "labels": sorted(labels(case, F, sharp, corners))}


def strat(variant):
    return lambda: st.fixed_dictionaries({
        "soup": soups.strategy(), "angle": st.one_of(st.floats(1, 89), st.sampled_from([1.0, 5.0, 20.0, 30.0, 60.0, 89.0])),
        "pick": st.integers(0, 40), "above": st.booleans(), "threads": st.sampled_from([1, 1, 2, 4]), "variant": st.just(variant)})


CHECK = Check(
    "C15",
    rule="A case is a triangulated surface (closed, open, non-manifold, jittered, curved, with holes, duplicated faces, several surfaces touching in edges or corners, "
         "shuffled, moved, scaled, turned inside out) and an angle, often just above or below the bend of one of its edges; the sharp edges and corners are compared with "
         "a direct evaluation of the definition, the samples of both with their proportions. Non-trivial: some but not all edges are sharp, or there are corners.",
    groups=[Group("features", strat("rel"), run_fast, quick=4000, thorough=100000),
            Group("features_asan", strat("asan"), run_fast, quick=300, thorough=8000),
            Group("samples", strat("rel"), run_full, quick=80, thorough=2500)],
    targets=[("srv_sampler", "rel"), ("srv_sampler", "asan")],
    assumptions=["faces on the two sides of an edge are consistently oriented; no face is degenerate (area above 1e-6 of the size squared)",
                 "angles within 1e-9 (in the cosine) of the threshold are not decided"],
)
