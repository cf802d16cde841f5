"""C13: linear solvers solve the system they are given."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Check, Group
from vlib.server import CodeError, Violation


# ---------------------------------------------------------------- dense QR and least squares

def dense(case):
    r = np.random.default_rng([case["seed"], 43])
    n, m = case["n"], min(case["m"], case["n"])
    k = case["shape"]
    A = r.standard_normal((n, m))
    if k == "ill":
        u, _, v = np.linalg.svd(A, full_matrices=False)
        A = (u * np.logspace(0, -case["cond"], m)) @ v
    elif k == "int":
        A = r.integers(-3, 4, (n, m)).astype(float)
    elif k == "sparse":
        A = A * (r.random((n, m)) < 0.4)
    elif k == "upper":
        A = np.triu(A) + np.eye(n, m) * 2
    elif k == "diag":
        A = np.zeros((n, m))
        A[np.arange(m), np.arange(m)] = r.choice([-1, 1], m) * (0.5 + r.random(m))
    elif k == "perm":
        A = np.eye(n)[:, r.permutation(n)[:m]] * r.choice([-1.0, 1.0], m)
    elif k == "normals":
        A = gen.unit(r, n, m)
    A = A * 10.0 ** case["scale"]
    x = r.standard_normal(m)
    b = A @ x
    if case["resid"]:
        b = b + r.standard_normal(n) * 10.0 ** case["scale"]
    return A, b


def run_qr(case, ctx):
    A, b = dense(case)
    n, m = A.shape
    rc, Q, R, x, A2, b2 = ctx.srv("srv_geom", case["variant"]).call("qr", np.array([n, m]), A, b)
    sA = max(np.abs(A).max(), 1e-300)
    sv = np.linalg.svd(A / sA, compute_uv=False)
    labels = {case["shape"]}
    if not (np.array_equal(A2, A.ravel()) and np.array_equal(b2, b)):
        raise Violation("the solver modified its arguments")
    if rc[0] != 0:
        raise Violation("a %d x %d factorization was refused" % (n, m))
    Q, R = Q.reshape(n, n), R.reshape(n, m)
    if sv[-1] < 1e-9:
        labels.add("rank deficient")
        # the factorization and solution must still be meaningful as long as no column vanishes exactly
    if not np.isfinite(Q).all() or not np.isfinite(R).all():
        raise Violation("the QR factors of %s are not finite" % A.tolist())
    e = np.abs(Q @ R - A).max() / sA
    if e > 1e-12 * n * n:
        raise Violation("Q R differs from A by %.3g (relative)" % e)
    e = np.abs(Q.T @ Q - np.eye(n)).max()
    if e > 1e-12 * n * n:
        raise Violation("Q is not orthogonal (%.3g)" % e)
    e = np.abs(np.tril(R, -1)).max() / sA
    if e > 1e-12 * n * n:
        raise Violation("R is not upper triangular (%.3g)" % e)
    if not np.isfinite(x).all():
        raise Violation("the solution of the least-squares problem of %s is not finite" % A.tolist())
    if sv[-1] * sA < 1e-9 or sv[-1] < 1e-9:
        return {"nontrivial": m > 1, "labels": sorted(labels)}
    ref = np.linalg.lstsq(A, b, rcond=None)[0]
    kap = sv[0] / sv[-1]
    e = np.abs(x - ref).max()
    t = 1e-12 * n * m * (kap * (np.abs(ref).max() + np.abs(b).max() / sA) + kap ** 2 * np.linalg.norm(A @ ref - b) / sA)
    if e > t:
        raise Violation("least-squares solution off by %.3g (allowed %.3g, condition %.3g) for A=%s b=%s" % (e, t, kap, A.tolist(), b.tolist()))
    g = np.abs(A.T @ (A @ x - b)).max()
    if g > 1e-11 * n * m * sA * (np.abs(b).max() + sA * np.abs(x).max()) * max(1, kap * 1e-3):
        raise Violation("the residual is not orthogonal to the columns (%.3g)" % g)
    return {"nontrivial": m > 1, "labels": sorted(labels)}


def strat_qr(variant):
    return lambda: st.fixed_dictionaries({
        "seed": gen.seeds(), "n": st.integers(1, 14), "m": st.integers(1, 10), "scale": st.sampled_from([0, 0, 1, -2, 3]),
        "shape": st.sampled_from(["any", "ill", "int", "sparse", "upper", "diag", "perm", "normals"]), "cond": st.integers(1, 6),
        "resid": st.booleans(), "variant": st.just(variant)})


# ---------------------------------------------------------------- sparse Cholesky with updates

def spd(r, n, dens):
    B = r.standard_normal((n, n)) * (r.random((n, n)) < dens)
    return B @ B.T + np.eye(n) * (0.5 + r.random())


def run_chol(case, ctx):
    r = np.random.default_rng([case["seed"], 47])
    n, dens = case["n"], case["dens"]
    A = spd(r, n, dens)
    if case["indef"]:
        A[np.diag_indices(n)] -= np.linalg.eigvalsh(A)[0] + 0.3
    pos = np.linalg.eigvalsh(A)[0] > 1e-6
    A0 = A.copy()
    ops, dat, want = [], [], [1]
    labels = {"indefinite"} if case["indef"] else set()
    if not case["indef"]:
        for o in case["ops"]:
            k = len(A)
            if np.linalg.cond(A) > 1e6:
                break
            if o == 0:
                x = r.standard_normal(k) * (r.random(k) < max(dens, .3))
                if case["tiny"]:
                    x = np.round(x)
                A = A + np.outer(x, x)
                ops += [0, 0]
                dat += list(x)
                want.append(1)
                labels.add("update")
            elif o == 1 and k > 1:
                i = int(r.integers(k))
                A = np.delete(np.delete(A, i, 0), i, 1)
                ops += [1, i]
                want.append(1)
                labels.add("last row removed" if i == k - 1 else "row removed")
            elif o == 2 and k < 25:
                y = r.standard_normal(k) * (r.random(k) < max(dens, .3))
                red = r.random() < 0.2
                if y.any():
                    y = y / np.sqrt(y @ np.linalg.solve(A, y)) * (0.5 + r.random())
                s = y @ np.linalg.solve(A, y)
                d = s + (-0.5 if red else 0.3 + r.random())
                if d == 0:
                    d = -0.5
                ops += [2, 0]
                dat += list(y) + [d]
                want.append(0 if red else 1)
                if red:
                    labels.add("redundant row refused")
                else:
                    A = np.block([[A, y[:, None]], [y[None], np.array([[d]])]])
                    labels.add("row added")
    b = r.standard_normal(len(A))
    try:
        ok, L, x, nn = ctx.srv("srv_geom", case["variant"]).call(
            "chol", np.array([n, int(case["tight"]), len(ops) // 2] + ops), A0, np.array(dat, float), b if len(b) >= n else np.append(b, np.zeros(n)))
    except CodeError as e:
        raise Violation("sparse factor corrupted: %s" % e)
    if case["indef"]:
        if ok[0] != 0:
            raise Violation("a matrix with eigenvalue %.3g was factorized" % np.linalg.eigvalsh(A0)[0])
        return {"nontrivial": n > 1, "labels": sorted(labels)}
    if not pos:
        return {"nontrivial": False, "labels": sorted(labels)}
    if list(ok) != want:
        raise Violation("steps reported %s, expected %s" % (list(ok), want))
    k = len(A)
    if nn[0] != k:
        raise Violation("%d rows left, expected %d" % (nn[0], k))
    L = L.reshape(k, k)
    if not np.isfinite(L).all():
        raise Violation("the factor is not finite")
    Ll = np.tril(L)
    kap = np.linalg.cond(A)
    if np.abs(np.triu(L, 1) - np.tril(L, -1).T).max() > 1e-8 * np.abs(L).max():
        raise Violation("the stored upper part is not the transpose of the factor")
    e = np.abs(Ll @ Ll.T - A).max() / np.abs(A).max()
    if e > 1e-9 * k:
        raise Violation("L L^T differs from the matrix by %.3g (relative) after %s" % (e, ops))
    ref = np.linalg.solve(A, b)
    e = np.abs(x - ref).max() / max(1e-300, np.abs(ref).max())
    if e > 1e-9 * k * kap:
        raise Violation("solution off by %.3g (condition %.3g)" % (e, kap))
    return {"nontrivial": n > 1, "labels": sorted(labels)}


def strat_chol(variant):
    return lambda: st.fixed_dictionaries({
        "seed": gen.seeds(), "n": st.integers(1, 22), "dens": st.sampled_from([0.05, 0.2, 0.5, 1.0]), "tight": st.booleans(),
        "tiny": st.booleans(), "indef": st.sampled_from([False] * 7 + [True]),
        "ops": st.lists(st.sampled_from([0, 1, 2]), max_size=6), "variant": st.just(variant)})


CHECK = Check(
    "C13",
    rule="A case is a dense system (up to 14 x 10, condition up to 1e6, integer, sparse, triangular, permuted and rank-deficient shapes) or a sparse positive definite matrix "
         "with a history of rank-one updates, row removals and row additions. Non-trivial: more than one unknown.",
    groups=[Group("qr", strat_qr("rel"), run_qr, quick=30000, thorough=600000),
            Group("qr_asan", strat_qr("asan"), run_qr, quick=6000, thorough=100000),
            Group("cholesky", strat_chol("rel"), run_chol, quick=30000, thorough=600000),
            Group("cholesky_asan", strat_chol("asan"), run_chol, quick=6000, thorough=100000)],
    targets=[("srv_geom", "rel"), ("srv_geom", "asan")],
    assumptions=["errors are allowed to grow with the condition number of the matrix"],
)
