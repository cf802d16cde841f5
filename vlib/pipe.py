"""Runs the real vc_mesh binary in a scratch directory and parses its output files."""
import os
import subprocess
import time

import numpy as np

from .server import Violation


class RunResult:
    pass


class Capped(Exception):
    """a run was cut short because it took longer than a shrinking step may"""


CAP = None          # a tighter time limit while a failure is being shrunk
TIMED_OUT = [False]  # whether a run of the current case was cut at its limit


def run_cli(exe, cwd, args, env=None, limit=240, stdin=b""):
    e = dict(os.environ)
    e["OMP_WAIT_POLICY"] = "passive"
    e.setdefault("ASAN_OPTIONS", "detect_leaks=0")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e.pop("VERIF_RNG_SEED", None)
    if env:
        e.update(env)
    r = RunResult()
    t0 = time.time()
    outp = os.path.join(cwd, "__stdout")
    errp = os.path.join(cwd, "__stderr")
    with open(outp, "wb") as fo, open(errp, "wb") as fe:
        p = subprocess.Popen([exe] + list(args), cwd=cwd, env=e, stdin=subprocess.PIPE, stdout=fo, stderr=fe)
        try:
            p.communicate(stdin, timeout=min(limit, CAP or limit))
            r.rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            r.rc = None
            if CAP and CAP < limit:
                raise Capped()
            TIMED_OUT[0] = True
    r.wall = time.time() - t0
    with open(outp, "rb") as f:
        r.out = f.read().decode("utf-8", "replace")
    with open(errp, "rb") as f:
        r.err = f.read().decode("utf-8", "replace")
    os.remove(outp)
    os.remove(errp)
    r.cwd = cwd
    return r


def control(path, keys):
    """keys: list of (key, value or None)"""
    with open(path, "w") as f:
        for k, v in keys:
            f.write("%s = %s\n" % (k, v) if v is not None else k + "\n")


def need(cond, msg):
    if not cond:
        raise Violation(msg)


def read_csv(path, what=None):
    what = what or os.path.basename(path)
    try:
        with open(path) as f:
            lines = f.read().split("\n")
    except OSError:
        raise Violation("%s was not written" % what)
    head = [h.strip() for h in lines[0].split(",")]
    rows = []
    for l in lines[1:]:
        if not l.strip():
            continue
        try:
            rows.append([float(t) for t in l.split(",")])
        except ValueError:
            raise Violation("%s: malformed line %r" % (what, l[:120]))
    if rows and len(set(map(len, rows))) > 1:
        raise Violation("%s: rows of different lengths" % what)
    a = np.array(rows, dtype=float)
    if not rows:
        a = a.reshape(0, len(head))
    need(np.isfinite(a).all(), "%s contains a value that is not finite" % what)
    return head, a


def read_obj(path):
    try:
        with open(path) as f:
            lines = f.read().split("\n")
    except OSError:
        raise Violation("%s was not written" % os.path.basename(path))
    V, F = [], []
    for l in lines:
        t = l.split()
        if not t:
            continue
        try:
            if t[0] == "v":
                V.append([float(x) for x in t[1:4]])
            elif t[0] == "f":
                F.append([int(x.split("/")[0]) - 1 for x in t[1:]])
        except ValueError:
            raise Violation("%s: malformed line %r" % (os.path.basename(path), l[:120]))
    V = np.array(V, float).reshape(-1, 3)
    if any(len(f) != 3 for f in F):
        raise Violation("%s: a face is not a triangle" % os.path.basename(path))
    F = np.array(F, int).reshape(-1, 3)
    if F.size:
        need(F.min() >= 0 and F.max() < len(V), "%s: face index out of range" % os.path.basename(path))
    return V, F


class Vcg:
    pass


def read_vcg(path):
    try:
        with open(path) as f:
            lines = [l for l in f.read().split("\n") if l.strip()]
    except OSError:
        raise Violation("mesh.vcg was not written")
    g = Vcg()
    try:
        h = lines[0].split()
        assert h[0] == "CELLS"
        n = int(h[1])
        C = np.array([[float(x) for x in l.split()] for l in lines[1:1 + n]], float).reshape(n, 6)
        h = lines[1 + n].split()
        assert h[0] == "CONNECTIONS"
        m = int(h[1])
        assert len(lines) == 2 + n + m, "%d connections announced, %d lines" % (m, len(lines) - 2 - n)
        K = np.array([[float(x) for x in l.split()] for l in lines[2 + n:]], float).reshape(m, 9)
    except (AssertionError, IndexError, ValueError) as e:
        raise Violation("mesh.vcg is malformed: %s" % e)
    need(np.isfinite(C).all() and np.isfinite(K).all(), "mesh.vcg contains a value that is not finite")
    g.id = C[:, 0].astype(int)
    g.x = C[:, 1:4]
    g.vol = C[:, 4]
    g.reg = C[:, 5].astype(int)
    g.a = K[:, 0].astype(int)
    g.b = K[:, 1].astype(int)
    g.c = K[:, 2:5]
    g.area = K[:, 5]
    g.n = K[:, 6:9]
    need((g.id == np.arange(1, n + 1)).all(), "mesh.vcg: cell ids are not 1..n")
    if m:
        need(min(g.a.min(), g.b.min()) >= 1 and max(g.a.max(), g.b.max()) <= n, "mesh.vcg: connection to an unknown cell")
    return g
