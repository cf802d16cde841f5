"""Builds /repo's current working tree (library sources are globbed) plus the harness
servers in /verif/cpp.  Everything lands in /verif/build (git-ignored); objects are keyed by
a hash of their preprocessed inputs (all headers + the source + the flags), so a changed tree
is always recompiled."""
import concurrent.futures as cf
import glob
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(REPO, "src", "Meshing")

CONFIG_H = """
#ifndef VERIF_CONFIG_H
#define VERIF_CONFIG_H
#define NO_KOKKOS
#define NO_KOKKOSKERNELS
#define NO_EXODUS
#define NO_MPI
#define USE_OPEN_MP
#define NO_LAPACK
#endif
"""
VERSION_H = """
#ifndef _VERSION_H_
#define _VERSION_H_
#define GIT_COMMIT_SHA1 "0"
#define GIT_COMMIT_DATE "0"
#define VOROCRUST_VERSION "Development Branch"
#endif
"""
VARIANTS = {
    # the flags of /opt/vp/build.sh, minus FIXED_RNG_SEED: the seed comes from vtime.cpp
    "rel": ["g++", "-O2", "-g1"],
    "asan": ["g++", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-omit-frame-pointer",
             "-fno-sanitize-recover=undefined", "-fno-sanitize=leak"],
}
COMMON = ["-std=c++11", "-fPIC", "-fopenmp", "-Wno-unknown-pragmas", "-w"]


class BuildError(Exception):
    pass


def _write_if_changed(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def _inc():
    inc = os.path.join(BUILD, "inc")
    os.makedirs(inc, exist_ok=True)
    _write_if_changed(os.path.join(inc, "Config.h"), CONFIG_H)
    _write_if_changed(os.path.join(inc, "Version.h"), VERSION_H)
    return inc


def _hash(paths, extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(os.path.basename(p).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


def _compile(args):
    src, obj, cmd = args
    if os.path.exists(obj):
        return None
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return "%s\n%s" % (" ".join(cmd + ["-c", src]), r.stdout[-4000:])
    os.replace(tmp, obj)
    return None


def build(targets, variant="rel", quiet=False):
    """targets: names out of {'vc_mesh', '<server>'}; returns {name: path}."""
    inc = _inc()
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    flags = VARIANTS[variant] + COMMON + ["-I" + inc, "-I" + SRC, "-I" + os.path.join(VERIF, "cpp")]
    hdrs = glob.glob(os.path.join(SRC, "*.h")) + glob.glob(os.path.join(inc, "*.h"))
    hhash = _hash(hdrs, flags)
    vh = glob.glob(os.path.join(VERIF, "cpp", "*.h"))
    vhash = _hash(vh, hhash)
    jobs, libobjs = [], []
    for s in sorted(glob.glob(os.path.join(SRC, "*.cpp"))):
        o = os.path.join(objdir, "%s.%s.%s.o" % (os.path.basename(s), variant, _hash([s], hhash)))
        libobjs.append(o)
        jobs.append((s, o, flags))
    tobj = {}
    extra = {}
    for t in list(targets) + ["vtime"]:
        if t == "vc_mesh":
            s = os.path.join(SRC, "vc_mesh.cxx")
        else:
            s = os.path.join(VERIF, "cpp", t + ".cpp")
        o = os.path.join(objdir, "%s.%s.%s.o" % (os.path.basename(s), variant, _hash([s], vhash)))
        tobj[t] = o
        jobs.append((s, o, flags))
    # longest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        errs = [e for e in ex.map(_compile, jobs) if e]
    if errs:
        raise BuildError("\n".join(errs))
    out = {}
    links = []
    for t in targets:
        objs = [tobj[t], tobj["vtime"]] + libobjs
        key = hashlib.sha256(" ".join(sorted(objs)).encode()).hexdigest()[:16]
        exe = os.path.join(BUILD, "%s.%s.%s" % (t, variant, key))
        out[t] = exe
        if not os.path.exists(exe):
            links.append((exe, VARIANTS[variant] + ["-fopenmp"] + objs))

    def _link(x):
        exe, cmd = x
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return r.stdout[-4000:]
        os.replace(tmp, exe)
        return None
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        errs = [e for e in ex.map(_link, links) if e]
    if errs:
        raise BuildError("\n".join(errs))
    return out


def build_all():
    """everything the claimed checks need"""
    import importlib
    import json
    sys.path.insert(0, VERIF)
    need, opt = {}, set()
    with open(os.path.join(VERIF, "MANIFEST.json")) as f:
        for c in json.load(f)["checks"]:
            chk = importlib.import_module("checks." + c["property"].lower()).CHECK
            for n, v in chk.targets:
                need.setdefault(v, set()).add(n)
            for n, v in chk.optional:
                opt.add((n, v))
    for v, ns in sorted(need.items()):
        build(sorted(ns), v)
        print("built", v, *sorted(ns))
    for n, v in sorted(opt):
        try:
            build([n], v)
        except BuildError as e:
            print("not built:", n, v, str(e)[-500:])


if __name__ == "__main__":
    if sys.argv[1] == "--all":
        build_all()
    else:
        print(build(sys.argv[2:], sys.argv[1]))
