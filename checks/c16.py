"""C16: the command line and the control file are honoured, and errors are reported."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import gen, models, pipe, runs, seedsets, vor
from vlib.core import Check, Group
from vlib.pipe import need
from checks.c04 import write_seeds

NUMBERS = ["R_MIN", "R_MAX", "LIP_CONST", "VC_ANGLE", "NUM_THREADS"]
FLAGS = ["GENERATE_VCG_FILE", "GENERATE_EXODUS_FILE", "GENERATE_MONITORING_POINTS", "IMPOSE_MONITORING_POINTS"]
DEFAULT = {"R_MIN": "0", "R_MAX": "1.7976931348623157e308", "LIP_CONST": "0.1", "VC_ANGLE": "20", "NUM_THREADS": "1"}
SAID = {"R_MIN": "Minimum Sphere Radius", "R_MAX": "Maximum Sphere Radius", "LIP_CONST": "Lipschitz Const", "VC_ANGLE": "VC Smooth Angle Threshold",
        "NUM_THREADS": "Number of OpenMP threads"}
SAID_FLAG = {"GENERATE_VCG_FILE": "Generate VCG file!", "GENERATE_EXODUS_FILE": "Generate Exodus file!", "GENERATE_MONITORING_POINTS": "Generate Monitoring Points!",
             "IMPOSE_MONITORING_POINTS": "Impose Monitoring Points!"}
UNKNOWN = ["RMAX", "r_max", "R_MAX_", "XR_MAX", "LIP", "lip_const", "VC_ANGLES", "GENERATE_VCG", "generate_vcg_file", "NUM_THREAD", "OUTPUT", "INPUT_MESH", "SEED_FILE", "SIZING", "T"]


def layout(items, r, style):
    """the text of a control file with these settings, in this order: (key, value or None)"""
    eol = "\r\n" if style["crlf"] else "\n"

    def sp(n=1):
        if not style["spaces"]:
            return " " * n
        return "".join(str(t) for t in r.choice([" ", "\t"], int(r.integers(max(n, 1), 5)) if n else int(r.integers(0, 4))))
    out = []

    def junk():
        k = int(r.integers(6))
        if k == 0:
            return ""
        if k == 1:
            return sp(0)
        if k == 2:
            return "#" + str(r.choice(["", " "])) + str(r.choice(["R_MAX = 0.001", "a note", "NUM_THREADS = 7", "INPUT_MESH_FILE = nothing.obj", "GENERATE_VCG_FILE = true", "="]))
        if k == 3:
            return str(r.choice(UNKNOWN)) + " = " + str(r.choice(["0.5", "true", "x.obj"]))
        if k == 4:
            return str(r.choice(UNKNOWN))
        return "# " + "=" * int(r.integers(60))
    for k, v in items:
        while style["noise"] and r.random() < 0.4:
            out.append(junk())
        sep = str(r.choice(["=", "=", ":", ":="])) if style["spaces"] else "="
        lead = sp(0) if style["spaces"] and r.random() < 0.3 else ""
        tail = str(r.choice(["", sp(0), " # note", " 0.125", " # R_MAX = 3"])) if style["noise"] else ""
        if v is None:
            out.append(lead + k + (sp(0) if style["spaces"] else ""))
        else:
            out.append(lead + k + sp() + sep + sp() + v + tail)
    while style["noise"] and r.random() < 0.4:
        out.append(junk())
    return eol.join(out) + (eol if style["end"] else "")


STYLE = st.fixed_dictionaries({k: st.booleans() for k in ("crlf", "spaces", "noise", "end")})


def number(k, r):
    if k == "NUM_THREADS":
        return str(int(r.integers(1, 9)))
    if k == "VC_ANGLE":
        x = float(r.choice([0, 5, 20, 33.3, 60, 89.9, 120, 179]))
    elif k == "LIP_CONST":
        x = float(r.choice([0.1, 0.25, 0.5, 0.8, 0.99, r.random()]))
    else:
        x = float(r.choice([0.0, 1.0, 10000.0, 1e-3, 0.125, r.random(), 10 ** r.uniform(-9, 9)]))
    return str(r.choice(["%r" % x, "%.3f" % x, "%.10e" % x, "%g" % x, "+%r" % x, "0%r" % x]))


def shown(v):
    """how the program prints a number"""
    return "%g" % float(v)


def expect(items):
    """the meaning of the settings: meshes, sizing, numbers, flags"""
    m = {"meshes": [], "sizing": None, "seeds": None, "from_seeds": False}
    m.update({k: float(v) for k, v in DEFAULT.items()})
    m.update({k: False for k in FLAGS})
    for k, v in items:
        if k == "INPUT_MESH_FILE":
            m["meshes"].append(v)
        elif k == "SIZING_FILE":
            m["sizing"] = v
        elif k == "SEEDS_FILE":
            m["seeds"] = v
        elif k == "GENERATE_MESH_FROM_SEEDS":
            m["from_seeds"] = v != "false"
        elif k in FLAGS:
            m[k] = v != "false"
        else:
            m[k] = float(v)
    return m


def echoed(out, m, what):
    lines = [l.strip() for l in out.replace("\r", "").split("\n")]

    def values(name):
        return [l.split("=", 1)[1].strip() for l in lines if l.lstrip("* ").startswith(name + " =")]
    for k in NUMBERS:
        need(values(SAID[k]) == [shown(m[k])], "%s: %s is taken to be %s, it should be %s" % (what, k, values(SAID[k]), shown(m[k])))
    need(values("Input Mesh") == m["meshes"], "%s: the input meshes are taken to be %s, not %s" % (what, values("Input Mesh"), m["meshes"]))
    need(values("Sizing File") == ([m["sizing"]] if m["sizing"] else []), "%s: the sizing file is taken to be %s, not %s" % (what, values("Sizing File"), m["sizing"]))
    for k in FLAGS:
        need((SAID_FLAG[k] in lines) == m[k], "%s: %s is taken to be %s" % (what, k, not m[k]))


def failed(q, what, ctx=None):
    need(q.rc is not None, "%s: the run did not end" % what)
    need(q.rc > 0 and q.rc < 126 and "Sanitizer" not in q.err and "runtime error" not in q.err,
         "%s: the run ended with status %s instead of reporting the error: %s" % (what, q.rc, (q.err or q.out)[-300:]))
    need("Mission Accomplished" not in q.out, "%s: success is reported" % what)


def start(ctx, d, variant, args, threads=None):
    env = {"VERIF_RNG_SEED": "1"}
    if threads:
        env.update(OMP_DISPLAY_AFFINITY="TRUE", OMP_AFFINITY_FORMAT="thread%n of the team")
    return pipe.run_cli(ctx.exe("vc_mesh", variant), d, args, env=env, limit=30)


def write(d, name, text):
    with open(os.path.join(d, name), "w", newline="") as f:
        f.write(text)


def files(d):
    out = {}
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        if os.path.isfile(p):
            with open(p, "rb") as f:
                out[n] = f.read()
    return out


# what is read from the file

def run_echo(case, ctx):
    r = np.random.default_rng([case["seed"], 16])
    items = []
    nm = int(r.integers(1, 4))
    for k in range(nm):
        items.append(("INPUT_MESH_FILE", str(r.choice(["part%d.obj", "sub/dir/part%d.OBJ", "./p-%d", "0%d", "a=b#%d.obj"])) % k))
    for k in NUMBERS:
        for _ in range(int(r.choice([0, 1, 1, 1, 2, 3]))):
            items.append((k, number(k, r)))
    for k in FLAGS:
        for _ in range(int(r.choice([0, 1, 1, 2]))):
            items.append((k, r.choice(["true", "TRUE", "1", "on", "false", "false", None])))
    if r.random() < 0.4:
        items.append(("SIZING_FILE", str(r.choice(["sizing.csv", "dir/s.csv"]))))
    if r.random() < 0.3:
        items.append(("SEEDS_FILE", "seeds.csv"))
    if r.random() < 0.2:
        items.append(("GENERATE_MESH_FROM_SEEDS", "false"))
    items = [items[i] for i in r.permutation(len(items))]
    m = expect(items)
    # the runs end after the parameters are shown: some file is missing
    d = ctx.scratch()
    have = [x for x in m["meshes"] + ([m["sizing"]] if m["sizing"] else []) if "/" not in x]
    absent = str(r.choice(m["meshes"] + ([m["sizing"]] if m["sizing"] else [])))
    for x in have:
        if x != absent:
            write(d, x, "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\n" if x != m["sizing"] else "x\n0,0,0,1\n")
    name = str(r.choice(["vc.in", "c", "-x.in", "vc", "with space.in"]))
    write(d, name, layout(items, r, case["style"]))
    q = start(ctx, d, case["variant"], ["-vc", name])
    failed(q, "a missing file")
    echoed(q.out, m, "control file %r" % layout(items, np.random.default_rng([0]), dict(crlf=False, spaces=False, noise=False, end=True)))
    gone = [x for x in m["meshes"] + ([m["sizing"]] if m["sizing"] else []) if x == absent or "/" in x]
    said = q.out[q.out.index("Input Data"):].split("\n")
    need(any("Failed to open" in l and any(x in l for x in gone) for l in said), "the missing file is not named: %s" % q.out[-200:])
    left = set(os.listdir(d)) - set(have) - {name, "VoroCrustLog.txt"}
    need(not left, "a run that failed wrote %s" % sorted(left))
    ctx.drop(d)
    return {"nontrivial": len(items) > 3, "labels": ["meshes %d" % nm] + [k for k in case["style"] if case["style"][k]]}


def strat_echo(variant):
    return lambda: st.fixed_dictionaries({"seed": gen.seeds(), "style": STYLE, "variant": st.just(variant)})


# what is wrong with the call or the files

def run_errors(case, ctx):
    r = np.random.default_rng([case["seed"], 17])
    k = case["what"]
    d = ctx.scratch()
    args = ["-vc", "vc.in"]
    base = [("INPUT_MESH_FILE", "m.obj"), ("R_MAX", "1.0"), ("LIP_CONST", "0.5"), ("NUM_THREADS", "1")]
    tri = "v 0 0 0\nv 1 0 0\nv 0 1 0\nv 0 0 1\nf 1 3 2\nf 1 2 4\nf 2 3 4\nf 3 1 4\n"
    mesh, text, said = tri, None, None
    if k == "no control file":
        said = "Failed to open"
        text = False
    elif k == "a directory":
        os.makedirs(os.path.join(d, "vc.in"))
        text = False
    elif k == "empty control file":
        text = str(r.choice(["", "\n", "\n\n\n", " \t ", "#", "# INPUT_MESH_FILE = m.obj\n", "\r\n"]))
    elif k == "no mesh":
        base = base[1:] + [("SEEDS_FILE", "s.csv"), ("SIZING_FILE", "s.csv")][:int(r.integers(3))]
        said = "No input file"
    elif k == "no value":
        key = str(r.choice(NUMBERS + ["INPUT_MESH_FILE", "SIZING_FILE", "SEEDS_FILE"]))
        base.append((key + str(r.choice(["", " ", " =", "=", " 5", "=5"])), None))
        said = key if base[-1][0][len(key):len(key) + 1] in ("", " ") else ""
        if said == "":
            # KEY=5 is one word, an option that is not known
            base, mesh = [("INPUT_MESH_FILE", "absent.obj")] + base[1:], None
    elif k == "no number":
        key = str(r.choice(NUMBERS))
        base.append((key, str(r.choice(["abc", "true", "#", "=", "one", ".", "-", "x1", "nan?", "1e999"]))))
        said = key
    elif k == "no threads":
        base.append(("NUM_THREADS", str(r.choice(["0", "-1", "-8", "0.5"]))))
        said = "NUM_THREADS"
    elif k == "missing mesh":
        base[0] = ("INPUT_MESH_FILE", "absent.obj")
        said = "absent.obj"
    elif k == "missing second mesh":
        base.append(("INPUT_MESH_FILE", "absent.obj"))
        said = "absent.obj"
    elif k == "missing sizing":
        base.append(("SIZING_FILE", "absent.csv"))
        said = "absent.csv"
    elif k == "missing seeds":
        base += [("SEEDS_FILE", "absent.csv"), ("GENERATE_MESH_FROM_SEEDS", "true"), ("GENERATE_VCG_FILE", "true")]
        said = "absent.csv"
    elif k == "mesh without faces":
        mesh = str(r.choice(["", "\n", "# nothing\n", "v 0 0 0\n", "v 0 0 0\nv 1 0 0\nv 0 1 0\n", "o x\ng y\n", "v 0 0 0\nv 0 0 0\nv 0 0 0\nf 1 2 3\n"]))
        if r.random() < 0.3:
            base.append(("INPUT_MESH_FILE", "m.obj"))
    elif k == "no arguments after -vc":
        args = ["-vc"]
    elif k == "unknown method":
        args = [str(t) for t in r.choice(["vc.in", "-x", "--vc", "-VC", "vc", "-v"], int(r.integers(1, 4)))]
    if text is None:
        order = r.permutation(len(base))
        text = layout([base[i] for i in order], r, dict(case["style"], noise=case["style"]["noise"] and k not in ("no value",)))
    if text is not False:
        write(d, "vc.in", text)
    if mesh is not None:
        write(d, "m.obj", mesh)
    before = files(d)
    q = start(ctx, d, case["variant"], args)
    failed(q, "%s (%r)" % (k, text))
    if said:
        need(said in q.out or said in q.err, "%s: the report does not name %s: %s" % (k, said, q.out[-300:]))
    if args[0] != "-vc" or len(args) == 1:
        need("Usage" in q.out, "%s: the usage is not shown" % k)
    after = files(d)
    for n in before:
        need(after.get(n) == before[n], "%s: the run changed %s" % (k, n))
    left = set(after) - set(before) - {"VoroCrustLog.txt", "clean.obj", "model_combined.obj"}
    need(not left, "%s: a run that failed wrote %s" % (k, sorted(left)))
    ctx.drop(d)
    return {"nontrivial": True, "labels": [k]}


ERRORS = ["no control file", "a directory", "empty control file", "no mesh", "no value", "no value", "no number", "no number", "no threads", "missing mesh", "missing second mesh",
          "missing sizing", "missing seeds", "mesh without faces", "mesh without faces", "no arguments after -vc", "unknown method"]


def strat_errors(variant):
    return lambda: st.fixed_dictionaries({"what": st.sampled_from(ERRORS), "seed": gen.seeds(), "style": STYLE, "variant": st.just(variant)})


def run_help(case, ctx):
    d = ctx.scratch()
    write(d, "vc.in", "INPUT_MESH_FILE = absent.obj\n")
    q = start(ctx, d, "rel", case["args"])
    need(q.rc == 0, "%s: status %s" % (case["args"], q.rc))
    for w in ("Usage", "-vc", "-h"):
        need(w in q.out, "%s: the usage does not mention %s" % (case["args"], w))
    ctx.drop(d)
    return {"nontrivial": True, "labels": ["help"]}


def strat_help():
    a = ["-vc", "vc.in", "x", "-x", "h"]
    return st.lists(st.sampled_from(a), max_size=4).flatmap(
        lambda l: st.integers(0, len(l)).map(lambda k: {"args": [] if not l else l[:k] + ["-h"] + l[k:]}))


def run_words(case, ctx):
    """any text for a control file: the run ends without a crash"""
    r = np.random.default_rng([case["seed"], 18])
    words = NUMBERS + FLAGS + UNKNOWN + ["SEEDS_FILE", "SIZING_FILE", "INPUT_MESH_FILE", "GENERATE_MESH_FROM_SEEDS", "=", "=", "=", "true", "false", "0.5", "1", "-3", "1e99", "m.obj", "abc", "",
                                         "\0", "\xff\xfe", "\x80", "#", "\"", "x" * 3000, "%s%n", "../..", "\x1a"]
    t = ""
    for _ in range(int(r.integers(0, 60))):
        t += str(r.choice(words)) + str(r.choice([" ", " ", " ", "\n", "\n", "\t", "", "\r\n"]))
    d = ctx.scratch()
    with open(os.path.join(d, "vc.in"), "wb") as f:
        f.write(t.encode("latin-1"))
    q = start(ctx, d, case["variant"], ["-vc", "vc.in"])
    # no word names an existing file that could be meshed
    if not (q.rc == 0 and "No seeds were found" in q.out and "../.." in t):
        # a directory named as the file of seeds has none in it
        failed(q, "control file %r" % t)
    ctx.drop(d)
    return {"nontrivial": len(t) > 20, "labels": ["words"]}


# from seeds

def run_seeds(case, ctx):
    S, reg, sz = seedsets.expand(case)
    if not reg.any():
        return {"nontrivial": False, "labels": ["skipped: no cells"]}
    try:
        vor.Ref(S, np.nonzero(reg)[0])
    except (ValueError, vor.QhullError):
        return {"nontrivial": False, "labels": ["skipped: unbounded"]}
    r = np.random.default_rng([case["seed"], 19])
    d, e = ctx.scratch(), ctx.scratch()
    nt = case["threads"]
    vcg = case["vcg"]
    for x in (d, e):
        write_seeds(os.path.join(x, "my_seeds.csv"), S, reg, sz)
        write(x, "m.obj", "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\n")
    write(d, "vc.in", "SEEDS_FILE = my_seeds.csv\nGENERATE_MESH_FROM_SEEDS = true\nNUM_THREADS = %d\nGENERATE_VCG_FILE = true\n" % nt)
    items = [("SEEDS_FILE" if case["key"] != 1 else "INPUT_MESH_FILE", "my_seeds.csv"), ("GENERATE_MESH_FROM_SEEDS", r.choice(["true", "1", None])), ("NUM_THREADS", str(nt))]
    if nt == 1 and r.random() < 0.5:
        items.pop()
    if vcg or r.random() < 0.4:
        items.append(("GENERATE_VCG_FILE", r.choice(["true", "yes", None]) if vcg else "false"))
    if r.random() < 0.3:
        items.append(("GENERATE_EXODUS_FILE", "true"))
    for k in ("GENERATE_MONITORING_POINTS", "IMPOSE_MONITORING_POINTS"):
        if r.random() < 0.15:
            items.append((k, "true"))
    for k in ("R_MAX", "LIP_CONST", "VC_ANGLE"):
        if r.random() < 0.3:
            items.append((k, number(k, r)))
    if case["key"] == 2:
        items.append(("INPUT_MESH_FILE", "m.obj"))
    items = [items[i] for i in r.permutation(len(items))]
    write(e, "c.in", layout(items, r, case["style"]))
    a = start(ctx, d, case["variant"], ["-vc", "vc.in"], nt)
    before = files(e)
    b = start(ctx, e, case["variant"], ["-vc", "c.in"], nt)
    for q in (a, b):
        need(q.rc == 0, "the run ended with status %s: %s" % (q.rc, (q.err or q.out)[-300:]))
        team = {l.split()[0] for l in (q.err + "\n" + q.out).split("\n") if l.startswith("thread") and "of the team" in l}
        if nt > 1:
            need(team == {"thread%d" % k for k in range(nt)}, "%d threads are asked for, the run used %s" % (nt, sorted(team)))
        else:
            need(team <= {"thread0"}, "one thread is asked for, the run used %s" % sorted(team))
    out, ref = files(e), files(d)
    for n in before:
        need(out.get(n) == before[n], "the run changed its input %s" % n)
    wrote = set(out) - set(before) - {"VoroCrustLog.txt"}
    need(wrote == ({"mesh.vcg"} if vcg else set()), "the run wrote %s (VCG file %srequested)" % (sorted(wrote), "" if vcg else "not "))
    if vcg and nt == 1:
        need(out["mesh.vcg"] == ref["mesh.vcg"], "mesh.vcg differs from that of an equivalent control file")
    elif vcg:
        x, y = out["mesh.vcg"].split(b"\n"), ref["mesh.vcg"].split(b"\n")
        need(len(x) == len(y) and x[0] == y[0], "mesh.vcg differs from that of an equivalent control file: %s, %s" % (x[0], y[0]))
    ctx.drop(d)
    ctx.drop(e)
    return {"nontrivial": len(items) > 3, "labels": ["vcg" if vcg else "no file", "threads %d" % nt, ["seeds", "as mesh", "with a mesh"][case["key"]]]}


def strat_seeds(variant):
    return lambda: st.tuples(seedsets.strategy(), st.fixed_dictionaries({
        "variant": st.just(variant), "style": STYLE, "key": st.integers(0, 2), "vcg": st.sampled_from([True, True, False]),
        "threads": st.sampled_from([1, 1, 2, 3, 4])})).map(lambda t: dict(t[0], **t[1]))


# full runs

REQUEST = {"GENERATE_VCG_FILE": "mesh.vcg", "GENERATE_MONITORING_POINTS": "monitoring_points.csv", "IMPOSE_MONITORING_POINTS": "monitoring_points_closest_seeds.csv"}


def run_pair(case, ctx):
    """two control files of the same meaning give the same files, and exactly the requested ones"""
    r = np.random.default_rng([case["seed"], 20])
    m = runs.model(case)
    on = {k: bool(r.random() < p) for k, p in (("GENERATE_VCG_FILE", 0.6), ("GENERATE_MONITORING_POINTS", 0.5), ("IMPOSE_MONITORING_POINTS", 0.3), ("GENERATE_EXODUS_FILE", 0.3))}
    lo, hi = m.V.min(0), m.V.max(0)
    pts = lo + (hi - lo) * r.random((5, 3))
    mon = "x1coord, x2coord, x3coord, radius\n" + "".join(", ".join("%r" % float(t) for t in list(p) + [0.1 * case["size"]]) + "\n" for p in pts)
    angle = min(20, float(np.floor(0.9 * runs.bend(m.V, m.F)))) if m.planar else 20
    size = case["size"]
    nums = {"R_MIN": "0", "R_MAX": "%r" % (case["rmax"] * size) if case["rmax"] else DEFAULT["R_MAX"], "LIP_CONST": "%r" % case["lip"], "VC_ANGLE": "%r" % float(angle), "NUM_THREADS": "1"}
    out = []
    tri = runs.soup(m, case)
    for k in range(2):
        items = []
        for key, v in nums.items():
            default = float(v) == float(DEFAULT[key])
            if default and (k ^ case["omit"]) and r.random() < 0.8:
                continue
            if k and case["repeat"] and r.random() < 0.5:
                items.append((key, number(key, r)))
            x = float(v)
            items.append((key, str(r.choice(["%r" % x, "%.17g" % x, "%.16e" % x, "+%r" % x])) if key != "NUM_THREADS" else v))
        for key, v in on.items():
            if v:
                items.append((key, ["true", r.choice(["true", "1", "yes", None])][k]))
            elif k and r.random() < 0.5:
                items.append((key, "false"))
        meshes = [("INPUT_MESH_FILE", "model%d.obj" % i) for i in range(len(tri))]
        if k:
            # the order among different keys is free, that among equal ones is not
            keys = [x[0] for x in items]
            pos = r.permutation(len(items))
            q = {}
            for i in sorted(range(len(items)), key=lambda i: pos[i]):
                q.setdefault(items[i][0], []).append(i)
            order = []
            taken = {key: [i for i in range(len(items)) if items[i][0] == key] for key in set(keys)}
            for i in pos:
                order.append(taken[items[i][0]].pop(0))
            items = [items[i] for i in order]
            for x in meshes[::-1]:
                at = int(r.integers(0, 1 + min([i for i, y in enumerate(items) if y[0] == "INPUT_MESH_FILE"] + [len(items)])))
                items.insert(at, x)
        else:
            items = meshes + items
        d = ctx.scratch()
        for i, (V, F) in enumerate(tri):
            models.write_obj(os.path.join(d, "model%d.obj" % i), V, F, case["style0"])
        if on["IMPOSE_MONITORING_POINTS"]:
            write(d, "monitoring_points.csv", mon)
        name = ["vc.in", "other name.txt"][k]
        write(d, name, layout(items, r, case["style"] if k else dict(crlf=False, spaces=False, noise=False, end=True)))
        before = files(d)
        q = pipe.run_cli(ctx.exe("vc_mesh"), d, ["-vc", name], env={"VERIF_RNG_SEED": str(case["rng"])}, limit=240)
        need(q.rc == 0 and "Mission Accomplished" in q.out, "the run ended with status %s: %s" % (q.rc, (q.err or q.out)[-300:]))
        mean = expect(items)
        need(mean["meshes"] == [x[1] for x in meshes] and all(mean[x] == v for x, v in on.items()), "the check misplaced a setting")
        echoed(q.out, mean, "control file %d" % k)
        after = files(d)
        for n in before:
            need(after.get(n) == before[n], "the run changed its input %s" % n)
        need(not any(".exo" in n for n in after), "an Exodus file was written without Exodus support")
        want = {x for x, v in on.items() if v}
        if on["IMPOSE_MONITORING_POINTS"]:
            want.discard("GENERATE_MONITORING_POINTS")
        for key, n in REQUEST.items():
            if n in before:
                continue
            need((n in after) == (key in want), "%s was %swritten; the control file sets %s" % (n, "" if n in after else "not ", [x for x, v in on.items() if v]))
        for n in ("VoroCrustLog.txt", name):
            after.pop(n, None)
        out.append(after)
        ctx.drop(d)
    need(set(out[0]) == set(out[1]), "equivalent control files: only one run wrote %s" % sorted(set(out[0]) ^ set(out[1])))
    for n in out[0]:
        need(out[0][n] == out[1][n], "equivalent control files: the runs wrote different files %s" % n)
    return {"nontrivial": True, "labels": sorted(x for x, v in on.items() if v) + (["default R_MAX"] if not case["rmax"] else [])}


def strat_pair():
    return st.tuples(runs.strategy(kinds=["tet", "tet", "octa", "box", "frustum", "L", "stack"], lips=(0.5, 0.8)), st.fixed_dictionaries({
        "style": STYLE, "omit": st.integers(0, 1), "repeat": st.booleans(), "style0": st.integers(0, 1)})).map(lambda t: dict(t[0], **t[1]))


CHECK = Check(
    "C16",
    rule="A case is a control file in a generated layout (order, spaces, separators, comments, blank lines, CRLF, unknown options, repeated options, omitted defaults), a wrong call or file, random words, "
         "or a pair of control files of the same meaning. Settings shown, files written, threads used and the exit status are compared with their definition. "
         "Non-trivial: more than three settings, an error of one of 15 kinds, more than 20 characters of words, or a completed pair.",
    groups=[Group("pair", strat_pair, run_pair, quick=16, thorough=400),
            Group("echo", strat_echo("rel"), run_echo, quick=3000, thorough=60000),
            Group("echo_asan", strat_echo("asan"), run_echo, quick=160, thorough=4000),
            Group("errors", strat_errors("rel"), run_errors, quick=1600, thorough=30000),
            Group("errors_asan", strat_errors("asan"), run_errors, quick=320, thorough=6000),
            Group("help", strat_help, run_help, quick=80, thorough=400),
            Group("words", lambda: st.fixed_dictionaries({"seed": gen.seeds(), "variant": st.sampled_from(["rel", "asan"])}), run_words, quick=600, thorough=20000),
            Group("seeds", strat_seeds("rel"), run_seeds, quick=400, thorough=8000)],
    targets=[("vc_mesh", "rel"), ("vc_mesh", "asan")],
    assumptions=["names of files hold no spaces; a number that starts as one is taken up to where it stops being one; with Exodus support left out an Exodus file is never written"],
)
