"""The runner shared by all checks: case generation with Hypothesis, worker processes, shrinking,
three-fold replay before a violation is reported, and the evidence file."""
import hashlib
import json
import multiprocessing as mp
import os
import queue
import shutil
import sys
import tempfile
import time
import traceback

from . import build as B
from . import pipe
from .server import CodeError, Hang, Server, Violation

VERIF = B.VERIF
NWORK = max(1, min(8, os.cpu_count() or 8))


class Group:
    """strategy: () -> Hypothesis strategy of JSON-able cases; run(case, ctx) -> info dict or raises
    Violation.  quick/thorough: number of generated cases over all workers.  shrink: 'auto'
    (Hypothesis), None, or a function case -> iterable of simpler cases (greedy).  racy: the case
    exercises threads, so one reproduction out of the replays is enough.  serial: run with one worker
    at a time on the whole machine."""

    def __init__(self, name, strategy, run, quick, thorough, shrink="auto", racy=False, fixed=(),
                 workers=None, replays=3, shrink_s=30.0, needs=None):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.shrink, self.racy = quick, thorough, shrink, racy
        self.fixed = list(fixed)
        self.workers = workers
        self.replays = replays
        self.shrink_s = shrink_s
        self.needs = needs


class Check:
    def __init__(self, pid, rule, groups, targets, budget=(150, 1500), assumptions=(), known=None, optional=()):
        """targets: list of (executable, variant) to build; optional: the same for servers over
        private members, without which the groups that need them are left out."""
        self.pid, self.rule, self.groups, self.targets = pid, rule, groups, targets
        self.budget = budget
        self.assumptions = list(assumptions)
        self.known = known or {}
        self.optional = list(optional)
        self.dropped = []


class Ctx:
    def __init__(self, exes, root):
        self.exes, self.root = exes, root
        self.servers = {}
        self.n = 0

    def exe(self, name, variant="rel"):
        return self.exes[(name, variant)]

    def srv(self, name, variant="rel"):
        k = (name, variant)
        if k not in self.servers:
            d = os.path.join(self.root, "srv_%s_%s" % k)
            os.makedirs(d, exist_ok=True)
            self.servers[k] = Server(self.exes[k], d)
        return self.servers[k]

    def scratch(self):
        """a fresh empty directory; the caller removes it with ctx.drop"""
        self.n += 1
        d = os.path.join(self.root, "s%d" % self.n)
        os.makedirs(d)
        return d

    def drop(self, d):
        assert d.startswith(self.root + "/")
        shutil.rmtree(d, ignore_errors=True)

    def close(self):
        for s in self.servers.values():
            s.stop()


def _jdump(c):
    return json.dumps(c, sort_keys=True)


def _seed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:6], "little")


class _Stop(Exception):
    pass


def _run_one(g, case, ctx):
    """-> (info, None) or (None, message); a failure by time is marked in pipe.TIMED_OUT"""
    pipe.TIMED_OUT[0] = False
    try:
        return g.run(case, ctx) or {}, None
    except pipe.Capped:
        return {}, None
    except Hang as e:
        pipe.TIMED_OUT[0] = True
        return None, str(e)
    except Violation as e:
        return None, str(e) or type(e).__name__
    except CodeError as e:
        return None, "the code under test threw: %s" % e


def _worker(check, exes, wid, nwork, tier, seed, deadline, stop, q, root):
    os.setpgid(0, 0) if False else None
    ctx = Ctx(exes, os.path.join(root, "w%d" % wid))
    os.makedirs(ctx.root, exist_ok=True)
    os.chdir(ctx.root)
    try:
        for gi, g in enumerate(check.groups):
            if stop.is_set():
                break
            nw = min(g.workers or nwork, nwork)
            # rotate which workers take the groups that use few of them
            slot = (wid - gi) % nwork
            if slot >= nw:
                continue
            _run_group(check, g, ctx, slot, nw, tier, seed, deadline, stop, q)
    except Exception:
        q.put(("error", "worker %d: %s" % (wid, traceback.format_exc())))
        stop.set()
    finally:
        ctx.close()
        shutil.rmtree(ctx.root, ignore_errors=True)
        q.put(("done", wid))


def _run_group(check, g, ctx, slot, nw, tier, seed, deadline, stop, q):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    total = g.quick if tier == "quick" else g.thorough
    n = total // nw + (1 if slot < total % nw else 0)
    st = {"evals": 0, "nt": set(), "labels": {}, "samples": [], "skipped": 0, "fail": None,
          "fail_t": None, "errs": None}
    t0 = time.time()

    def note(case, info):
        st["evals"] += 1
        if info.get("nontrivial"):
            k = hashlib.sha256(_jdump(info.get("key", case)).encode()).hexdigest()[:16]
            if k not in st["nt"]:
                st["nt"].add(k)
                if len(st["samples"]) < 2:
                    st["samples"].append(_jdump(info.get("sample", case))[:700])
        for l in info.get("labels", ()):
            st["labels"][l] = st["labels"].get(l, 0) + 1

    fixed = [c for i, c in enumerate(g.fixed) if i % nw == slot]
    for c in fixed:
        if stop.is_set():
            break
        info, msg = _run_one(g, c, ctx)
        if msg is not None:
            st["fail"], st["hang"] = (c, msg), pipe.TIMED_OUT[0]
            break
        note(c, info)

    if st["fail"] is None and n > 0:
        st["first"] = slot > 0 and g.shrink != "auto"

        def body(case):
            if st["first"]:
                # the generator starts every worker with the same simplest case
                st["first"] = False
                return
            if st["fail"] is None:
                if stop.is_set() or time.time() > deadline:
                    st["skipped"] += 1
                    return
            elif time.time() - st["fail_t"] > g.shrink_s:
                return
            info, msg = _run_one(g, case, ctx)
            if msg is None:
                if st["fail"] is None:
                    note(case, info)
                return
            if st["fail"] is None:
                st["fail_t"] = time.time() - (1e9 if pipe.TIMED_OUT[0] else 0)  # what hangs is not shrunk
                st["hang"] = pipe.TIMED_OUT[0]
                pipe.CAP = 60
            st["fail"] = (case, msg)
            raise Violation(msg)

        phases = [Phase.generate] + ([Phase.shrink] if g.shrink == "auto" else [])
        test = settings(max_examples=n + (1 if st["first"] else 0), database=None, deadline=None, phases=phases,
                        report_multiple_bugs=False, print_blob=False,
                        suppress_health_check=list(HealthCheck))(given(g.strategy())(body))
        test = hypothesis.seed(_seed(seed, check.pid, g.name, slot))(test)
        try:
            test()
        except Violation:
            pass
        except Exception as e:
            if st["fail"] is None:
                raise
        if st["fail"] is not None and callable(g.shrink) and not st.get("hang"):
            case, msg = st["fail"]
            tend = time.time() + g.shrink_s
            progress = True
            while progress and time.time() < tend:
                progress = False
                for c in g.shrink(case):
                    if time.time() > tend:
                        break
                    info, m = _run_one(g, c, ctx)
                    if m is not None:
                        case, msg, progress = c, m, True
                        break
            st["fail"] = (case, msg)

    pipe.CAP = None
    q.put(("group", g.name, st["evals"], sorted(st["nt"]), st["labels"], st["samples"], st["skipped"],
           time.time() - t0))
    if st["fail"] is not None:
        q.put(("fail", g.name, st["fail"][0], st["fail"][1], bool(st.get("hang"))))
        if not g.racy:
            stop.set()


def _replay_proc(check, exes, gname, case, root, q):
    g = [x for x in check.groups if x.name == gname][0]
    ctx = Ctx(exes, root)
    os.makedirs(ctx.root, exist_ok=True)
    os.chdir(ctx.root)
    try:
        info, msg = _run_one(g, case, ctx)
        q.put(("ok", msg))
    except Exception:
        q.put(("error", traceback.format_exc()))
    finally:
        ctx.close()


def replay_once(check, exes, gname, case, root):
    m = mp.get_context("fork")
    q = m.Queue()
    p = m.Process(target=_replay_proc, args=(check, exes, gname, case, root, q))
    p.start()
    try:
        kind, msg = q.get(timeout=300)
    except queue.Empty:
        kind, msg = "ok", "no answer within 300 s"
        p.kill()
    p.join()
    shutil.rmtree(root, ignore_errors=True)
    if kind == "error":
        raise RuntimeError(msg)
    return msg


def load_known(pid):
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for l in f:
                l = l.strip()
                if l.startswith("open: property=%s " % pid):
                    out.append(l)
    except OSError:
        pass
    return out


def main(check, tier, replay=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    try:
        exes = {}
        for variant in sorted(set(v for _, v in check.targets)):
            names = [n for n, v in check.targets if v == variant]
            for n, p in B.build(names, variant).items():
                exes[(n, variant)] = p
    except B.BuildError as e:
        print("BUILD-ERROR property=%s\n%s" % (check.pid, e))
        return 2
    for n, v in check.optional:
        try:
            exes[(n, v)] = B.build([n], v)[n]
        except B.BuildError as e:
            print("not built: %s (%s), its cases are left out\n%s" % (n, v, str(e)[-600:]))
    for g in list(check.groups):
        if g.needs and g.needs not in exes:
            check.groups.remove(g)
            check.dropped.append(g.name)
    tb = time.time() - t0
    root = tempfile.mkdtemp(prefix="verif_%s_" % check.pid)
    try:
        if replay:
            with open(replay) as f:
                r = json.load(f)
            msg = replay_once(check, exes, r["group"], r["case"], os.path.join(root, "r"))
            if msg is None:
                print("the case passes")
                return 0
            print(msg)
            print("VIOLATION property=%s replay=%s" % (check.pid, replay))
            return 1
        return _main(check, tier, seed, exes, root, t0, tb)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _main(check, tier, seed, exes, root, t0, tb):
    m = mp.get_context("fork")
    q = m.Queue()
    stop = m.Event()
    deadline = time.time() + check.budget[0 if tier == "quick" else 1]
    procs = [m.Process(target=_worker, args=(check, exes, w, NWORK, tier, seed, deadline, stop, q, root))
             for w in range(NWORK)]
    for p in procs:
        p.start()
    live = set(range(NWORK))
    per, fails, errors = {}, [], []
    while live:
        try:
            r = q.get(timeout=5)
        except queue.Empty:
            for w in list(live):
                if not procs[w].is_alive():
                    live.discard(w)
                    if procs[w].exitcode:
                        errors.append("worker %d died with %s" % (w, procs[w].exitcode))
            continue
        if r[0] == "done":
            live.discard(r[1])
        elif r[0] == "error":
            errors.append(r[1])
        elif r[0] == "fail":
            fails.append(r[1:])
        else:
            _, name, ev, nt, labels, samples, skipped, dt = r
            d = per.setdefault(name, {"evaluations": 0, "nt": set(), "labels": {}, "samples": [], "skipped": 0, "s": 0.0})
            d["evaluations"] += ev
            d["nt"].update(nt)
            d["skipped"] += skipped
            d["s"] = max(d["s"], dt)
            for k, v in labels.items():
                d["labels"][k] = d["labels"].get(k, 0) + v
            if len(d["samples"]) < 2:
                d["samples"] += samples[:1]
    for p in procs:
        p.join()

    violations, unrepro = [], []
    seen = set()
    gmap = {g.name: g for g in check.groups}
    for gname, case, msg, hang in sorted(fails, key=lambda f: (f[3], f[0], len(_jdump(f[1])))):
        if gname in seen or hang and violations:
            continue
        g = gmap[gname]
        hits = 0
        replays = 1 if hang else g.replays
        for k in range(replays):
            mm = replay_once(check, exes, gname, case, os.path.join(root, "r%d" % k))
            if mm is not None:
                hits += 1
                msg = mm
        if hits == replays or (g.racy and hits > 0):
            seen.add(gname)
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            h = hashlib.sha256(_jdump(case).encode()).hexdigest()[:10]
            path = os.path.join(d, "%s-%s-%s.json" % (check.pid, gname, h))
            with open(path, "w") as f:
                json.dump({"property": check.pid, "group": gname, "case": case, "message": msg}, f, indent=1)
            violations.append((gname, msg, path))
        else:
            unrepro.append("%s: %s (replayed %d of %d)" % (gname, msg, hits, replays))

    ev = sum(d["evaluations"] for d in per.values())
    nt = sum(len(d["nt"]) for d in per.values())
    samples = []
    for g in check.groups:
        for s in per.get(g.name, {}).get("samples", []):
            samples.append({"group": g.name, "case": s})
    doc = {
        "property": check.pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": nt, "rule": check.rule, "samples": samples,
            "groups": {k: {"evaluations": d["evaluations"], "distinct_nontrivial": len(d["nt"]),
                           "labels": d["labels"], "skipped_at_time_budget": d["skipped"],
                           "wall_s": round(d["s"], 2)} for k, d in sorted(per.items())},
            "not_reproduced": unrepro, "left_out": check.dropped, "build_s": round(tb, 2),
        },
        "assumptions": check.assumptions,
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check.pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    for k, d in sorted(per.items()):
        print("%-28s %6d cases, %6d non-trivial, %5.1f s%s" % (
            k, d["evaluations"], len(d["nt"]), d["s"], " (%d skipped at the time budget)" % d["skipped"] if d["skipped"] else ""))
    for u in unrepro:
        print("not reproduced: " + u[:1000])
    for l in load_known(check.pid):
        key = l.split("key=")[1].split()[0] if "key=" in l else None
        fn = check.known.get(key)
        ctx = Ctx(exes, os.path.join(root, "known"))
        os.makedirs(ctx.root, exist_ok=True)
        try:
            if fn is not None and fn(ctx):
                print("KNOWN-FINDING: property=%s %s" % (check.pid, l.split(" ", 2)[2]))
        finally:
            ctx.close()
    for gname, msg, path in violations:
        print("%s: %s" % (gname, msg[:2000]))
        print("VIOLATION property=%s replay=%s" % (check.pid, path))
    if violations:
        return 1
    if errors:
        print("\n".join(errors))
        return 2
    return 0
