#!/usr/bin/env python3
"""Deterministic-simulation check of one property.

    check.py C01 [--tier quick|thorough] [--seed N] [--runs N] [--jobs N]
    check.py C01 --replay FILE

Exit 0: the property held on every simulated run. Exit 1: `VIOLATION property=<id> replay=<path>`.
Exit 2: the check could not decide (harness failure).
"""
import os, sys, json, time, signal, select, pickle, argparse, copy, shutil, re

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "dst"))
for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True

import core, engine
from core import HarnessError, HarnessTimeout

QUICK_CAP, THOROUGH_CAP = 420.0, 7200.0
CASE_TIMEOUT = 240.0


# ------------------------------------------------------------------ workers
def worker(prop, tier, seed, rfd, wfd):
    """Reads run numbers, executes them, writes pickled results."""
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    inp = os.fdopen(rfd, "rb", buffering=0)
    while True:
        line = inp.read(8)
        if not line or len(line) < 8:
            break
        i = int.from_bytes(line, "little")
        res = one_run(prop, tier, seed, i)
        data = pickle.dumps(res, protocol=4)
        os.write(wfd, len(data).to_bytes(8, "little"))
        view = memoryview(data)
        while view:
            n = os.write(wfd, view[:1 << 16])
            view = view[n:]
    os._exit(0)


def one_run(prop, tier, seed, i):
    stats = engine.Stats()
    engine.reset_cache()
    case = None
    t0 = time.monotonic()
    try:
        case = prop.generate(seed, i, tier, stats)
        vs = prop.run(case, stats)
        stats.d["evaluations"] += 1
        err = None
    except HarnessTimeout as e:
        vs, err = [], "timeout: %s" % e
    except Exception as e:
        import traceback
        vs, err = [], "%r\n%s" % (e, traceback.format_exc()[-3000:])
    log = None
    if vs and case is not None:
        log = case.pop("_log", None)
    return {"i": i, "stats": stats.d, "violations": vs, "error": err, "log": log,
            "case": case if (vs or err or i < 2) else None, "t": time.monotonic() - t0}


class Pool:
    def __init__(self, prop, tier, seed, jobs):
        self.w = []
        for _ in range(jobs):
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                for a in self.w:
                    os.close(a["in"])
                    os.close(a["out"])
                os.close(w1)
                os.close(r2)
                try:
                    worker(prop, tier, seed, r1, w2)
                finally:
                    os._exit(1)
            os.close(r1)
            os.close(w2)
            self.w.append({"pid": pid, "in": w1, "out": r2, "buf": b"", "busy": None, "dead": False})

    def give(self, a, i):
        os.write(a["in"], i.to_bytes(8, "little"))
        a["busy"] = i

    def poll(self, timeout):
        live = [a for a in self.w if not a["dead"]]
        rd, _, _ = select.select([a["out"] for a in live], [], [], timeout)
        done = []
        for a in live:
            if a["out"] in rd:
                b = os.read(a["out"], 1 << 20)
                if not b:
                    a["dead"] = True
                    done.append((a, {"i": a["busy"], "stats": None, "violations": [], "error": "worker died", "case": None, "log": None, "t": 0}))
                    a["busy"] = None
                    continue
                a["buf"] += b
                while len(a["buf"]) >= 8:
                    n = int.from_bytes(a["buf"][:8], "little")
                    if len(a["buf"]) < 8 + n:
                        break
                    res = pickle.loads(a["buf"][8:8 + n])
                    a["buf"] = a["buf"][8 + n:]
                    a["busy"] = None
                    done.append((a, res))
        return done

    def close(self):
        for a in self.w:
            try:
                os.close(a["in"])
            except OSError:
                pass
        for a in self.w:
            if a["busy"] is not None or not a["dead"]:
                try:
                    os.killpg(a["pid"], signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
            try:
                os.waitpid(a["pid"], 0)
            except ChildProcessError:
                pass


def merge(total, d):
    for k, v in d.items():
        if isinstance(v, set):
            total.setdefault(k, set()).update(v)
        elif isinstance(v, dict):
            t = total.setdefault(k, {})
            for a, b in v.items():
                t[a] = max(t.get(a, 0), b) if k.startswith("max_") else t.get(a, 0) + b
        else:
            total[k] = total.get(k, 0) + v


# ------------------------------------------------------------------ known findings
def known_findings():
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)", line.strip())
                if m:
                    out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    except OSError:
        pass
    return out


def split_known(prop, vs, known, seen):
    out = []
    for v in vs:
        for pid, rx, what in known:
            if pid == prop.id and rx.search(v["kind"] + ": " + v["detail"]):
                seen.add(what)
                break
        else:
            out.append(v)
    return out


# ------------------------------------------------------------------ main
def execute(prop, case):
    st = engine.Stats()
    engine.reset_cache()
    return prop.run(copy.deepcopy(case), st), st


def finish(prop, res, tier, seed, deadline):
    """Minimise the failing run and write its replay file."""
    case = res["case"]
    kind = res["violations"][0]["kind"]
    if res.get("log") is not None and "clients" in case:
        case["schedule"] = res["log"]
    orig = copy.deepcopy(case)

    def runner(c):
        return execute(prop, c)
    small = engine.minimise(prop.id, case, kind, runner, deadline)
    vs, again = [], []
    for cand in (small, orig):
        try:
            vs, _ = execute(prop, cand)
            again, _ = execute(prop, cand)
        except HarnessError:
            continue
        hit = [v for v in vs if v["kind"] == kind]
        if hit:
            small = cand
            break
    else:
        hit = res["violations"]
    d = os.path.join(HERE, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-seed%d-run%d.json" % (prop.id, seed, res["i"]))
    small = {k: v for k, v in small.items() if not k.startswith("_")}
    with open(path, "w") as f:
        json.dump({"property": prop.id, "seed": seed, "run": res["i"], "tier": tier, "kind": kind,
                   "violation": hit[0], "reproduced_identically": vs == again and bool(vs), "case": small}, f, indent=1, default=str)
    return path, hit[0]


def replay(prop, path):
    with open(path) as f:
        d = json.load(f)
    vs, st = execute(prop, d["case"])
    hit = [v for v in vs if v["kind"] == d["kind"]] or vs
    for v in hit[:5]:
        print("%s at step %s: %s" % (v["kind"], v["step"], v["detail"]))
    if hit:
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    print("not reproduced")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("DST_JOBS") or 0) or min(8, os.cpu_count() or 1))
    ap.add_argument("--cap", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--keep-going", action="store_true", help="report every failing run, do not minimise")
    a = ap.parse_args()
    t0 = time.monotonic()
    core.import_sut()
    import props
    prop = props.PROPS[a.prop]()
    root = core.scratch_root()
    try:
        if a.replay:
            return replay(prop, a.replay)
        return search(prop, a, t0)
    finally:
        if os.path.basename(root).startswith("dst-"):
            shutil.rmtree(root, ignore_errors=True)


def search(prop, a, t0):
    n = a.runs or (prop.quick if a.tier == "quick" else prop.thorough)
    cap = a.cap or (QUICK_CAP if a.tier == "quick" else THOROUGH_CAP)
    total, errors, failing, samples, known_seen = {}, [], [], [], set()
    known = known_findings()
    pool = Pool(prop, a.tier, a.seed, a.jobs)
    nxt, last, done, slow = a.first, a.first + n, 0, []
    stop = False
    try:
        for w in pool.w:
            if nxt < last:
                pool.give(w, nxt)
                nxt += 1
        while any(w["busy"] is not None for w in pool.w):
            for w, res in pool.poll(1.0):
                done += 1
                slow.append((res["t"], res["i"]))
                if res["stats"]:
                    merge(total, res["stats"])
                if res["error"]:
                    errors.append((res["i"], res["error"]))
                    if a.keep_going:
                        print("HARNESS run %d: %s" % (res["i"], res["error"]), file=sys.stderr)
                vs = split_known(prop, res["violations"], known, known_seen)
                if vs:
                    res["violations"] = vs
                    failing.append(res)
                    if a.keep_going:
                        print("run %d: %s" % (res["i"], "; ".join("%s@%s %s" % (v["kind"], v["step"], v["detail"][:400]) for v in vs[:2])))
                    else:
                        stop = True
                if res["case"] is not None and len(samples) < 2 and not vs:
                    samples.append(sample(res["case"]))
                if time.monotonic() - t0 > cap:
                    stop = True
                if nxt < last and not stop and not w["dead"]:
                    pool.give(w, nxt)
                    nxt += 1
    finally:
        pool.close()
    wall_search = time.monotonic() - t0
    for what in sorted(known_seen):
        print("KNOWN-FINDING: property=%s %s" % (prop.id, what))
    code = 0
    if failing:
        failing.sort(key=lambda r: r["i"])
        if a.keep_going:
            code = 1
        else:
            path, v = finish(prop, failing[0], a.tier, a.seed, time.monotonic() + (90 if a.tier == "quick" else 600))
            print("%s at step %s of run %d (seed %d): %s" % (v["kind"], v["step"], failing[0]["i"], a.seed, v["detail"]))
            print("VIOLATION property=%s replay=%s" % (prop.id, path))
            code = 1
    evidence(prop, a, total, done, errors, failing, samples, wall_search, t0)
    slow.sort(reverse=True)
    print("%s: %d runs, %d requests, %d fresh-model references, %d library lines traced, %d work units, %.1f s%s; slowest %s" % (
        prop.id, total.get("evaluations", 0), total.get("requests", 0), total.get("refs", 0), total.get("lines", 0),
        total.get("work", 0), wall_search, ", %d UNDECIDED" % len(errors) if errors else "", [(round(t, 1), i) for t, i in slow[:3]]))
    if code == 0 and errors:
        # no answer for some runs: do not claim that the property held on them
        for i, e in errors[:3]:
            print("run %d not decided: %s" % (i, e), file=sys.stderr)
        if len(errors) > max(2, done // 50):
            code = 2
    return code


def sample(case):
    c = {k: v for k, v in case.items() if not k.startswith("_")}
    s = json.dumps(c, default=str)
    return c if len(s) < 30000 else s[:30000]


REAL = ["machup (MU.py, llmodel.py, propmodel.py, propssolver.py, geometry.py): all of it, from the working tree of /repo",
        "numpy (linear algebra, arrays), scipy, numpy-stl, json, the kernel's file system below a scratch directory"]
STUB = ["scheduling of client threads (cooperative scheduler, seeded)", "file operations' failures, short writes and lost data (simulated layer over real scratch files)",
        "time.time/datetime clock (simulated, with jumps)", "np.linalg.solve/inv and array-allocation failures", "interrupts and memory errors at chosen library lines",
        "no matplotlib display (Agg)"]


def evidence(prop, a, total, done, errors, failing, samples, wall, t0):
    keys = total.get("keys", set())
    h = wall / 3600.0
    cov = {
        "evaluations": total.get("evaluations", 0),
        "distinct_nontrivial": len(keys),
        "rule": prop.rule,
        "samples": samples,
        "runs_per_hour": round(done / h) if h else 0,
        "seeds_per_hour": round(done / h) if h else 0,
        "seed_space": "run i of seed s is the PRNG stream ('case', property, s, i); runs %d..%d" % (a.first, a.first + done - 1),
        "requests_executed": total.get("requests", 0),
        "reference_requests_in_fresh_processes": total.get("refs", 0),
        "simulated_time": {"library_lines_traced": total.get("lines", 0), "library_work_units_counted": total.get("work", 0),
                           "simulated_clock_reads": total.get("clock_reads", 0),
                           "note": "the library has no timers; simulated time is its own executed lines/calls, the clock is only read"},
        "faults_injected": dict(sorted(total.get("faults", {}).items())),
        "requests_by_kind": dict(sorted(total.get("ops", {}).items())),
        "outcomes": dict(sorted(total.get("outcomes", {}).items())),
        "thread_switches": total.get("switches", 0),
        "undecided_runs": len(errors),
        "distinct_states_measure": "distinct_nontrivial counts distinct keys as described in rule",
        "real_components": REAL, "stubbed_components": STUB,
    }
    for k, v in total.items():
        if k.startswith("max_") or k.startswith("x_"):
            cov[k] = v if not isinstance(v, set) else len(v)
    ev = {"property": prop.id, "tier": a.tier, "seed": a.seed, "level": prop.level, "coverage": cov,
          "assumptions": ["the reference answer is the library's own answer in a freshly built model in a fresh process, or an identity, brute-force recomputation or table stated in DESIGN.md",
                          "exploration: only the seeded runs counted here were examined",
                          "CPython and numpy themselves are trusted"] + list(getattr(prop, "assumptions", [])),
          "wall_s": round(time.monotonic() - t0, 2), "violations": len(failing)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop.id + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    sys.exit(main())
