"""Orchestration of cases: this process never runs the library; every history and every reference
request runs in a process of its own, forked from a pristine one (zygote.py)."""
import copy, json, time
import core, driver, builder
from core import fork_call, Scratch, digest, diff_outcome, HarnessError

NON_CALL = ("edit", "cg", "scribble", "scribble_owned", "put", "mkdir", "unlink", "drop", "rebuild", "chdir", "alter")


class Stats:
    def __init__(self):
        self.d = {"evaluations": 0, "refs": 0, "lines": 0, "work": 0, "clock_reads": 0, "requests": 0,
                  "faults": {}, "keys": set(), "switches": 0, "ops": {}, "outcomes": {}}

    def add_case_stats(self, st):
        self.d["lines"] += st.get("lines", 0)
        self.d["clock_reads"] += st.get("clock", 0)
        self.d["switches"] += st.get("switches", 0)
        for k, v in st.get("fs", {}).items():
            if k.startswith("fault_"):
                self.fault("io:" + k[6:], v)

    def fault(self, kind, n=1):
        self.d["faults"][kind] = self.d["faults"].get(kind, 0) + n

    def rec(self, r):
        if "out" not in r:
            return
        self.d["requests"] += 1
        self.d["ops"][r["op"]] = self.d["ops"].get(r["op"], 0) + 1
        o = r["out"]
        k = o[0] if o[0] != "exc" else "exc:" + o[1]
        self.d["outcomes"][k] = self.d["outcomes"].get(k, 0) + 1
        self.d["work"] += r.get("n", {}).get("work", 0)
        for f in r.get("fired") or ():
            kind = f.split("@")[0].split("#")[0]
            if "@line" in f:
                self.fault("line:" + kind)
            elif "#" in f:
                self.fault("seam:" + kind)

    def key(self, *parts):
        self.d["keys"].add(digest(*parts))


_cache = {}


def run_child(fn, case, *args, timeout=240.0):
    with Scratch() as root:
        c = dict(case)
        c["_root"] = root
        return fork_call(fn, c, *args, timeout=timeout)


def reset_cache():
    _cache.clear()


def resolve(step, pool):
    st = {k: v for k, v in step.items() if k not in ("fault", "snap", "watch", "keep", "id")}
    for k in ("aero", "ctl", "prop", "L", "M", "W"):
        if isinstance(st.get(k), str):
            st[k] = copy.deepcopy(pool[st[k]])
    st["m"] = 0
    return st


def ref(spec, step, stats=None, trace=False, env=None, extra_steps=()):
    """The answer of a freshly built model in a fresh process, with nothing on its disk but the input."""
    step = {k: v for k, v in step.items() if k != "prior"}
    key = digest(spec, step, trace, env, list(extra_steps))
    if key not in _cache:
        case = {"planes": [spec], "models": [{"plane": 0}], "pool": {}, "steps": list(extra_steps) + [step]}
        if env:
            case["env"] = env
        recs, st = run_child(driver.run_history, case, trace)
        _cache[key] = recs[-1]
        if stats:
            stats.d["refs"] += 1
    return _cache[key]


def ref_many(spec, steps, stats=None):
    """Individual requests, each on its own freshly built model, in one fresh process."""
    case = {"planes": [spec], "models": [{"plane": 0} for _ in steps], "pool": {},
            "steps": [dict(s, m=i) for i, s in enumerate(steps)]}
    recs, st = run_child(driver.run_history, case)
    if stats:
        stats.d["refs"] += len(steps)
    return recs


def run_interpreter(case, how, timeout=240.0):
    """The history in a newly started interpreter with its own environment variables."""
    import os, pickle, subprocess, sys
    with Scratch() as root:
        c = dict(case)
        c["_root"] = root
        env = {k: v for k, v in os.environ.items() if k not in ("PYTHONHASHSEED", "LC_ALL", "LANG", "TZ", "MALLOC_PERTURB_", "HOME", "USER", "COLUMNS", "TMPDIR", "DEBUG", "HOSTNAME", "PWD", "PYTHONOPTIMIZE", "PYTHONUTF8", "PYTHONWARNINGS", "PYTHONDEVMODE", "PYTHONUNBUFFERED", "PYTHONINTMAXSTRDIGITS")}
        env.update(core.ENV)
        env.update(how["env"])
        cwd = os.path.join(root, how.get("start", "."))
        os.makedirs(cwd, exist_ok=True)
        try:
            p = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "fresh.py")],
                               input=pickle.dumps({"case": c, "rand": how["rand"], "gc": how.get("gc"), "settings": how.get("settings"), "machine": how.get("machine"), "argv": how.get("argv")}), stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, env=env, cwd=cwd, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise core.HarnessTimeout("interpreter exceeded %gs of wall time" % timeout)
        if not p.stdout:
            raise HarnessError("interpreter died without an answer")
        ok, val = pickle.loads(p.stdout)
        if not ok:
            raise HarnessError("interpreter failed: " + val)
        return val


class Mirror:
    """What the caller of a case believes: contents of its dictionaries, each airplane's cg."""

    def __init__(self, case):
        self.case = case
        self.pool = copy.deepcopy(case.get("pool", {}))
        self.cg = {}
        self.alt = {}

    def owner(self, m):
        d = self.case["models"][m]
        return ("plane", d["plane"]) if d.get("via") == "airplane" else ("model", m)

    def apply(self, st):
        if st["op"] == "edit":
            self.pool[st["ref"]][st["key"]] = st["val"]
        elif st["op"] == "alter":
            k = self.owner(st["m"])
            J = self.alt.get(k) or self.case["planes"][self.case["models"][st["m"]]["plane"]]["json"]
            self.alt[k] = builder.alter_json(J, st)
        elif st["op"] == "cg":
            k = self.owner(st["m"])
            cur = self.cg.get(k) or self.base_cg(st["m"])
            self.cg[k] = [c if v is None else v for c, v in zip(cur, st["xyz"])]

    def base_cg(self, m):
        p = self.case["planes"][self.case["models"][m]["plane"]]["json"]["plane"]
        return [p["CGx"], p["CGy"], p["CGz"]]

    def spec(self, m):
        s = self.case["planes"][self.case["models"][m]["plane"]]
        cg = self.cg.get(self.owner(m))
        alt = self.alt.get(self.owner(m))
        if alt:
            s = dict(s, json=alt)
        if cg:
            s = copy.deepcopy(s)
            s["json"]["plane"].update(CGx=cg[0], CGy=cg[1], CGz=cg[2])
        return s


def violation(kind, step, detail, **kw):
    return dict(kind=kind, step=step, detail=detail, **kw)


def describe(st, pool=None):
    d = {k: v for k, v in st.items() if k in ("op", "m", "L", "M", "W", "file", "fault", "error")}
    for k in ("aero", "ctl", "prop"):
        v = st.get(k)
        if isinstance(v, str) and pool is not None:
            v = pool.get(v)
        if v is not None:
            d[k] = v
    return json.dumps(d)


def body(step, data):
    """Output bytes that must be reproducible (an STL header carries a date)."""
    if data is None:
        return None
    f = step.get("file") or "plane.stl"
    return data[80:] if f.endswith("stl") else data


def walk(case, recs):
    """(step, record, mirror state before the step) in order."""
    mir = Mirror(case)
    for st, r in zip(case["steps"], recs):
        yield st, r, mir
        mir.apply(st)


# ------------------------------------------------------------------ minimisation
def minimise(prop, case, kind, runner, deadline):
    """Greedy delta debugging of a failing case; keeps the same kind of violation."""
    def fails(c):
        if time.monotonic() > deadline:
            return False
        reset_cache()
        try:
            vs, _ = runner(c)
        except HarnessError:
            return False
        except Exception:
            return False
        return any(v["kind"] == kind for v in vs)

    def shrink_list(get, put, case):
        lst = get(case)
        n = 2
        while len(lst) >= 1 and time.monotonic() < deadline:
            size = max(1, len(lst) // n)
            done = False
            for i in range(0, len(lst), size):
                cand = lst[:i] + lst[i + size:]
                if prop != "C05" and not cand:
                    continue
                c = put(copy.deepcopy(case), cand)
                if fails(c):
                    case, lst, done = c, cand, True
                    n = max(2, n - 1)
                    break
                if time.monotonic() > deadline:
                    return case
            if not done:
                if size == 1:
                    break
                n = min(len(lst), n * 2)
        return case

    def setter(path):
        def put(c, v):
            o = c
            for k in path[:-1]:
                o = o[k]
            o[path[-1]] = v
            return c
        return put

    def getter(path):
        def get(c):
            o = c
            for k in path:
                o = o[k]
            return o
        return get
    for k in ("schedule", "points"):
        if k in case:
            case = shrink_list(getter([k]), setter([k]), case)
    if "steps" in case:
        case = shrink_list(getter(["steps"]), setter(["steps"]), case)
        for i, st in enumerate(list(case["steps"])):
            for k in ("fault", "prior", "snap", "ctl", "prop", "aero", "file", "M", "error", "form", "scribble"):
                if k in case["steps"][i] and case["steps"][i][k] is not None:
                    c = copy.deepcopy(case)
                    c["steps"][i][k] = None
                    if k in ("fault", "snap", "file", "prior", "M", "error", "form"):
                        del c["steps"][i][k]
                    if fails(c):
                        case = c
    for ci in range(len(case.get("clients", ()))):
        case = shrink_list(getter(["clients", ci]), setter(["clients", ci]), case)
    if "schedule" in case:
        case = shrink_list(getter(["schedule"]), setter(["schedule"]), case)
    # airplane and dictionaries
    for pi in range(len(case.get("planes", ()))):
        for grp in ("propellers", "wings"):
            for name in list(case["planes"][pi]["json"].get(grp, {})):
                c = copy.deepcopy(case)
                gone = c["planes"][pi]["json"][grp].pop(name)
                if grp == "wings" and any(w["connect"]["ID"] == gone["ID"] for w in c["planes"][pi]["json"][grp].values()):
                    continue
                if any(m.get("build") for m in c.get("models", ())):
                    continue
                if not c["planes"][pi]["json"][grp]:
                    del c["planes"][pi]["json"][grp]
                if (c["planes"][pi]["json"].get("wings") or c["planes"][pi]["json"].get("propellers")) and fails(c):
                    case = c
    for ref_ in list(case.get("pool", {})):
        for key in list(case["pool"][ref_]):
            c = copy.deepcopy(case)
            del c["pool"][ref_][key]
            if fails(c):
                case = c
    used = json.dumps([case.get("steps"), case.get("clients")])
    if "pool" in case:
        c = copy.deepcopy(case)
        c["pool"] = {k: v for k, v in c["pool"].items() if '"%s"' % k in used}
        if fails(c):
            case = c
    return case
