"""Runs inside a forked child: one simulated world with the real library in it."""
import os, sys, json, copy, gc, threading
import core, procstate
from core import decode, canon, exact
from inject import Tracer, Scheduler, StepBudget, EXC
from simfs import FS, SimClock, _os
from budget import Budget


class LinalgFault(Exception):
    pass


class Seams:
    """np.linalg.solve / inv and array allocation as seen by library code: counted, and
    failing at a chosen call."""
    ALLOC = ["zeros", "empty", "ones", "array", "zeros_like", "empty_like", "full_like", "copy"]

    def __init__(self, garbage):
        self.garbage = garbage
        self.begin()

    def begin(self, fault=None, limit=None):
        self.n = {"solve": 0, "inv": 0, "alloc": 0}
        self.fault = fault
        self.limit = limit
        self.fired = []

    def _hit(self, what):
        self.n[what] += 1
        f = self.fault
        if f and f["fn"] == what and self.n[what] == f["n"]:
            self.fired.append("%s#%d" % (what, f["n"]))
            return True
        return False

    def install(self):
        import numpy as np
        for fn in ("solve", "inv"):
            def make(real, fn):
                def wrapped(*a, **k):
                    if not sys._getframe(1).f_code.co_filename.startswith(core.MACHUP_DIR):
                        return real(*a, **k)
                    if self._hit(fn):
                        raise np.linalg.LinAlgError("injected: Singular matrix")
                    if fn == "solve" and self.limit is not None and self.n["solve"] > self.limit:
                        self.limit += 20
                        raise StepBudget("more than the allowed number of linear solves")
                    return real(*a, **k)
                return wrapped
            setattr(np.linalg, fn, make(getattr(np.linalg, fn), fn))
        for fn in self.ALLOC:
            def make(real, fill):
                def wrapped(*a, **k):
                    if not sys._getframe(1).f_code.co_filename.startswith(core.MACHUP_DIR):
                        return real(*a, **k)
                    if self._hit("alloc"):
                        raise MemoryError("injected: allocation failed")
                    v = real(*a, **k)
                    if fill and v.dtype.kind == "f":
                        # what the allocator hands out is decided here, not by the heap's past
                        v.fill(self.garbage * (1 + self.n["alloc"] % 7))
                    return v
                return wrapped
            setattr(np, fn, make(getattr(np, fn), fn.startswith("empty")))


# ------------------------------------------------------------------ building airplanes
def write_plane(indir, name, spec, raw_json=None):
    """Input files of one airplane; table names are resolved to paths in the world's in/."""
    J = copy.deepcopy(spec["json"])
    for p in J.get("propellers", {}).values():
        for k in ("pitch", "chord"):
            if isinstance(p.get(k), dict) and p[k].get("type") == "from_file":
                p[k]["filename"] = os.path.join(indir, name + "." + p[k]["filename"])
    for f, text in spec.get("tables", {}).items():
        put(os.path.join(indir, name + "." + f), text.encode())
    path = os.path.join(indir, name + ".json")
    put(path, json.dumps(J, indent=spec.get("indent", 1), ensure_ascii=not spec.get("raw")).encode("utf-8"))
    return path


def put(path, data):
    os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
    fd = _os["open"](path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    try:
        while data:
            n = _os["write"](fd, data)
            data = data[n:]
    finally:
        _os["close"](fd)


def seeks_speed(prop):
    return isinstance(prop, dict) and any(
        k in ("brake_power", "electric_throttle") or seeks_speed(v) for k, v in prop.items())


def budget_for(spec, step, prop=None):
    """Work and linear-solve limits a terminating request stays far below."""
    mult = {"target_lift": 24, "derivatives": 18, "stability_derivatives": 4, "control_derivatives": 8,
            "damping_derivatives": 6, "pitch_trim": 920, "stall_onset": 905, "find_aero_center": 405,
            "stall_airspeed": 905 * 55}.get(step["op"], 2)
    if step.get("mult"):
        mult = step["mult"]
    n = len(spec["json"].get("propellers", {}))
    nodes = sum(p["radial_nodes"] for p in spec["json"].get("propellers", {}).values())
    points = sum(w["grid"] * 2 for w in spec["json"].get("wings", {}).values())
    # room for code that loops over sections instead of using whole arrays
    per = (600 if step["op"] == "stall_airspeed" else 2500) + n * (4000 + 2 * nodes + 2 * points)
    if n and seeks_speed(prop):
        per += 101 * 4000 * n
    extra = 10 ** 6 if step["op"] == "create_stl" else 20000
    return mult * per + extra, 4 * mult + 30


class World:
    def __init__(self, root, case, env=None):
        self.root = os.path.realpath(root)
        self.case = case
        self.indir, self.outdir = os.path.join(self.root, "in"), os.path.join(self.root, "out")
        for d in (self.indir, self.outdir):
            os.makedirs(d, exist_ok=True)
        self.env = env or case.get("env") or {}
        cwd = os.path.join(self.root, self.env.get("cwd", "out"))
        os.makedirs(cwd, exist_ok=True)
        os.chdir(cwd)
        self.paths = []
        self.solvers = {}
        for i, spec in enumerate(case["planes"]):
            # input files named relative to the working directory, or absolutely
            base = os.path.relpath(self.indir) if case.get("relin") else self.indir
            self.paths.append(write_plane(base, "plane%d" % i, spec))
        for i, d in enumerate(case["models"]):
            if d.get("base"):
                write_plane(self.indir, "base%d" % i, d["base"])
        self.fs = FS(self.root)
        self.fs.install()
        self.clock = SimClock(self.env.get("clock", 1.0e9), self.env.get("jumps", ()))
        self.clock.install()
        self.seams = Seams(self.env.get("garbage", 77.0 if len(case.get("steps", ())) == 1 else -3.3))
        self.seams.install()
        self.budget = Budget()
        self.budget.install()
        self.MU = sys.modules["machup.MU"]
        self.models = {}
        self.airplanes = {}
        self.makers = {}
        self.altered = None     # how building or using a model altered its airplane
        self.pool = {k: decode(v) for k, v in case.get("pool", {}).items()}
        self.pspec = copy.deepcopy(case.get("pool", {}))
        self.results = []       # (step index, live result, snapshot)
        self.lines = 0

    # -- models
    def spec_of(self, m):
        return self.case["planes"][self.case["models"][m]["plane"]]

    def modelled(self, a, fn):
        """fn(), noting whether it altered the airplane `a`."""
        if not self.case.get("describe"):
            return fn()
        import builder
        before = builder.describe(a)
        try:
            return fn()
        finally:
            self.altered = self.altered or builder.altered(before, a)

    def build(self, m):
        d = self.case["models"][m]
        via = d.get("via", "file")
        if via == "file":
            return self.MU.MachUp(self.paths[d["plane"]])
        if via == "airplane":
            key = d["plane"]
            if key not in self.airplanes:
                from machup import Airplane
                self.airplanes[key] = Airplane(inputfile=self.paths[key])
            return self.modelled(self.airplanes[key], lambda: self.MU.MachUp(inputAirplane=self.airplanes[key]))
        if via == "api":
            import builder
            a = builder.Assembler(self.indir)
            a.watch = self.case.get("describe")
            a.run(d["build"])
            self.altered = self.altered or a.altered
            self.airplanes[("api", m)] = a.plane
            self.owned = getattr(self, "owned", [])
            self.owned.append(a.owned)
            self.makers[m] = a
            return self.modelled(a.plane, lambda: self.MU.MachUp(inputAirplane=a.plane))
        raise KeyError(via)

    def model(self, m):
        if m not in self.models:
            self.models[m] = self.build(m)
        return self.models[m]

    # -- calls
    def args(self, step):
        out = []
        for k in ("aero", "ctl", "prop"):
            v = step.get(k)
            if isinstance(v, str):
                v = self.pool[v]
            elif v is not None:
                v = decode(v)
            out.append(v)
        return out

    def target_value(self, v):
        return self.pool[v] if isinstance(v, str) else decode(v)

    def path_of(self, step):
        f = step.get("file")
        if f is None:
            return None
        return f if step.get("rel") else os.path.join(self.outdir, f)

    def target(self, step):
        """Absolute path the request should write to, or None."""
        if step["op"] == "create_stl" and step.get("file") is None:
            return os.path.join(os.getcwd(), "plane.stl")
        f = self.path_of(step)
        return None if f is None else os.path.join(os.getcwd(), f)

    def call(self, model, step):
        op = step["op"]
        aero, ctl, prop = self.args(step)
        f = self.path_of(step)
        form = step.get("form", "kw")
        if op == "ll_solve":
            ll = self.solver(model, step) if step.get("solver") else model.myllmodel
            if form == "omit":
                kw = {k: v for k, v in (("aero_state", aero), ("control_state", ctl)) if v is not None}
                return ll.solve("linear", **kw)
            return ll.solve("linear", aero, ctl)
        if op == "props_solve":
            pr = self.solver(model, step) if step.get("solver") else model.myprops
            if form == "omit" and prop is None:
                return pr.solve(aero)
            return pr.solve(aero, prop)
        if op == "create_stl":
            return model.create_stl(f) if f is not None else model.create_stl()
        fn = getattr(model, op)
        pre = []
        if op in ("target_lift", "pitch_trim"):
            pre = [self.target_value(step["L"])]
        elif op == "stall_airspeed":
            pre = [self.target_value(step["W"])]
        kw = {}
        if op == "pitch_trim":
            if form == "pos":
                pre.append(self.target_value(step.get("M", 0.0)))
            elif "M" in step:
                kw["m_target"] = self.target_value(step["M"])
        if "error" in step:
            kw["error"] = step["error"]
        if form == "pos":
            pre += [aero, ctl, prop]
        else:
            for k, v in (("aero_state", aero), ("control_state", ctl), ("prop_state", prop)):
                if v is not None or form != "omit":
                    kw[k] = v
        if f is not None:
            if form == "pos" and "error" not in kw:
                pre.append(f)
            else:
                kw["filename"] = f
        return fn(*pre, **kw)

    def solver(self, model, step):
        """A wing or propeller solver the caller made for itself from the airplane of a model."""
        key = (step["m"], step["op"], step["solver"])
        if key in self.solvers and self.solvers[key][0] is model:
            return self.solvers[key][1]
        import machup
        if step["op"] == "ll_solve":
            s = machup.LLModel(model.myairplane, cosine_spacing=False) if step["solver"] == "even" else machup.LLModel(model.myairplane)
        elif step["solver"] == "alone" or not hasattr(model, "myllmodel"):
            s = machup.PropsSolver(model.myairplane, None)
        else:
            s = machup.PropsSolver(model.myairplane, model.myllmodel._grid.get_control_point_pos())
        self.solvers[key] = (model, s)
        return s

    def settle_pool(self):
        """Restore caller dictionaries to what the caller believes they hold."""
        bad = None
        for k, v in self.pool.items():
            want = decode(self.pspec[k])
            if not exact(v, want):
                bad = bad or "%s holds %.200r, the caller left %.200r" % (k, v, want)
                if isinstance(v, dict):
                    v.clear()
                    v.update(want)
                elif hasattr(v, "shape"):
                    v[...] = want
        return bad

    def tree(self):
        t = {}
        for d in (self.root,):
            for b, ds, fs in os.walk(d):
                for f in fs:
                    p = os.path.join(b, f)
                    t[os.path.relpath(p, self.root)] = self.fs.read_raw(p)
                for f in ds:
                    t[os.path.relpath(os.path.join(b, f), self.root) + "/"] = b""
        return t

    def guarded(self, fn, fault=None, trace=False, step=None, spec=None, sched=None):
        """Run fn() as one request under the simulator; outcome, counts and fired faults."""
        fired = []
        kind = fault["kind"] if fault else None
        io = fault["plan"] if kind == "io" else None
        snap = None
        if step is not None and step.get("snap"):
            snap = self.target(step)
            snap = snap if snap.endswith("json") else None
        self.fs.begin(io, snap)
        work, solves = (10 ** 7, None) if step is None else budget_for(spec, step, self.args(step)[2])
        self.seams.begin(fault if kind == "seam" else None, solves)
        tr = Tracer()
        if kind == "line":
            tr.begin(None, fault["at"], fault["exc"])
        self.budget.begin(work)
        try:
            if kind == "line" or trace:
                with tr:
                    val = fn()
            else:
                val = fn()
            out = ("ok", val)
        except StepBudget as e:
            out = ("budget", str(e))
        except BaseException as e:
            out = ("exc", type(e).__name__, str(e))
            tb = e.__traceback__
            e.__traceback__ = None
            e.__context__ = None
            del tb
        n = self.budget.end()
        if self.budget.hit and out[0] != "budget":
            out = ("budget", "swallowed")
        if tr.fired is not None:
            fired.append("%s@line%d" % (fault["exc"], tr.fired))
        fired += self.seams.fired + self.fs.fired
        self.fs.plan = {}
        self.seams.fault = None
        self.seams.limit = None
        self.lines += tr.count
        return out, fired, {"work": n, "lines": tr.count, **self.seams.n}

    def run_step(self, i, step, trace=False):
        op = step["op"]
        rec = {"i": i, "op": op}
        if op == "edit":
            d = self.pool.get(step["ref"])
            self.pspec[step["ref"]][step["key"]] = step["val"]
            d[step["key"]] = decode(step["val"])
            return rec
        if op == "cg":
            a = self.airplane_of(step["m"])
            a.cg_location(*step["xyz"]) if step.get("pos") else a.cg_location(
                **{k: v for k, v in zip(("x_coord", "y_coord", "z_coord"), step["xyz"]) if v is not None})
            return rec
        if op == "scribble":
            for j, val, snap in self.results:
                if j == step["of"]:
                    scribble(val)
            self.results = [r for r in self.results if r[0] != step["of"]]
            return rec
        if op == "scribble_owned":
            for o in getattr(self, "owned", []):
                scribble(o)
            return rec
        if op == "put":
            put(os.path.join(self.root, step["path"]), step["text"].encode())
            return rec
        if op == "mkdir":
            os.makedirs(os.path.join(self.root, step["path"]), exist_ok=True)
            return rec
        if op == "chdir":
            os.makedirs(os.path.join(self.root, step["to"]), exist_ok=True)
            os.chdir(os.path.join(self.root, step["to"]))
            return rec
        if op == "unlink":
            p = os.path.join(self.root, step["path"])
            if os.path.isfile(p):
                os.unlink(p)
            return rec
        if op == "rebuild":
            # another model of the airplane object the model was built from
            m = self.model(step["m"])
            self.models[step["m"]] = self.modelled(m.myairplane, lambda: self.MU.MachUp(inputAirplane=m.myairplane))
            rec["altered"], self.altered = self.altered, None
            return rec
        if op == "alter":
            # the airplane of an existing model is edited, then modelled again
            import builder
            m = self.model(step["m"])
            a = self.makers.get(step["m"])
            if a is None:
                a = self.makers[step["m"]] = builder.Assembler(self.indir)
                a.plane = m.myairplane
            a.run(step["cmds"])
            self.models[step["m"]] = self.modelled(m.myairplane, lambda: self.MU.MachUp(inputAirplane=m.myairplane))
            rec["altered"], self.altered = self.altered, None
            return rec
        if op == "drop":
            self.models.pop(step["m"], None)
            self.solvers.clear()
            gc.collect()
            return rec
        if op == "build":
            self.models.pop(step["m"], None)
            before = self.tree()
            out, fired, n = self.guarded(lambda: self.model(step["m"]) and None, step.get("fault"), trace)
            rec.update(out=out, fired=fired, n=n, opened=list(self.fs.opened), outside=list(self.fs.outside_writes),
                       handles=self.fs.open_handles(), pool=self.settle_pool(),
                       touched=diff_tree(before, self.tree(), None))
            return rec
        if op == "attrs":
            m = self.model(step["m"])
            rec["out"] = ("ok", {k: canon(getattr(m, k, None)) for k in ("Sw", "lat_ref", "long_ref")})
            return rec
        # analyses
        spec = self.spec_of(step["m"])
        if step["m"] not in self.models:
            self.fs.begin()
            try:
                self.model(step["m"])
            except Exception as e:
                rec["out"] = ("exc", "build:" + type(e).__name__, str(e))
                return rec
        tgt = self.target(step)
        watch = step.get("watch") or tgt is not None
        if tgt and "prior" in step:
            if step["prior"] is None:
                if os.path.isfile(tgt):
                    os.unlink(tgt)
            else:
                put(tgt, step["prior"].encode())
        before = self.tree() if watch else None
        model = self.models[step["m"]]
        if step.get("solver"):
            try:
                self.solver(model, step)
            except Exception:      # meets it again in the request
                pass
        out, fired, n = self.modelled(model.myairplane, lambda: self.guarded(lambda: self.call(model, step), step.get("fault"), trace, step, spec))
        rec["altered"], self.altered = self.altered, None
        rec.update(fired=fired, n=n, pool=self.settle_pool())
        live = None
        if out[0] == "ok":
            live = out[1]
            out = ("ok", canon(live))
        rec["out"] = out
        rec["stale"] = self.check_stale()
        if live is not None and step.get("keep", True):
            self.results.append((step.get("id", i), live, copy.deepcopy(live)))
        rec["outside"] = list(self.fs.outside_writes)
        rec["opened"] = list(self.fs.opened)
        rec["handles"] = self.fs.open_handles()
        if watch:
            after = self.tree()
            rel = os.path.relpath(tgt, self.root) if tgt else None
            rec["file"] = after.get(rel) if rel else None
            rec["before"] = before.get(rel) if rel else None
            rec["touched"] = diff_tree(before, after, rel)
            if step.get("snap"):
                rec["snaps"] = [(c, s) for c, s in self.fs.snapshots]
                rec["snap_count"] = self.fs.snap_count
        return rec

    def airplane_of(self, m):
        return self.models[m].myairplane

    def check_stale(self):
        for j, val, snap in self.results:
            if not exact(val, snap):
                # report once, then accept the new contents
                self.results = [(a, b, copy.deepcopy(b) if a == j else c) for a, b, c in self.results]
                return j
        return None

    def close(self):
        self.fs.uninstall()


def diff_tree(a, b, ignore):
    return sorted(k for k in set(a) | set(b) if k != ignore and a.get(k) != b.get(k))


def scribble(v):
    import numpy as np
    if isinstance(v, dict):
        for k in list(v):
            x = v[k]
            if isinstance(x, (dict, list, tuple, np.ndarray)):
                scribble(x)
            elif isinstance(x, (int, float)) and not isinstance(x, bool):
                v[k] = 12345.678
        v["scribbled"] = 1.0
    elif isinstance(v, list):
        for k, x in enumerate(v):
            if isinstance(x, (dict, list, tuple, np.ndarray)):
                scribble(x)
            elif isinstance(x, (int, float)):
                v[k] = 12345.678
    elif isinstance(v, tuple):
        for x in v:
            scribble(x)
    elif isinstance(v, np.ndarray) and v.flags.writeable:
        if v.dtype.kind == "f":
            v[...] = 12345.678
        elif v.dtype == object:
            v[...] = "scribbled"


def settled(before):
    """What differs from an earlier snapshot once garbage is collected."""
    d = procstate.changes(before, procstate.snapshot())
    if d:
        gc.collect()
        d = procstate.changes(before, procstate.snapshot())
    return d


# ------------------------------------------------------------------ entry points (in the child)
def run_history(case, trace=False):
    """Sequential history of one client."""
    with_root = case["_root"]
    w = World(with_root, case)
    recs = []
    proc = case.get("proc")
    if proc:
        sys.stderr = open(os.devnull, "w")
        procstate.apply(proc)
    try:
        for i, st in enumerate(case["steps"]):
            if proc:
                before = procstate.snapshot()
            recs.append(w.run_step(i, st, trace))
            if proc:
                recs[-1]["proc"] = settled(before)
    finally:
        stats = {"fs": w.fs.stats, "clock": w.clock.reads, "lines": w.lines}
        w.close()
    return recs, stats


def run_threads(case, replay=None):
    """Several clients on their own threads under the scheduler."""
    w = World(case["_root"], case)
    recs = {}
    for d in case["models"]:
        if d.get("via") == "airplane" and d["plane"] not in w.airplanes:
            from machup import Airplane
            w.airplanes[d["plane"]] = Airplane(inputfile=w.paths[d["plane"]])
    proc = case.get("proc")
    if proc:
        sys.stderr = open(os.devnull, "w")
        procstate.apply(proc)
        before = procstate.snapshot()
    sched = Scheduler(core.rng_for("sched", case["sseed"]), case["policy"],
                      replay if replay is not None else case.get("schedule"))
    w.fs.begin()
    w.budget.begin(5 * 10 ** 8)
    tracers = []

    def client(c, steps):
        tr = Tracer(sched, c)
        tracers.append(tr)

        def body():
            out = recs[c] = []
            kept = []
            if proc:
                import numpy as np
                np.seterr(**proc["err"])
            models = {}
            for i, st in enumerate(steps):
                f = st.get("fault")
                tr.begin(None, f["at"] if f else None, f["exc"] if f else None)
                rec = {"i": i, "op": st["op"]}
                mine = procstate.thread_settings() if proc else None
                try:
                    with tr:
                        if st["op"] == "build":
                            models[st["m"]] = w.build(st["m"])
                            rec["out"] = ("ok", None)
                        else:
                            v = w.call(models[st["m"]], st)
                            rec["out"] = ("ok", canon(v))
                            kept.append((i, v, copy.deepcopy(v)))
                except BaseException as e:
                    rec["out"] = ("exc", type(e).__name__, str(e))
                    e.__traceback__ = None
                rec["fired"] = tr.fired
                rec["lines"] = tr.count
                if proc:
                    rec["proc"] = procstate.changes(mine, procstate.thread_settings())
                t = w.target(st) if st["op"] != "build" else None
                if t:
                    rec["file"] = w.fs.read_raw(t)
                out.append(rec)
            for i, v, s in kept:
                if not exact(v, s):
                    out[i]["stale"] = True
        return body
    try:
        sched.run([client(c, s) for c, s in enumerate(case["clients"])])
    finally:
        pass
    w.budget.end()
    pool = w.settle_pool()
    handles = w.fs.open_handles()
    end = {"pool": pool, "handles": handles, "proc": settled(before) if proc else None}
    stats = {"fs": w.fs.stats, "clock": w.clock.reads, "lines": sum(t.total for t in tracers),
             "switches": len(sched.log), "outside": list(w.fs.outside_writes)}
    w.close()
    return recs, sched.log, end, stats


class Nested:
    """Ticks like a scheduler; at chosen ticks a whole request of another client runs inside
    the current one, on the same thread, as a signal handler or a finalizer would issue it."""

    def __init__(self, points, inner):
        self.points, self.inner, self.ticks, self.at = set(points), inner, 0, []

    def tick(self, i):
        self.ticks += 1
        if self.ticks in self.points and self.inner:
            self.at.append(self.ticks)
            self.inner.pop(0)()


def run_nested(case):
    """Client 0's requests are interrupted at given library lines by whole requests of the others."""
    w = World(case["_root"], case)
    for d in case["models"]:
        if d.get("via") == "airplane" and d["plane"] not in w.airplanes:
            from machup import Airplane
            w.airplanes[d["plane"]] = Airplane(inputfile=w.paths[d["plane"]])
    w.fs.begin()
    w.budget.begin(5 * 10 ** 8)
    recs = {c: [] for c in range(len(case["clients"]))}
    models, kept = {}, []

    def one(c, i, st, tr=None):
        rec = {"i": i, "op": st["op"], "fired": None}
        try:
            if tr is not None:
                tr.__enter__()
            try:
                if st["op"] == "build":
                    models[st["m"]] = w.build(st["m"])
                    rec["out"] = ("ok", None)
                else:
                    v = w.call(models[st["m"]], st)
                    rec["out"] = ("ok", canon(v))
                    kept.append((rec, v, copy.deepcopy(v)))
            finally:
                if tr is not None:
                    tr.__exit__()
        except BaseException as e:
            rec["out"] = ("exc", type(e).__name__, str(e))
            e.__traceback__ = None
        t = w.target(st) if st["op"] != "build" else None
        if t:
            rec["file"] = w.fs.read_raw(t)
        recs[c].append(rec)

    queue = []
    rest = [list(enumerate(x)) for x in case["clients"][1:]]
    for c in case["order"]:
        if rest[c - 1]:
            i, st = rest[c - 1].pop(0)
            queue.append(lambda c=c, i=i, st=st: one(c, i, st))
    n = Nested(case["points"], queue)
    tr = Tracer(n, 0)
    for i, st in enumerate(case["clients"][0]):
        tr.begin()
        one(0, i, st, tr)
    while queue:
        queue.pop(0)()
    for rec, v, s in kept:
        if not exact(v, s):
            rec["stale"] = True
    w.budget.end()
    end = {"pool": w.settle_pool(), "handles": w.fs.open_handles()}
    stats = {"fs": w.fs.stats, "clock": w.clock.reads, "lines": tr.total, "switches": 2 * len(n.at), "outside": list(w.fs.outside_writes)}
    w.close()
    return recs, n.at, end, stats


class OwnName(str):
    """A file name whose lifetime can be watched."""


class OwnDict(dict):
    """A state dictionary whose lifetime can be watched."""


def run_growth(case):
    """Rounds of the same kind of work; memory the library holds, handles and work after each."""
    import tracemalloc
    w = World(case["_root"], case)
    here = os.path.dirname(os.path.abspath(__file__))
    flt = [tracemalloc.Filter(True, core.MACHUP_DIR + "*", all_frames=True),
           tracemalloc.Filter(False, os.path.join(here, "simfs.py"), all_frames=True)]     # not the simulated files themselves
    # CPython's JSON scanner leaks a few interned keys per document, and numpy's text reader some bytes per call
    import inspect, json.decoder
    import numpy.lib.npyio as npyio
    src, first = inspect.getsourcelines(json.decoder.JSONDecoder.__init__)
    flt += [tracemalloc.Filter(False, json.decoder.__file__, first + k) for k, line in enumerate(src) if "make_scanner" in line]
    flt += [tracemalloc.Filter(False, npyio.__file__, k) for k, line in enumerate(inspect.getsource(npyio).splitlines(), 1) if "_load_from_filelike(" in line]
    # measurements go to arrays allocated beforehand: an object kept here could reuse memory the library released,
    # which the tracer would still book as the library's
    import array
    names = ["bytes held by library code", "caller's objects still held", "open files", "open descriptors", "threads", "work per round", "linear solves per round"]
    total = case["warm"] + case["rounds"]
    table = array.array("q", [0] * (len(names) * total))
    outs = []
    # whether the caller's own file names and dictionaries are kept by the library
    import weakref
    kept = []
    path_of, args = w.path_of, w.args

    def own(kind, x):
        x = kind(x)
        kept.append(weakref.ref(x))
        return x
    w.path_of = lambda st: None if path_of(st) is None else own(OwnName, path_of(st))
    w.args = lambda st: tuple(own(OwnDict, a) if type(a) is dict else a for a in args(st))
    tracemalloc.start(case["frames"])
    try:
        for k in range(case["warm"] + case["rounds"]):
            work, solves = 0, 0
            for rep in range(case["repeat"]):
                for i, st in enumerate(case["steps"]):
                    if st["op"] == "drop" or st["op"] in ("rebuild",):
                        w.run_step(i, st)
                        if st["op"] == "drop" and st.get("airplanes"):
                            w.airplanes.clear()
                        continue
                    st = drifted(st, case, k * case["repeat"] + rep)
                    r = w.run_step(i, dict(st, keep=False))
                    n = r.get("n") or {}
                    work += n.get("work", 0)
                    solves += n.get("solve", 0)
                    if k == 0 and rep == 0:
                        outs.append({"op": st["op"], "out": (r["out"][0], None) if r["out"][0] == "ok" else r["out"], "fired": r.get("fired"), "i": i, "n": n})
                    del r
                    if st.get("file") and case.get("newnames"):
                        p = w.target(st)
                        if os.path.isfile(p):
                            os.unlink(p)
                        del p
            w.results = []
            # what the harness itself recorded
            del getattr(w, "owned", [])[:], w.fs.opened[:], w.fs.snapshots[:]
            w.fs.live[:] = [x for x in w.fs.live if x() is not None]
            if case.get("discard"):
                w.models.clear()
                w.solvers.clear()
                w.airplanes.clear()
            sys.stdout.flush()      # what was printed is not the library's any more
            gc.collect()
            kept[:] = [x for x in kept if x() is not None]
            blocks = len(kept)
            size = sum(t.size for t in tracemalloc.take_snapshot().filter_traces(flt).traces)
            for c, v in enumerate((size, blocks, len(w.fs.open_handles()), len(os.listdir("/proc/self/fd")), threading.active_count(), work, solves)):
                table[k * len(names) + c] = v
            del size, blocks, v, c, st
    finally:
        tracemalloc.stop()
        stats = {"fs": w.fs.stats, "clock": w.clock.reads, "lines": w.lines}
        w.close()
    rows = [dict(zip(names, table[k * len(names):(k + 1) * len(names)])) for k in range(total)]
    return rows, outs, stats


def drifted(st, case, k):
    """The same request at a state not used before (if the case asks for that)."""
    if case.get("newnames") and st.get("file"):
        # written to a name not used before
        st = dict(st, file="run %07d %s" % (k, st["file"]))
    if not case.get("drift") or not isinstance(st.get("aero"), str):
        return st
    a = copy.deepcopy(case["pool"][st["aero"]])
    v = a.get("alpha", 0.0)
    if isinstance(v, (int, float)):
        a["alpha"] = v + 1e-4 * (k + 1)
    return dict(st, aero=a)


def run_saved(case, part, blob=None):
    """First life: a history in which models are saved. Second life: models restored from what
    was saved, in another process, where the input files are gone."""
    import pickle
    w = World(case["_root"], case)
    recs, saved = [], {}
    try:
        if blob is not None:
            # models this process already has
            for i, st in enumerate(case.get("before", ())):
                recs.append(w.run_step(i, st))
            for m, d in enumerate(case["kinds"]):
                if d == "stranger":
                    try:
                        w.model(m)
                    except Exception:
                        pass
            for f in os.listdir(w.indir):
                os.unlink(os.path.join(w.indir, f))
            for m, b in blob.items():
                try:
                    w.models[m] = pickle.loads(b)
                except Exception as e:
                    return recs[:0] + [{"i": 0, "op": "restore", "m": m, "out": ("exc", type(e).__name__, str(e))}], saved, {"fs": w.fs.stats, "clock": w.clock.reads, "lines": w.lines}
        for i, st in enumerate(case[part]):
            if st["op"] == "save":
                m = w.model(st["m"])
                try:
                    if st["how"] == "deepcopy":
                        w.models[st["to"]] = copy.deepcopy(m)
                    else:
                        b = pickle.dumps(m, protocol=st["how"])
                        if st.get("to") is not None:
                            w.models[st["to"]] = pickle.loads(b)
                        else:
                            saved[st["m"]] = b
                    out = ("ok", None)
                except Exception as e:
                    out = ("exc", type(e).__name__, str(e))
                recs.append({"i": i, "op": "save", "out": out})
                continue
            recs.append(w.run_step(i, st))
    finally:
        stats = {"fs": w.fs.stats, "clock": w.clock.reads, "lines": w.lines}
        w.close()
    return recs, saved, stats
