"""The properties: how cases are generated, run and judged."""
import copy, json, os, math, re
import core, driver, engine, gen, oracles, builder
from core import rng_for, diff_outcome, digest, brief, exact, decode, diff
from engine import (run_child, ref, ref_many, resolve, walk, Mirror, violation, body, describe, Stats, NON_CALL)
from gen import r6


# ------------------------------------------------------------------ shared generation
def base_case(R, prop, wings=None, props=None, planes=1, models=1, via=("file",), maxgrid=5, maxnodes=12, tables_ok=True, motor=None):
    case = {"prop": prop, "planes": [], "models": [], "pool": {}, "steps": []}
    for _ in range(planes):
        case["planes"].append(gen.gen_plane(R, wings, props, maxgrid=maxgrid, maxnodes=maxnodes, tables_ok=tables_ok, motor=motor))
    if planes > 1 and R.random() < 0.4:
        case["planes"][1] = gen.twin(R, case["planes"][0])
    for i in range(models):
        v = R.choice(list(via))
        d = {"plane": R.randrange(planes), "via": v}
        if v == "api":
            sp = case["planes"][d["plane"]]
            d["build"] = builder.plain(sp, "plane%d." % d["plane"])
        case["models"].append(d)
    # motors need units, which only an input file can state
    for d in case["models"]:
        if d["via"] == "api":
            sp = case["planes"][d["plane"]]
            sp["json"]["condition"]["units"] = None
    return case


def spec_of(case, m):
    return case["planes"][case["models"][m]["plane"]]


LOWHEAVY = {"derivatives": 0.4, "stability_derivatives": 0.5, "control_derivatives": 0.4, "damping_derivatives": 0.5,
            "stall_onset": 0.35, "pitch_trim": 0.4, "create_stl": 0.15, "find_aero_center": 0.05, "stall_airspeed": 0.015}


def hard_to_stall(R, spec):
    """Airfoils that stall at very large angles only, or never."""
    for w in spec["json"].get("wings", {}).values():
        for a in w["airfoils"].values():
            a["properties"]["CL_max"] = R.choice([3.0, 6.0, 15.0, 40.0, 1e9])


def bad_op(R, spec, pool, model=0):
    """A request that cannot complete, or completes with nonsense, in a natural way."""
    op = gen.gen_op(R, spec, pool, weights=LOWHEAVY, model=model, file_p=0.15)
    for _ in range(20):
        if op["op"] not in ("find_aero_center", "stall_airspeed", "create_stl"):
            break
        op = gen.gen_op(R, spec, pool, weights=LOWHEAVY, model=model, file_p=0.15)
    a = {"V_mag": 10, "rho": 0.0023769, "alpha": 3.0, "beta": 2.0, "yaw_rate": 0.2}
    kinds = ["noV", "norho", "alphastr", "rhonone", "v0", "vnan", "empty", "ctlstr", "dir", "missing_dir"]
    if gen.has_props(spec):
        kinds += ["J0", "badprop", "hugepower", "throttle", "jneg", "propnone"] * 2
    if gen.has_wings(spec):
        kinds += ["lift", "trim", "ctlstr"] * 2
    k = R.choice(kinds)
    if op["op"] in ("stall_onset", "pitch_trim") and k in ("v0", "vnan", "rhonone"):
        op["op"] = "solve"
        op.pop("L", None)
        op.pop("M", None)
    if k == "noV":
        del a["V_mag"]
    elif k == "norho":
        del a["rho"]
    elif k == "alphastr":
        a["alpha"] = R.choice(["3", None, [1, 2]])
    elif k == "rhonone":
        a["rho"] = R.choice([None, {"$nan": 1}])
    elif k == "v0":
        a["V_mag"] = R.choice([0, 0.0, -5.0])
        if gen.has_props(spec) and R.random() < 0.6:
            one = {"J": R.choice([0.0, 0.5]), "rot_per_sec": 20.0}
            op["prop"] = pool.new("prop", R.choice([one, {"rot_per_sec": 20.0}, {n: dict(one) for n in gen.prop_names(spec)}]))
            if R.random() < 0.4:
                op.update(op="props_solve", ctl=None)
                op.pop("file", None)
                op.pop("L", None)
                op.pop("M", None)
    elif k == "vnan":
        a["V_mag"] = R.choice([{"$nan": 1}, {"$inf": 1}, "fast"])
    elif k == "empty":
        a = {"alpha": 4.0}
    if k in ("noV", "norho", "alphastr", "rhonone", "v0", "vnan", "empty"):
        op["aero"] = pool.new("aero", a)
    elif k == "ctlstr":
        op["ctl"] = pool.new("ctl", {R.choice(["aileron", "elevator"]): R.choice(["5", None, {"$nan": 1}]), "flap": 8.0})
        if op["op"] in ("stall_onset", "pitch_trim"):
            op["op"] = "solve"
    elif k == "J0":
        op["prop"] = pool.new("prop", {"J": 0.0})
    elif k == "badprop":
        op["prop"] = pool.new("prop", R.choice([{"rpm": 300}, {"J": None}, {"brake_power": None}, {"J": "x"}]))
    elif k == "hugepower":
        op.update(op="solve", prop=pool.new("prop", {"brake_power": R.choice([1e6, 1e9, -5.0, 0.0])}))
    elif k == "throttle":
        op.update(op="solve", prop=pool.new("prop", {"electric_throttle": R.choice([0.0, 0.5, 5.0])}))
    elif k == "jneg":
        op.update(prop=pool.new("prop", {"J": R.choice([-0.5, 8.0, 1e-4])}))
    elif k == "propnone":
        n = gen.prop_names(spec)[0]
        op.update(prop=pool.new("prop", {n: None}))
    elif k == "lift":
        op.update(op="target_lift", L=R.choice([1e9, {"$nan": 1}, -1e7]))
    elif k == "trim":
        op.update(op="pitch_trim", L=R.choice([1e6, 5.0]), M=R.choice([1e6, 0.0]))
    elif k == "dir":
        op.update(op="solve", file="sub")
    elif k == "missing_dir":
        if op["op"] in gen.FILE_OPS and op["op"] != "create_stl":
            op["file"] = "nodir/x." + gen.FILE_OPS[op["op"]]
        else:
            op.update(op="solve", file="nodir/x.json")
    if k in ("noV", "norho", "empty", "ctlstr", "badprop") and gen.has_wings(spec) and R.random() < 0.25:
        # also the long analyses fail, in their first solves
        op["op"] = R.choice(["find_aero_center", "stall_airspeed", "stall_onset"])
        op.pop("file", None)
        if k == "ctlstr" and isinstance(list(pool.d[op["ctl"]].values())[0], dict):
            pool.d[op["ctl"]][list(pool.d[op["ctl"]])[0]] = "5"
        for x in ("L", "M"):
            op.pop(x, None)
        if op["op"] == "stall_airspeed":
            op["W"] = 3.0
    if op["op"] == "solve":
        for x in ("L", "M", "W"):
            op.pop(x, None)
    if op["op"] == "target_lift":
        op.setdefault("L", 1.0)
    return op


def maybe_form(R, op):
    if R.random() < 0.4:
        op["form"] = R.choice(["pos", "omit"])
    return op


def with_prior(R, op):
    if op.get("file") and "." in op["file"]:
        op["prior"] = R.choice([None, None, "", "{}\n", json.dumps({"total_results": {"FL": 1.0, "junk": "x" * 400}}) * 8,
                                "old contents " * 700])
    return op


def history(R, case, n, bad_p=0.0, edit_p=0.1, **kw):
    pools = {}
    steps = []
    pool = gen.Pool(R, spec_of(case, 0))
    for _ in range(n):
        m = R.randrange(len(case["models"]))
        pool.spec = spec_of(case, m)
        if R.random() < edit_p:
            e = gen.gen_edit(R, pool.spec, pool)
            if e:
                steps.append(e)
        if R.random() < bad_p:
            steps.append(bad_op(R, pool.spec, pool, m))
        else:
            st = gen.gen_op(R, pool.spec, pool, model=m, **kw)
            steps.append(with_prior(R, maybe_form(R, st)))
    case["pool"] = pool.d
    case["steps"] = steps
    local_flow(R, case)
    return Prop.lighten(case)


def local_flow(R, case, p=0.2):
    """The wing solver on its own, in a velocity field the caller supplies."""
    m = R.randrange(len(case["models"]))
    spec = spec_of(case, m)
    if not gen.has_wings(spec) or R.random() > p:
        return
    n = sum(w["grid"] * (2 if w["side"] == "both" else 1) for w in spec["json"]["wings"].values())
    v = R.choice([10.0, 33.0])
    a = {"rho": 0.002, "alpha": 2.0, "local_state": {"$arr": [[0.002, -v + 0.1 * (k % 3), R.choice([0.0, 0.1]), -0.3] for k in range(n)]}}
    if R.random() < 0.7:
        a["V_mag"] = v
    if R.random() < 0.3:
        a["yaw_rate"] = 0.1
    case["pool"]["aL"] = a
    for _ in range(R.randint(1, 3)):
        case["steps"].insert(R.randrange(len(case["steps"]) + 1), {"op": "ll_solve", "m": m, "aero": "aL", "ctl": None, "prop": None})


def fixup_edits(case):
    """Drop edits that contradict the pool (they were generated against a later pool)."""
    out = []
    for st in case["steps"]:
        if st["op"] == "edit" and st["ref"] not in case["pool"]:
            continue
        out.append(st)
    case["steps"] = out
    return case


def counts(case, i, stats):
    """Library lines, linear solves and allocations of step i when run alone."""
    mir = Mirror(case)
    for st in case["steps"][:i]:
        mir.apply(st)
    st = case["steps"][i]
    r = ref(mir.spec(st["m"]), resolve(st, mir.pool), stats, trace=True)
    return r.get("n")


def pick_point(R, n):
    k = R.random()
    if n <= 1:
        return 1
    if k < 0.6:
        return R.randint(1, n)
    if k < 0.75:
        return R.randint(1, min(n, 60))
    return max(1, n - R.randint(0, min(n - 1, max(10, n // 10))))


def inject_faults(R, case, p, stats, seams=True, long_p=None):
    Prop.lighten(case)
    for i, st in enumerate(case["steps"]):
        if st["op"] in NON_CALL or st["op"] in ("build", "attrs"):
            continue
        if st["op"] in ("find_aero_center", "stall_airspeed"):
            # too long to count first: fail somewhere in the beginning
            if R.random() < (p if long_p is None else long_p):
                if R.random() < 0.5 or not seams:
                    st["fault"] = {"kind": "line", "at": int(10 ** R.uniform(0.3, 4)), "exc": R.choice(["KeyboardInterrupt", "MemoryError"])}
                else:
                    fn = R.choice(["solve", "alloc"])
                    st["fault"] = {"kind": "seam", "fn": fn, "n": R.randint(1, 25 if fn == "solve" else 1500)}
            continue
        if R.random() > p:
            continue
        c = counts(case, i, stats)
        if not c:
            continue
        k = R.random()
        if k < 0.6 or not seams or not c["lines"]:
            if c["lines"]:
                st["fault"] = {"kind": "line", "at": pick_point(R, c["lines"]),
                               "exc": R.choice(["KeyboardInterrupt", "MemoryError", "KeyboardInterrupt", "RuntimeError"])}
        else:
            opts = [x for x in ("solve", "inv", "alloc", "alloc") if c.get(x)]
            if opts:
                fn = R.choice(opts)
                st["fault"] = {"kind": "seam", "fn": fn, "n": R.randint(1, c[fn])}
    return case


# ------------------------------------------------------------------ shared judging
def judge_answers(case, recs, stats, kinds=("answer", "file", "swallowed")):
    out = []
    prev = None
    for st, r, mir in walk(case, recs):
        if st["op"] in NON_CALL:
            continue
        if st["op"] in ("build", "attrs"):
            stats.rec(r)
            continue
        stats.rec(r)
        what = describe(st, mir.pool)
        if r.get("fired"):
            stats.key("faulted", st["op"], [f.split("@")[0] for f in r["fired"]], prev)
            if r["out"][0] == "ok" and "swallowed" in kinds:
                out.append(violation("swallowed", r["i"], "%s: injected %s did not reach the caller, %s was returned" % (
                    what, r["fired"], brief(r["out"]))))
            elif r["out"][0] == "exc" and "swallowed" in kinds and st["fault"]["kind"] == "line":
                want = {"KeyboardInterrupt": "InjectedInterrupt", "MemoryError": "InjectedMemoryError", "RuntimeError": "InjectedFault"}[st["fault"]["exc"]]
                if r["out"][1] != want and st["fault"]["exc"] != "RuntimeError":
                    out.append(violation("swallowed", r["i"], "%s: injected %s reached the caller as %s" % (what, want, brief(r["out"]))))
            prev = ("fault", st["op"])
            continue
        if "answer" in kinds:
            e = ref(mir.spec(st["m"]), resolve(st, mir.pool), stats)
            d = diff_outcome(r["out"], e["out"])
            stats.key(st["op"], sorted(k for k in ("aero", "ctl", "prop", "file") if st.get(k)), prev, e["out"][0])
            if d:
                out.append(violation("answer", r["i"], "%s: %s (fresh model, fresh process)" % (what, d)))
            elif "file" in kinds and e.get("file") is not None or r.get("file") is not None:
                if body(st, r.get("file")) != body(st, e.get("file")) and r["out"][0] == "ok":
                    out.append(violation("file", r["i"], "%s: output file differs from that of a fresh model in a fresh process" % what))
        prev = st["op"]
    return out


def judge_inputs(case, recs, stats):
    out = []
    for st, r, mir in walk(case, recs):
        if st["op"] in NON_CALL:
            continue
        stats.rec(r)
        stats.key(st["op"], r["out"][0], [f.split("@")[0] for f in r.get("fired") or ()], sorted((st.get(k) or "")[:1] if isinstance(st.get(k), str) else "" for k in ("aero", "ctl", "prop")),
                  st.get("fault", {}).get("at", 0) // 20)
        if r.get("pool"):
            out.append(violation("inputs", r["i"], "%s (%s%s): %s" % (
                describe(st, mir.pool), brief(r["out"]), ", injected " + str(r["fired"]) if r.get("fired") else "", r["pool"])))
    return out


def judge_stale(case, recs, stats):
    out = []
    for st, r, mir in walk(case, recs):
        if r.get("stale") is not None:
            out.append(violation("stale", r["i"], "the result returned by request %d changed during %s" % (r["stale"], describe(st, mir.pool))))
    return out


def run_seq(case, stats):
    recs, st = run_child(driver.run_history, case)
    stats.add_case_stats(st)
    return recs


# ------------------------------------------------------------------ the properties
class Prop:
    level = "exploration"
    quick, thorough = 240, 4000

    def generate(self, seed, i, tier, stats):
        R = rng_for("case", self.id, seed, i)
        return self.gen(R, tier, stats, i)

    @staticmethod
    def lighten(case):
        """Requests of hundreds of solves do not search for a propeller speed in each of them."""
        for st in case.get("steps", []) + [s for c in case.get("clients", []) for s in c]:
            p = st.get("prop")
            if st["op"] in ("pitch_trim", "stall_onset", "find_aero_center", "stall_airspeed"):
                if driver.seeks_speed(case["pool"].get(p) if isinstance(p, str) else p):
                    st["prop"] = None
        return case


class C01(Prop):
    id = "C01"
    searches = "request histories"
    quick, thorough = 420, 12000
    rule = ("one run = one random history of 6-20 requests (all analyses, shared and edited state dictionaries, 1-2 models per "
            "process, models rebuilt) executed in one simulated process; each answer and output file is compared with the same request "
            "on a freshly built model in a fresh process. Non-trivial and distinct: a (request kind, supplied arguments, preceding "
            "request kind, outcome kind) combination")

    def gen(self, R, tier, stats, i):
        case = base_case(R, "C01", models=R.choice([1, 1, 1, 2]), planes=R.choice([1, 1, 2]), via=("file", "file", "airplane"))
        if i % 21 == 11:
            return self.long_use(R, case)
        if i % 21 == 4:
            return self.turnover(R, case)
        w = dict(LOWHEAVY)
        if tier == "thorough" or i % 40 == 7:
            w.update(find_aero_center=0.4, stall_airspeed=0.15)
        history(R, case, R.randint(6, 20), bad_p=0.05, weights=w, search=0.35, wild=0.1)
        for _ in range(R.randint(0, 2)):
            j = R.randrange(len(case["steps"]) + 1)
            case["steps"].insert(j, {"op": R.choice(["build", "rebuild"]), "m": R.randrange(len(case["models"]))})
        return fixup_edits(case)

    def turnover(self, R, case):
        """Look-alike models that come and go: each is put to use after the one before it was
        discarded, so that it may be given the same memory."""
        spec = case["planes"][0]
        case["planes"] = [spec, gen.twin(R, spec), gen.twin(R, spec)]
        case["models"] = [{"plane": k, "via": "file"} for k in range(3)]
        pool = gen.Pool(R, spec)
        reqs = [dict(gen.gen_op(R, spec, pool, kinds=gen.LIGHT, weights=dict(solve=8, distributions=2, ll_solve=2, props_solve=2), file_p=0.02, search=0.1), keep=False)
                for _ in range(R.randint(1, 3))]
        steps, was = [], None
        for _ in range(R.randint(8, 16)):
            m = R.choice([k for k in range(3) if k != was])
            if was is not None:
                steps.append({"op": "drop", "m": was})
            steps.append({"op": "build", "m": m})
            for q in R.sample(reqs, R.randint(1, len(reqs))):
                steps.append(dict(copy.deepcopy(q), m=m))
            was = m
        case["pool"] = pool.d
        case["steps"] = steps
        return Prop.lighten(case)

    def long_use(self, R, case):
        """Sweeps of one entry after another, with one request repeated in between."""
        pool = gen.Pool(R, spec_of(case, 0))
        steps = []
        again = None
        n = R.choice([70, 110, 150])
        while len(steps) < n:
            m = R.randrange(len(case["models"]))
            pool.spec = spec_of(case, m)
            st = gen.gen_op(R, pool.spec, pool, model=m, file_p=0.01, search=0.15, kinds=gen.LIGHT,
                            weights=dict(solve=12, distributions=2, ll_solve=2, props_solve=2))
            if again is None or R.random() < 0.1:
                again = st
            which = R.choice(["aero", "ctl", "prop"])
            ref_ = st.get(which) if which in st else None
            key = None
            if ref_:
                nums = [k for k, v in pool.d[ref_].items() if isinstance(v, (int, float)) and k not in ("brake_power", "electric_throttle")]
                key = R.choice(nums) if nums else None
            if key is None:
                steps.append(st)
                continue
            v = pool.d[ref_][key]
            pos = key in ("V_mag", "rho", "J", "rot_per_sec")
            for j in range(R.choice([4, 9, 20, 36])):
                x = r6(v * (1 + 0.02 * j)) if pos else r6(v + R.choice([0.5, 0.25]) * j)
                steps.append(maybe_form(R, dict(st, **{which: pool.new(which, dict(pool.d[ref_], **{key: x}))})))
                if R.random() < 0.1:
                    steps.append(copy.deepcopy(R.choice([again, R.choice(steps)])))
        case["pool"] = pool.d
        case["steps"] = steps[:n + 20]
        return Prop.lighten(case)

    def run(self, case, stats):
        recs = run_seq(case, stats)
        return judge_answers(case, recs, stats, ("answer", "file"))


class C02(Prop):
    id = "C02"
    searches = "request histories with faults at every line, solve and allocation"
    level = "fault_enumeration"
    quick, thorough = 600, 12000
    rule = ("one run = one random history in which about 40% of the requests fail: an interrupt, memory or runtime error injected at a "
            "chosen executed library line, a failing linear solve, matrix inverse or array allocation, or a naturally impossible or "
            "malformed request; the error must reach the caller and every later request on the same and on other models must answer like a "
            "fresh model in a fresh process. Distinct: (faulted request kind, fault kind, preceding kind) and (request kind, arguments, "
            "preceding kind, outcome) combinations")

    def gen(self, R, tier, stats, i):
        case = base_case(R, "C02", models=R.choice([1, 1, 2]), planes=1, via=("file", "airplane"))
        history(R, case, R.randint(5, 14), bad_p=0.3, weights=dict(LOWHEAVY, find_aero_center=0.5, stall_airspeed=0.3), search=0.35, wild=0.1)
        fixup_edits(case)
        # ask again for what was asked before the failures
        asked = [s for s in case["steps"] if s["op"] in ("solve", "distributions", "ll_solve", "props_solve", "stability_derivatives")]
        for s in R.sample(asked, min(3, len(asked))):
            case["steps"].append(copy.deepcopy(s))
        if R.random() < 0.1:
            # an export that cannot be written, and exports after it
            m = R.randrange(len(case["models"]))
            x = {"op": "create_stl", "m": m, "file": "nodir/x.stl"}
            case["steps"].insert(R.randrange(len(case["steps"]) + 1), x)
            case["steps"].append({"op": "create_stl", "m": m, "file": "y.stl"})
        inject_faults(R, case, 0.35, stats, long_p=0.92)
        if R.random() < 0.3:
            case["steps"].insert(R.randrange(len(case["steps"]) + 1),
                                 {"op": "build", "m": R.randrange(len(case["models"])),
                                  "fault": {"kind": "line", "at": R.randint(1, 600), "exc": R.choice(["KeyboardInterrupt", "MemoryError"])}})
        return case

    def run(self, case, stats):
        recs = run_seq(case, stats)
        out = judge_answers(case, recs, stats)
        for r in recs:
            if r["op"] == "build" and r.get("fired") and r["out"][0] == "ok":
                out.append(violation("swallowed", r["i"], "a fault injected into building a model did not reach the caller"))
        return out


class C03(Prop):
    id = "C03"
    searches = "request histories with faults and interrupts"
    level = "fault_enumeration"
    quick, thorough = 420, 12000
    rule = ("one run = one random history of 8-20 requests over shared caller dictionaries, half of the requests failing or interrupted at "
            "a chosen library line; after every request each dictionary (and array inside) is compared bit-exactly with what the caller "
            "left there. Distinct: (request kind, outcome, fault kind, argument pattern, fault position band)")

    def gen(self, R, tier, stats, i):
        case = base_case(R, "C03", models=1, planes=1)
        history(R, case, R.randint(8, 20), bad_p=0.2, edit_p=0.08,
                weights=dict(LOWHEAVY, derivatives=1, stability_derivatives=1.5, control_derivatives=1.5, damping_derivatives=1.5,
                             pitch_trim=1, target_lift=1.5, stall_onset=0.6, find_aero_center=0.4, stall_airspeed=0.25),
                search=0.2, wild=0.05, p_none=0.04)
        fixup_edits(case)
        # arrays inside a state: a local velocity field for the wing solver
        local_flow(R, case, 0.3)
        if R.random() < 0.3:
            case["pool"]["pN"] = {n: {"J": 0.4, "extra": [1, 2, {"a": 3}]} for n in gen.prop_names(case["planes"][0])} or {"J": 0.5}
            case["steps"].insert(R.randrange(len(case["steps"]) + 1), {"op": "solve", "m": 0, "aero": None, "ctl": None, "prop": "pN"})
        if R.random() < 0.5:
            # numbers held in zero-dimensional arrays, which can be changed in place
            for ref_, d in list(case["pool"].items()):
                if "local_state" in d:
                    continue
                for k, v in d.items():
                    if isinstance(v, float) and R.random() < 0.5 and k not in ("V_mag", "rho"):
                        d[k] = {"$arr": v}
            for st in case["steps"]:
                for k in ("L", "M", "W"):
                    if isinstance(st.get(k), float) and R.random() < 0.5:
                        case["pool"]["t%d" % len(case["pool"])] = {"$arr": st[k]}
                        st[k] = "t%d" % (len(case["pool"]) - 1)
        inject_faults(R, case, 0.45, stats, long_p=0.92)
        return case

    def run(self, case, stats):
        recs = run_seq(case, stats)
        return judge_inputs(case, recs, stats)


class C04(Prop):
    id = "C04"
    searches = "request histories with caller-side mutation"
    quick, thorough = 600, 12000
    rule = ("one run = one random history in which earlier results are kept, then checked bit-exactly after every later event, and in which the "
            "caller overwrites returned results, passed dictionaries and the dictionaries and lists it assembled the airplane from; every answer "
            "is compared with that of a fresh model in a fresh process. Distinct: as for C01")

    def gen(self, R, tier, stats, i):
        case = base_case(R, "C04", models=R.choice([1, 1, 2]), planes=1, via=("file", "airplane", "api", "api"))
        history(R, case, R.randint(5, 14), bad_p=0.03, edit_p=0.2,
                weights=dict(LOWHEAVY, distributions=5, ll_solve=4, props_solve=4, find_aero_center=0.08), search=0.2, file_p=0.05)
        fixup_edits(case)
        for j, st in enumerate(case["steps"]):
            st["id"] = j
        out = []
        ids = []
        for st in case["steps"]:
            out.append(st)
            if st["op"] not in NON_CALL:
                ids.append(st["id"])
                if R.random() < 0.4:
                    out.append({"op": "scribble", "of": R.choice(ids)})
                if R.random() < 0.12:
                    out.append({"op": "scribble_owned"})
                    if R.random() < 0.7:
                        out.append({"op": "rebuild", "m": R.randrange(len(case["models"]))})
        if case["models"][0]["via"] == "api":
            # let the airplane's builder lists change right after the model is built
            out.insert(0, {"op": "build", "m": 0})
            out.insert(1, {"op": "scribble_owned"})
            if R.random() < 0.5:
                out.insert(2, {"op": "rebuild", "m": 0})
        case["steps"] = out
        return case

    def run(self, case, stats):
        recs = run_seq(case, stats)
        return judge_answers(case, recs, stats, ("answer",)) + judge_stale(case, recs, stats)


class C05(Prop):
    id = "C05"
    searches = "thread interleavings at library-line granularity"
    quick, thorough = 700, 12000
    rule = ("one run = 2-4 clients on their own threads, each building and using its own model (from the same file, the same airplane object or "
            "different ones; passing the very same dictionaries), interleaved by the seeded scheduler at library line granularity, a client "
            "sometimes being interrupted (every fifth run: one thread, whole requests of the others running at chosen lines inside those of the "
            "first); every answer and file is compared with the client running alone. Distinct: distinct switch sequences "
            "actually taken (schedules), hashed")

    def gen(self, R, tier, stats, i):
        nc = R.choice([2, 2, 2, 3, 4])
        planes = R.choice([1, 1, 2, 2])
        case = base_case(R, "C05", planes=planes, models=nc, via=("file", "file", "airplane", "airplane"), maxgrid=4, maxnodes=10)
        pool = gen.Pool(R, case["planes"][0])
        case["clients"] = []
        weights = {"solve": 8, "distributions": 3, "ll_solve": 3, "props_solve": 3, "derivatives": 0.1, "stability_derivatives": 0.6,
                   "control_derivatives": 0.3, "damping_derivatives": 0.4, "target_lift": 0.8, "stall_onset": 0.05, "pitch_trim": 0.1,
                   "create_stl": 0.02, "find_aero_center": 0, "stall_airspeed": 0}
        exporters = i % 13 == 6
        if exporters:
            # airplanes whose geometries have the same size, exported at the same time
            case["planes"] = case["planes"][:1]
            case["planes"].append(gen.twin(R, case["planes"][0]))
            for c in range(nc):
                case["models"][c]["plane"] = c % 2
            weights["create_stl"] = 8
        for c in range(nc):
            sp = spec_of(case, c)
            pool.spec = sp
            steps = [{"op": "build", "m": c}]
            for k in range(R.randint(1, 2 if exporters else 4)):
                st = gen.gen_op(R, sp, pool, weights=weights, model=c, file_p=0.3, search=0.1)
                if exporters and st["op"] == "create_stl":
                    st["file"] = "x.stl"
                if st.get("file"):
                    st["file"] = "c%d_%d_%s" % (c, k, st["file"])
                steps.append(maybe_form(R, st))
            if R.random() < 0.15:
                st = R.choice(steps)
                st["fault"] = {"kind": "line", "at": int(10 ** R.uniform(0, 3)), "exc": "KeyboardInterrupt"}
                if st["op"] == "build":
                    steps[:] = [st]
            case["clients"].append(steps)
        del case["steps"]
        case["pool"] = pool.d
        self.lighten(case)
        case["policy"] = R.choice([{"p": 0.5}, {"p": 0.1}, {"p": 0.02}, {"p": 0.004},
                                   {"points": sorted(R.sample(range(1, 6000), R.randint(1, 6)))}])
        if exporters:
            case["policy"] = R.choice([{"p": 0.02}, {"p": 0.005}, {"p": 0.002}])
        case["sseed"] = R.getrandbits(40)
        if i % 5 == 3:
            # one thread; requests of the others run inside those of the first
            for steps in case["clients"]:
                for st in steps:
                    st.pop("fault", None)
            for c in range(1, nc):
                sp = pool.spec = spec_of(case, c)
                for k in range(R.randint(3, 8)):
                    case["clients"][c].append(gen.gen_op(R, sp, pool, kinds=["solve", "solve", "ll_solve", "props_solve"], model=c, file_p=0.0, search=0.0))
            Prop.lighten(case)
            case["order"] = [c for c in range(1, nc) for _ in case["clients"][c]]
            R.shuffle(case["order"])
            case["points"] = []
            total = run_child(driver.run_nested, case)[3]["lines"]
            case["points"] = sorted(R.sample(range(1, max(total, 100)), len(case["order"])))
            del case["policy"], case["sseed"]
        return case

    def run(self, case, stats):
        if "points" in case:
            recs, log, end, st = run_child(driver.run_nested, case)
        else:
            recs, log, end, st = run_child(driver.run_threads, case)
            case["_log"] = log
        stats.add_case_stats(st)
        out = []
        stats.key("schedule", log)
        stats.d["switches_max"] = max(stats.d.get("switches_max", 0), len(log))
        for c in sorted(recs):
            for s, r in zip(case["clients"][c], recs[c]):
                stats.rec(dict(r, fired=["KeyboardInterrupt@line"] if r.get("fired") else []))
                what = "client %d: %s" % (c, describe(s, case["pool"]))
                if r.get("stale"):
                    out.append(violation("stale", r["i"], what + ": its result changed while other clients worked"))
                if "points" in case and (r["out"][1] == "SimDeadlock" or r["out"][1:] == ("KeyError", str(s["m"]))):
                    continue     # a lock held by the request it interrupted; its model was not built
                if r.get("fired"):
                    if r["out"][0] == "ok":
                        out.append(violation("swallowed", r["i"], what + ": injected interrupt did not reach the caller"))
                    continue
                if s["op"] == "build":
                    if r["out"][0] != "ok":
                        out.append(violation("answer", r["i"], what + ": building raised %s" % brief(r["out"])))
                    continue
                e = ref(spec_of(case, s["m"]), resolve(s, case["pool"]), stats)
                d = diff_outcome(r["out"], e["out"])
                if d:
                    out.append(violation("answer", r["i"], what + ": %s (client alone)" % d))
                elif e["out"][0] == "ok" and body(s, r.get("file")) != body(s, e.get("file")):
                    out.append(violation("file", r["i"], what + ": output file differs from that of the client running alone"))
        if end["pool"]:
            out.append(violation("inputs", 0, end["pool"]))
        return out


def file_op(R, spec, pool, kinds=None, **kw):
    kinds = kinds or [k for k in gen.FILE_OPS if k in gen.ops_available(spec)]
    w = {"solve": 3, "distributions": 4, "stall_onset": 1, "derivatives": 1, "target_lift": 1.5, "pitch_trim": 1.5, "create_stl": 1,
         "find_aero_center": 0.12, "stall_airspeed": 0.06}
    st = gen.gen_op(R, spec, pool, weights=w, kinds=kinds, file_p=1.0, **kw)
    if "file" not in st:
        st["file"] = "x." + gen.FILE_OPS[st["op"]]
    return st


def benign_io(R):
    p = {}
    if R.random() < 0.7:
        p["wchunk"] = R.choice([[1], [7], [100], [4096, 1], [1, 3, 5000], [511]])
    if R.random() < 0.6:
        p["eintr"] = sorted(R.sample(range(1, 12), R.randint(1, 4)))
    if R.random() < 0.4:
        p["bufsize"] = R.choice([1, 16, 64, 512])
    if R.random() < 0.3:
        p["rchunk"] = R.choice([[1], [5], [333]])
    return p


class C06(Prop):
    id = "C06"
    searches = "I/O schedules and crash points"
    level = "fault_enumeration"
    quick, thorough = 420, 12000
    rule = ("one run = 3-7 file-producing requests over varied earlier file contents under short and interrupted writes and small buffers; "
            "at return the bytes in the OS must be the complete document of exactly this request (against the returned values, the airplane, and a "
            "fresh process on a healthy system) with no handle open; every intermediate state of a JSON file at every system call, and after an "
            "interrupt at any line, must be absent, old, new or unreadable. Distinct: (request kind, file form, earlier content kind, I/O plan, outcome)")

    def gen(self, R, tier, stats, i):
        case = base_case(R, "C06", models=R.choice([1, 1, 2]), planes=1, maxgrid=4, maxnodes=9)
        pool = gen.Pool(R, case["planes"][0])
        for _ in range(R.randint(3, 7)):
            m = R.randrange(len(case["models"]))
            st = file_op(R, case["planes"][0], pool, model=m, search=0.15, p_none=0.25)
            with_prior(R, maybe_form(R, st))
            if st["op"] == "create_stl" and R.random() < 0.3:
                del st["file"]
                st.pop("prior", None)
            elif R.random() < 0.2:
                st["rel"] = True
            st["snap"] = True
            k = R.random()
            if k < 0.7:
                p = benign_io(R)
                if p:
                    st["fault"] = {"kind": "io", "plan": p}
            elif k < 0.85:
                st["fault"] = {"kind": "line", "at": int(10 ** R.uniform(0, 3.7)), "exc": "KeyboardInterrupt"}
            if st.get("fault", {}).get("kind") == "line" and st["op"] in ("find_aero_center", "stall_airspeed"):
                del st["fault"]
            if case["steps"] and R.random() < 0.15:
                # a relative name means the directory the caller is in when asking
                case["steps"].append({"op": "chdir", "to": R.choice(["out/deep", "elsewhere", "out"])})
                if st["op"] != "create_stl":
                    st["rel"] = True
            case["steps"].append(st)
            if R.random() < 0.15:
                case["steps"].append(bad_op(R, case["planes"][0], pool, m))
        case["pool"] = pool.d
        self.lighten(case)
        for st in case["steps"]:
            if st.get("fault", {}).get("kind") == "line" and R.random() < 0.8:
                i_ = case["steps"].index(st)
                c = counts(case, i_, stats)
                if c and c["lines"]:
                    # mostly late in the call, where output is produced
                    st["fault"]["at"] = max(1, c["lines"] - R.randint(0, min(c["lines"] - 1, 40))) if R.random() < 0.7 else pick_point(R, c["lines"])
        # earlier contents that resemble what is about to be written
        mir = Mirror(case)
        for st in case["steps"]:
            if st["op"] in gen.FILE_OPS and "." in st.get("file", "") and not st["file"].endswith("stl") and R.random() < 0.25:
                e = ref(mir.spec(st["m"]), resolve(st, case["pool"]), stats)
                text = (e.get("file") or b"").decode("utf-8", "replace")
                if text:
                    st["prior"] = R.choice([re.sub("[0-9]", lambda d: str((int(d.group()) + 1) % 10), text), text[:-1] + "?", text + "\n", text + text,
                                            text[:R.randrange(len(text))], re.sub("[0-9]", "0", text), " " * len(text)])
        return case

    def run(self, case, stats):
        recs = run_seq(case, stats)
        out = []
        for st, r, mir in walk(case, recs):
            if "out" not in r:
                continue
            stats.rec(r)
            if st["op"] not in gen.FILE_OPS or not (st.get("file") or st["op"] == "create_stl"):
                continue
            what = describe(st, mir.pool)
            io = st.get("fault", {}).get("kind") == "io"
            stats.key(st["op"], st.get("file", "default").split(".")[-1], "none" if st.get("prior") is None else len(st["prior"]) // 100,
                      sorted(st["fault"]["plan"]) if io else st.get("fault", {}).get("kind"), r["out"][0], st.get("form"))
            spec = mir.spec(st["m"])
            rs = resolve(st, mir.pool)
            e = ref(spec, rs, stats)
            interrupted = r.get("fired") and not io
            if r["out"][0] == "ok" and not interrupted:
                err = oracles.file_content(spec, dict(rs, file=rs.get("file") or "plane.stl"), r["out"], r.get("file"))
                if err:
                    out.append(violation("content", r["i"], "%s: %s" % (what, err)))
                elif e["out"][0] == "ok" and body(st, r["file"]) != body(st, e["file"]):
                    out.append(violation("content", r["i"], "%s: the file differs from the one written by a fresh process on a healthy system" % what))
                if r["handles"]:
                    out.append(violation("handle", r["i"], "%s: still open after return: %s" % (what, r["handles"])))
            if not interrupted:
                d = diff_outcome(r["out"], e["out"])
                if d:
                    out.append(violation("answer", r["i"], "%s: %s (healthy fresh process)" % (what, d)))
            # what a crash at any system call, or the interrupt, leaves behind
            if st.get("file", "").endswith("json"):
                states = [(c, s) for c, s in r.get("snaps", ())]
                stats.d["x_crash_states_examined"] = stats.d.get("x_crash_states_examined", 0) + r.get("snap_count", 0)
                if r["out"][0] == "exc":
                    states.append(("end", r.get("file")))
                final = [x for x in (r.get("before"), e.get("file"), r.get("file") if r["out"][0] == "ok" else None) if x is not None]
                for c, s in states:
                    if s is None or s in final:
                        continue
                    try:
                        json.loads(s.decode())
                    except (ValueError, UnicodeDecodeError):
                        continue
                    out.append(violation("crash", r["i"], "%s: a crash at %s leaves a readable but wrong document (%d bytes: %.120r)" % (what, c, len(s), s[:120])))
                    break
        return out


class C07(Prop):
    id = "C07"
    searches = "failing system calls"
    level = "fault_enumeration"
    quick, thorough = 420, 12000
    rule = ("one run = 2-5 file-producing requests, each hit by one failing system call (refused open, full device at a chosen byte, EIO/ENOSPC/EDQUOT "
            "at the k-th write, flush or close, or a failing read-back), then repeated on a healthy system; plus requests failing before they produce "
            "output. Distinct: (request kind, file form, failing call, ordinal or byte, errno, outcome)")

    def gen(self, R, tier, stats, i):
        case = base_case(R, "C07", models=1, planes=1, maxgrid=4, maxnodes=9)
        spec = case["planes"][0]
        pool = gen.Pool(R, spec)
        for _ in range(R.randint(2, 5)):
            st = file_op(R, spec, pool, search=0.1, p_none=0.2)
            if st["op"] in ("find_aero_center", "stall_airspeed") and R.random() < 0.7:
                st = file_op(R, spec, pool, kinds=["solve", "distributions"], search=0.1)
            long = i % 9 == 3 and not case["steps"] and gen.has_wings(spec)
            if long:
                st = file_op(R, spec, pool, kinds=["find_aero_center", "stall_airspeed"], search=0.0)
            maybe_form(R, st)
            if R.random() < 0.04 or long and R.random() < 0.3:
                # a folder that does not exist
                st["file"] = "nodir/" + st["file"]
                case["steps"].append(st)
                continue
            k = R.random()
            if k < 0.22:
                # fails before there is any output
                if R.random() < 0.5:
                    b = bad_op(R, spec, pool)
                    if b["op"] in gen.FILE_OPS and b["op"] != "create_stl":
                        b["file"] = "r." + gen.FILE_OPS[b["op"]]
                        st = b
                elif gen.has_wings(spec):
                    st["fault"] = {"kind": "seam", "fn": "solve", "n": 1}
                st["prior"] = "precious " * R.choice([1, 40, 2000])
                if st["op"] == "distributions" and R.random() < 0.3 and st["file"].endswith("txt"):
                    st["file"] = st["file"][:-3] + "json"
                case["steps"].append(st)
                continue
            plan = {}
            if R.random() < 0.5:
                plan["bufsize"] = R.choice([16, 64, 512])
            c = R.random()
            if c > 0.96:
                # calls only some ways of writing a file make
                plan["fail"] = {"call": R.choice(["fsync", "rename", "truncate"]), "n": 1, "errno": R.choice(["EIO", "ENOSPC"]), "writing": True}
            elif c < 0.15 or long:
                plan["fail"] = {"call": "open", "n": 1 if long else R.randint(1, 5), "errno": R.choice(["EACCES", "EMFILE", "ENOSPC", "EROFS"]), "writing": True}
            elif c < 0.5:
                plan["quota"] = None
            elif c < 0.75:
                plan["fail"] = {"call": "write", "n": int(10 ** R.uniform(0, 1.6)), "errno": R.choice(["EIO", "ENOSPC", "EDQUOT"]), "writing": True}
                plan["sticky"] = R.random() < 0.5
            elif c < 0.93:
                plan["fail"] = {"call": "close", "n": R.randint(1, 5), "errno": R.choice(["EIO", "ENOSPC"]), "writing": True}
            else:
                plan["fail"] = {"call": "read", "n": R.randint(1, 3), "errno": "EIO"}
            st["fault"] = {"kind": "io", "plan": plan}
            with_prior(R, st)
            case["steps"].append(st)
            again = {k: v for k, v in st.items() if k not in ("fault", "prior")}
            case["steps"].append(again)
        case["pool"] = pool.d
        self.lighten(case)
        case["steps"].insert(0, {"op": "put", "path": "out/other.json", "text": "do not touch"})
        for st in case["steps"]:
            p = st.get("fault", {}).get("plan")
            if p and "quota" in p and p["quota"] is None:
                i_ = case["steps"].index(st)
                mir = Mirror(case)
                e = ref(mir.spec(st["m"]), resolve(st, case["pool"]), stats)
                n = len(e.get("file") or b"x" * 500)
                n2 = n * (2 if st["op"] == "distributions" and st.get("file", "").endswith("json") else 1)
                p["quota"] = R.choice([0, 1, n - 1, max(0, n - R.randint(1, 60)), R.randrange(n), R.randrange(n2)])
        return case

    def run(self, case, stats):
        recs = run_seq(case, stats)
        out = []
        for st, r, mir in walk(case, recs):
            if "out" not in r:
                continue
            stats.rec(r)
            what = describe(st, mir.pool)
            spec = mir.spec(st["m"])
            rs = resolve(st, mir.pool)
            e = ref(spec, rs, stats)
            io = st.get("fault", {}).get("kind") == "io"
            if io:
                p = st["fault"]["plan"]
                stats.key(st["op"], st.get("file", "").split(".")[-1], p.get("fail", {}).get("call", "quota"), p.get("fail", {}).get("n", p.get("quota", 0)),
                          p.get("fail", {}).get("errno"), r["out"][0], bool(r["fired"]))
            if r.get("touched"):
                out.append(violation("other", r["i"], "%s: touched other files: %s" % (what, r["touched"])))
            if r.get("outside"):
                out.append(violation("other", r["i"], "%s: opened for writing outside its output path: %s" % (what, r["outside"])))
            if r["out"][0] == "ok":
                if e["out"][0] == "ok" and body(st, r.get("file")) != body(st, e.get("file")):
                    out.append(violation("unreported" if r["fired"] else "retry", r["i"], "%s: returned normally%s but the output is not complete" % (
                        what, " although %s failed" % r["fired"] if r["fired"] else "")))
                d = diff_outcome(r["out"], e["out"])
                if d:
                    out.append(violation("answer", r["i"], "%s: %s" % (what, d)))
            elif not r["fired"]:
                d = diff_outcome(r["out"], e["out"])
                if d:
                    out.append(violation("retry", r["i"], "%s: %s (healthy fresh process)" % (what, d)))
            elif io and r["out"][0] == "exc" and r["out"][1] in ("InjectedFault",):
                out.append(violation("unreported", r["i"], "%s: %s" % (what, brief(r["out"]))))
            if r["out"][0] == "exc" and not io and "file" in r and r["file"] != r["before"]:
                out.append(violation("destroyed", r["i"], "%s: failed (%s) before producing output, yet the existing file changed (%s -> %s bytes)" % (
                    what, brief(r["out"]), None if r["before"] is None else len(r["before"]), None if r["file"] is None else len(r["file"]))))
        return out


def section_end(R, text):
    """A place in a JSON text just behind the end of a section, at any depth but rather an outer one."""
    depth, ends = 0, {}
    for j, ch in enumerate(text):
        if ch == "{":
            depth += 1
        elif ch == "}":
            depth -= 1
            if depth:
                ends.setdefault(depth, []).append(j + 1)
    d = min(R.choice([1, 1, 1, 2, 2, 3]), max(ends))
    at = R.choice(ends[d])
    return min(len(text), at + R.choice([0, 0, 0, 1]))


class C08(Prop):
    id = "C08"
    searches = "failing, short and interrupted reads and input-file changes"
    level = "fault_enumeration"
    quick, thorough = 1200, 20000
    rule = ("one run = building a model (airplane file, radial tables) under short and interrupted reads, or a failing open/read at the k-th call, or a "
            "missing, unreadable or truncated airplane file; then requests before and after the input files are overwritten and deleted. Distinct: "
            "(fault kind and position band, number of input files, outcome)")

    def gen(self, R, tier, stats, i):
        case = base_case(R, "C08", models=2, planes=1, via=("file", "file", "airplane"), maxgrid=4, maxnodes=9)
        spec = case["planes"][0]
        case["models"][1] = {"plane": 0, "via": "file"}
        if R.random() < 0.6 and gen.has_props(spec):
            p = R.choice(list(spec["json"]["propellers"].values()))
            for k, f in (("pitch", "pt.txt"), ("chord", "ct.txt")):
                if R.random() < 0.7:
                    spec["tables"][f] = gen.gen_table(R, k)
                    p[k] = {"type": "from_file", "filename": f}
        spec["indent"] = R.choice([None, 1, 4])
        spec.pop("raw", None)          # cuts count characters
        pool = gen.Pool(R, spec)
        text = json.dumps(spec["json"], indent=spec["indent"])
        k = R.random()
        b = {"op": "build", "m": 0}
        respec = k >= 0.88
        tabs = ["plane0." + p[kk]["filename"] for p in spec["json"].get("propellers", {}).values() for kk in ("pitch", "chord") if p[kk].get("type") == "from_file"]
        if R.random() < 0.15 and not respec:
            case["relin"] = True
        if respec:
            # the input is rewritten between two builds in one process
            other = other_contents(R, spec, tabs)
            case["planes"].append(other)
            b = None
        elif k < 0.28:
            p = {"scope": "in"}
            if R.random() < 0.8:
                p["rchunk"] = R.choice([[1], [3], [17, 1], [512], [1, 4000]])
            if R.random() < 0.6:
                p["eintr"] = sorted(R.sample(range(1, 10), R.randint(1, 3)))
            if R.random() < 0.5:
                p["bufsize"] = R.choice([1, 16, 300])
            b["fault"] = {"kind": "io", "plan": p}
        elif k < 0.58:
            call = R.choice(["open", "open", "read", "read", "read"])
            p = {"scope": "in", "sticky": R.random() < 0.5,
                 "fail": {"call": call, "n": R.randint(1, 4) if call == "open" else int(10 ** R.uniform(0, 1.5)),
                          "errno": R.choice(["EIO", "EACCES", "EMFILE", "ENOENT"] if call == "open" else ["EIO", "EIO", "ESTALE"])}}
            if call == "read":
                p["rchunk"] = R.choice([[200], [1000], [37]])
                p["bufsize"] = R.choice([64, 512])
            if tabs and R.random() < 0.5:
                # the n-th access to this table
                p["match"] = R.choice(tabs)
                p["fail"]["n"] = R.randint(1, 3)
                if call == "read":
                    p["rchunk"], p["bufsize"] = [R.choice([16, 40, 90])], R.choice([16, 64, 512])
                    p["fail"]["n"] = R.randint(1, 8)
            b["fault"] = {"kind": "io", "plan": p}
        elif tabs and k < 0.7:
            b["bad"] = bad_table(R, spec, R.choice(tabs))
        elif k < 0.8:
            b["cut"] = R.choice([0, 1, R.randrange(len(text)), max(0, len(text) - R.randint(1, 40))])
        else:
            b["cut"] = -1        # missing
        if b and b.get("cut", -1) > 0 and R.random() < 0.6:
            # cut where a section, an entry or a component ends
            if R.random() < 0.6:
                keys = list(spec["json"])
                R.shuffle(keys)
                spec["json"] = {kk: spec["json"][kk] for kk in keys}
                text = json.dumps(spec["json"], indent=spec["indent"])
            b["cut"] = section_end(R, text)
        steps = case["steps"]
        if respec:
            if R.random() < 0.7:
                steps.append({"op": "build", "m": 0})
                if R.random() < 0.7:
                    steps.append(gen.gen_op(R, spec, pool, model=0, kinds=["solve", "distributions"], file_p=0.0))
            else:
                steps.append({"op": "build", "m": 0, "cut": 0, "first_cut": True})
                steps.insert(0, {"op": "put_cut", "n": R.choice([0, R.randrange(len(text))])})
            steps.append({"op": "put_plane", "to": 1, "same_time": R.random() < 0.5})
            steps.append({"op": "build", "m": 1})
            for m in R.sample([0, 1, 1], R.randint(2, 3)):
                steps.append(gen.gen_op(R, spec, pool, model=m, kinds=["solve", "distributions", "props_solve"], file_p=0.0, search=0.1))
            case["pool"] = pool.d
            return case
        if R.random() < 0.4:
            steps.append(gen.gen_op(R, spec, pool, model=1, kinds=["solve", "distributions"], file_p=0.0))
        if R.random() < 0.6:
            # other files that happen to lie about are not inputs
            decoy = json.dumps(plain_of(other_contents(R, spec, [])))
            for f in R.sample(["out/plane0.json", "out/in/plane0.json", "in/plane0.json.bak", "in/plane0.json~", "plane0.json", "in/plane.json"], R.randint(1, 4)):
                steps.append({"op": "put", "path": f, "text": decoy, "decoy": True})
            for t in tabs:
                if R.random() < 0.7:
                    steps.append({"op": "put", "path": R.choice(["out/", "", "out/in/"]) + t, "text": gen.gen_table(R, "pitch" if "pt" in t or "pitch" in t else "chord"), "decoy": True})
        if b.get("bad"):
            f, t = b["bad"]
            steps.append({"op": "unlink" if t is None else "put", "path": "in/" + f, "text": t, "decoy": True, "spoils": True})
        if "cut" in b:
            if b["cut"] < 0:
                steps.append({"op": "unlink", "path": "in/plane0.json"})
            else:
                steps.append({"op": "put_cut", "n": b["cut"]})
        steps.append(b)
        for _ in range(R.randint(1, 2)):
            st = gen.gen_op(R, spec, pool, model=1 if R.random() < 0.3 else 0, kinds=["solve", "distributions", "ll_solve", "props_solve"], file_p=0.0, search=0.1)
            steps.append(st)
        if "cut" not in b and "bad" not in b:
            if R.random() < 0.3:
                steps.append({"op": "chdir", "to": R.choice(["elsewhere", "in", "."])})
            for f in ["plane0.json"] + ["plane0." + t for t in spec["tables"]]:
                if R.random() < 0.5:
                    steps.append({"op": "unlink", "path": "in/" + f})
                else:
                    steps.append({"op": "put", "path": "in/" + f, "text": R.choice(["", "garbage", "0.1 5\n0.5 9\n1.0 2\n", "{}"])})
            for _ in range(R.randint(1, 3)):
                steps.append(gen.gen_op(R, spec, pool, model=0, weights=LOWHEAVY, file_p=0.05, search=0.1))
        case["pool"] = pool.d
        return case

    def generate(self, *a):
        case = super().generate(*a)
        for st in case["steps"]:
            if st["op"] == "props_solve":
                st.pop("solver", None)     # would be made from the changed tables
        return case

    def run(self, case, stats):
        c = copy.deepcopy(case)
        spec = case["planes"][0]
        text = json.dumps(driver_text(spec), indent=spec.get("indent"))
        built = None
        recs, st_ = run_child(run_load, c)
        stats.add_case_stats(st_)
        out = []
        broken_input = False
        alive = {}
        gone = respec = False
        for st, r, mir in walk(case, recs):
            if st["op"] == "put_plane":
                alive.pop(1, None)
                respec = True
                continue
            if st.get("decoy"):
                # a spoiled table also keeps models not yet built from being built
                broken_input = broken_input or bool(st.get("spoils"))
                continue
            if st["op"] == "put_cut" or (st["op"] == "unlink" and not gone and any(s["op"] == "put_cut" or s.get("cut") for s in case["steps"])):
                broken_input = True
            if st["op"] in ("put", "unlink"):
                gone = True
            if st["op"] in NON_CALL or st["op"] == "put_cut":
                continue
            if r.get("bypassed"):
                continue
            stats.rec(r)
            if st["op"] == "build":
                p = st.get("fault", {}).get("plan", {})
                fired = [f for f in r["fired"] if not f.startswith(("short", "EINTR"))]
                stats.key("build", p.get("fail", {}).get("call"), p.get("fail", {}).get("n", 0) // 2, p.get("fail", {}).get("errno"), sorted(p), st.get("cut", 0) // 100 if st.get("cut") else None,
                          len(spec["tables"]), r["out"][0])
                what = "building under %s" % json.dumps(p or ({"truncated at": st["cut"]} if st.get("cut", 0) >= 0 and "cut" in st else {"file": "missing"} if "cut" in st else {}))
                alive[st["m"]] = r["out"][0] == "ok"
                healthy = "cut" not in st and "bad" not in st and not fired
                if "bad" in st:
                    what = "building with the table %s %s" % (st["bad"][0], "missing" if st["bad"][1] is None else "containing %.200r" % st["bad"][1])
                    stats.key("build", "bad table", (st["bad"][1] or "")[-12:], r["out"][0])
                    if r["out"][0] == "ok":
                        out.append(violation("load", r["i"], "%s: a model was built" % what))
                if healthy and r["out"][0] != "ok":
                    out.append(violation("load", r["i"], "%s: raised %s" % (what, brief(r["out"]))))
                if "cut" in st and r["out"][0] == "ok":
                    out.append(violation("load", r["i"], "%s: a model was built" % what))
                for f, mode in r["opened"]:
                    if f.startswith("in/") and any(x in mode for x in "wax+"):
                        out.append(violation("readonly", r["i"], "%s: input %s opened with mode %s" % (what, f, mode)))
                if r["touched"]:
                    out.append(violation("readonly", r["i"], "%s: files changed: %s" % (what, r["touched"])))
                if r["out"][0] == "ok" and r["handles"]:
                    out.append(violation("readonly", r["i"], "%s: left open: %s" % (what, r["handles"])))
                continue
            if st["m"] not in alive:
                alive[st["m"]] = not broken_input and not gone
                if not alive[st["m"]]:
                    continue
            if not alive[st["m"]]:
                continue
            what = describe(st, mir.pool)
            e = ref(case["planes"][1] if respec and st["m"] == 1 else spec, resolve(st, mir.pool), stats)
            d = diff_outcome(r["out"], e["out"])
            if respec:
                stats.key("rewritten", st["m"], st["op"], e["out"][0], len(spec["tables"]))
            if d:
                out.append(violation("model", r["i"], "%s on the loaded model: %s (loaded on a healthy system)" % (what, d)))
            for f, mode in r.get("opened", ()):
                if f.startswith("in/") and any(x in mode for x in "wax+"):
                    out.append(violation("readonly", r["i"], "%s opened the input file %s with mode %s" % (what, f, mode)))
            if [t for t in r.get("touched", ()) if t.startswith("in/")]:
                out.append(violation("readonly", r["i"], "%s changed input files %s" % (what, r["touched"])))
        return out


def driver_text(spec):
    return spec["json"]


def plain_of(spec):
    """Input file contents that need no tables."""
    J = copy.deepcopy(spec["json"])
    for p in J.get("propellers", {}).values():
        for k in ("pitch", "chord"):
            if p[k].get("type") == "from_file":
                p[k] = {"type": "default"}
    return J


def other_contents(R, spec, tabs):
    """Another airplane that could lie in the same files."""
    o = copy.deepcopy(spec)
    if tabs and R.random() < 0.6:
        for f in o["tables"]:
            o["tables"][f] = gen.gen_table(R, "pitch" if f.startswith(("pt", "pitch")) else "chord")
        if R.random() < 0.6:
            return o
    for w in o["json"].get("wings", {}).values():
        w["root_chord"] = r6(w["root_chord"] * 1.25)
    for p in o["json"].get("propellers", {}).values():
        p["diameter"] = r6(p["diameter"] * 1.2)
    o["json"]["plane"]["CGx"] = r6(o["json"]["plane"]["CGx"] + 0.1)
    return o


def bad_table(R, spec, tab):
    """A table that cannot be read as one: missing, empty, or with a line that is no table row."""
    rows = spec["tables"][tab.split(".", 1)[1]].rstrip("\n").split("\n")
    k = R.random()
    if k < 0.2:
        return [tab, None]
    if k < 0.3:
        return [tab, ""]
    i = R.randrange(1, len(rows) + 1)
    rows.insert(i, R.choice(["0.5 oops", "abc", "0.5", "0.55 1.0 2.0", "0.5,7", "\x00\x01\x02", "0.5 0x", "half 3"]))
    return [tab, "\n".join(rows) + "\n"]


def run_load(case, trace=False):
    """run_history plus the truncation step, in the child."""
    w = driver.World(case["_root"], case)
    recs = []
    for i, st in enumerate(case["steps"]):
        if st["op"] == "put_cut":
            p = w.paths[0]
            data = w.fs.read_raw(p)
            driver.put(p, data[:min(st["n"], len(data.rstrip()) - 1)])
            recs.append({"i": i, "op": "put_cut"})
            continue
        if st["op"] == "put_plane":
            keep = {f: os.stat(os.path.join(w.indir, f)) for f in os.listdir(w.indir)}
            for f in list(keep):
                if f.startswith("plane1."):
                    os.unlink(os.path.join(w.indir, f))
            driver.write_plane(w.indir, "plane0", case["planes"][st["to"]])
            if st["same_time"]:
                for f, t in keep.items():
                    if f.startswith("plane0."):
                        os.utime(os.path.join(w.indir, f), ns=(t.st_atime_ns, t.st_mtime_ns))
            recs.append({"i": i, "op": "put_plane"})
            continue
        st = dict(st, watch=True) if st["op"] not in NON_CALL and st["op"] != "build" else st
        recs.append(w.run_step(i, st, trace))
    st = {"fs": w.fs.stats, "clock": w.clock.reads, "lines": w.lines}
    w.close()
    return recs, st


# ------------------------------------------------------------------ histories and clients for the oracle properties
def to_clients(R, case):
    """Turn a generated single-client history into interleaved clients on own models."""
    nc = len(case["models"])
    case["clients"] = [[{"op": "build", "m": c}] for c in range(nc)]
    for k, st in enumerate(case["steps"]):
        if st["op"] in NON_CALL or st["op"] == "build":
            continue
        st.pop("prior", None)
        if st.get("file"):
            st["file"] = "c%d_%d_%s" % (st["m"], k, st["file"])
        case["clients"][st["m"]].append(st)
    del case["steps"]
    case["policy"] = R.choice([{"p": 0.1}, {"p": 0.02}, {"p": 0.004}])
    case["sseed"] = R.getrandbits(40)
    return case


def run_any(case, stats):
    """(step, resolved step, spec, record) of every request that was not faulted."""
    if "clients" in case:
        recs, log, end, st = run_child(driver.run_threads, case)
        case["_log"] = log
        stats.add_case_stats(st)
        stats.key("schedule", log)
        for c in sorted(recs):
            for s, r in zip(case["clients"][c], recs[c]):
                if s["op"] == "build":
                    continue
                stats.rec(dict(r, fired=[]))
                if not r.get("fired"):
                    yield s, resolve(s, case["pool"]), spec_of(case, s["m"]), r
        return
    recs = run_seq(case, stats)
    for st, r, mir in walk(case, recs):
        if st["op"] in NON_CALL or st["op"] == "build":
            continue
        stats.rec(r)
        if r.get("fired"):
            continue
        yield st, resolve(st, mir.pool), mir.spec(st["m"]), r


class OracleProp(Prop):
    """History (with failures) or interleaved clients; each answer judged by a reference model."""
    wings = None
    threads_p = 0.15
    file_p = 0.1
    weights = {}
    n = (3, 7)
    search = 0.15
    fault_p = 0.12
    bad_p = 0.1
    plane = {}
    vias = ("file", "file", "airplane")

    def gen(self, R, tier, stats, i):
        threads = R.random() < self.threads_p
        case = base_case(R, self.id, models=R.choice([2, 3]) if threads else R.choice([1, 1, 2]), planes=1, via=self.vias, maxgrid=4, maxnodes=9, **self.choose_plane(R))
        w = dict(self.weights)
        if threads:
            w.update({k: 0 for k in ("find_aero_center", "stall_airspeed", "stall_onset")})
        history(R, case, R.randint(*self.n), bad_p=0 if threads else self.bad_p, edit_p=0.08, weights=w, search=self.search, file_p=self.file_p,
                wild=0.03, p_none=0.15)
        fixup_edits(case)
        if threads:
            case["steps"] = [s for s in case["steps"] if s["op"] != "edit"]
            to_clients(R, case)
        else:
            inject_faults(R, case, self.fault_p, stats)
        self.tweak(R, case)
        return case

    def choose_plane(self, R):
        return {}

    def tweak(self, R, case):
        pass

    def run(self, case, stats):
        out = []
        for st, rs, spec, r in run_any(case, stats):
            e = self.judge(spec, rs, r, stats)
            stats.key(st["op"], r["out"][0], bool(st.get("ctl")), bool(st.get("aero")), bool(st.get("prop")), "clients" in case,
                      [len(spec["json"].get("wings", {})), len(spec["json"].get("propellers", {}))])
            if r["out"][0] == "exc" and str(r["out"][1]).startswith("build:"):
                continue
            if e:
                out.append(violation(self.kind, r["i"], "%s: %s" % (describe(rs), e)))
        return out


class C09(OracleProp):
    id = "C09"
    searches = "histories, faults and interleavings against a composition model"
    kind = "composition"
    quick, thorough = 300, 6000
    weights = {"solve": 1.5, "distributions": 2, "ll_solve": 0.3, "props_solve": 0.3, "derivatives": 2.5, "stability_derivatives": 2,
                               "control_derivatives": 2, "damping_derivatives": 2, "target_lift": 0.4, "stall_onset": 1.0, "pitch_trim": 0.2,
                               "create_stl": 0.02, "find_aero_center": 0.06, "stall_airspeed": 0.01}
    search = 0.1
    rule = ("one run = a random history (with failing and interrupted requests) or interleaved clients in which derivatives, stall onset, aerodynamic "
            "centre and distributions are requested; each is recomputed by a reference model from individual solves at the perturbed states, every "
            "one on its own freshly built model in a fresh process. Distinct: (request kind, outcome, arguments supplied, sequential or interleaved, "
            "wings and propellers on the airplane)")

    def choose_plane(self, R):
        return dict(wings=R.choices([1, 2, 3], [2, 4, 2])[0], props=R.choice([0, 0, 1, 2]))

    def gen(self, R, tier, stats, i):
        if i % 10 != 4:
            return OracleProp.gen(self, R, tier, stats, i)
        # the aerodynamic centre takes 400 solves: on small airplanes, in every tenth run
        case = base_case(R, "C09", models=1, planes=1, via=self.vias, maxgrid=3, maxnodes=7, wings=R.choice([1, 2]), props=R.choice([0, 1, 1, 1]))
        history(R, case, R.randint(0, 2), bad_p=0.2, edit_p=0, weights=dict(LOWHEAVY, find_aero_center=0, stall_airspeed=0), search=0.1)
        pool = gen.Pool(R, case["planes"][0])
        pool.d, pool.n = case["pool"], 100
        for _ in range(R.choice([1, 1, 2])):
            st = gen.gen_op(R, pool.spec, pool, kinds=["find_aero_center"], search=0.0, wild=0.0, file_p=0.3)
            a = pool.d.get(st["aero"])
            if a and R.random() < 0.5:
                a.update({k: R.choice([0.1, -0.3, 0.4]) for k in R.sample(["roll_rate", "pitch_rate", "yaw_rate", "beta"], 2)})
            case["steps"].append(maybe_form(R, st))
            if R.random() < 0.4:
                case["steps"].append(gen.gen_op(R, pool.spec, pool, kinds=["solve", "distributions", "stability_derivatives"], search=0.0, file_p=0.0))
        return self.lighten(case)

    def judge(self, spec, rs, r, stats):
        return oracles.composition(spec, rs, r["out"], stats)


class C12(OracleProp):
    id = "C12"
    searches = "histories, faults and interleavings against accounting identities"
    kind = "accounting"
    quick, thorough = 700, 12000
    weights = {"solve": 8, "distributions": 5, "ll_solve": 3, "props_solve": 1, "derivatives": 0.4, "stability_derivatives": 0.1, "control_derivatives": 0.1,
               "damping_derivatives": 0.1, "target_lift": 0.5, "stall_onset": 0.2, "pitch_trim": 0.3, "create_stl": 0.02, "find_aero_center": 0.03, "stall_airspeed": 0.01}
    file_p = 0.6
    n = (4, 10)
    threads_p = 0.2
    rule = ("one run = a random history (with failing and interrupted requests) or interleaved clients; for every answer total = wing + propeller, wing = "
            "inviscid + viscous, wind-axis and body-axis components are one vector, sectional forces sum to the inviscid force of a fresh solve, written "
            "documents equal the returned values. Distinct: as for C09")

    def judge(self, spec, rs, r, stats):
        return oracles.identities(spec, rs, r["out"], r.get("file"), stats)


class C13(OracleProp):
    id = "C13"
    searches = "histories, faults and targets with replayed solutions"
    kind = "target"
    quick, thorough = 300, 8000
    weights = {"solve": 1, "distributions": 3, "ll_solve": 0.2, "props_solve": 0.2, "derivatives": 0.1, "stability_derivatives": 0.1, "control_derivatives": 0.1,
               "damping_derivatives": 0.1, "target_lift": 5, "stall_onset": 1.2, "pitch_trim": 3, "create_stl": 0.0, "find_aero_center": 0.01, "stall_airspeed": 0.12}
    file_p = 0.3
    search = 0.1
    n = (3, 8)
    rule = ("one run = a random history (with failing and interrupted requests) or interleaved clients of target-seeking requests, varied targets and tolerances, "
            "reachable or not; each reported solution is replayed as a plain solve on a fresh model in a fresh process and must meet the target, otherwise "
            "the request must have raised or written the error document. Distinct: as for C09")

    def choose_plane(self, R):
        k = R.random()
        if k < 0.25:
            return dict(wings=R.choice([0, 1]), props=1, motor=R.random() < 0.6)
        return dict(wings=R.choices([1, 2, 3], [2, 4, 2])[0], props=R.choice([0, 0, 1]))

    def gen(self, R, tier, stats, i):
        if i % 4 != 3:
            return super().gen(R, tier, stats, i)
        # one propeller and many searches for its speed, ordinary and hopeless ones
        case = base_case(R, "C13", models=R.choice([1, 1, 2]), planes=1, via=self.vias, wings=R.choice([0, 0, 0, 1]), props=1, motor=R.random() < 0.85, maxgrid=2, maxnodes=8)
        motor = gen.has_motor(case["planes"][0])
        for k in range(R.randint(8, 16)):
            case["pool"]["a%d" % k] = {"V_mag": R.choice([10.0, 5.0, 33.0, 60.0, r6(R.uniform(1, 90))]), "rho": 0.0023769, "alpha": R.choice([0.0, 0.0, 4.0])}
            case["pool"]["p%d" % k] = ({"electric_throttle": R.choice([r6(R.random()), r6(10 ** R.uniform(-3, 0)), 1.0, r6(R.uniform(1, 5)), 0.0])} if motor and R.random() < 0.7 else
                                       {"brake_power": r6(R.choice([1, 1, 1, 1, -1]) * 10 ** R.choice([R.uniform(-0.5, 1.8), R.uniform(-3, 5)]))})
            case["steps"].append({"op": "distributions", "m": R.randrange(len(case["models"])), "aero": "a%d" % k, "ctl": None, "prop": "p%d" % k})
        inject_faults(R, case, 0.05, stats)
        return case

    def tweak(self, R, case):
        pool = case["pool"]
        spec = case["planes"][0]
        if R.random() < 0.12 and not any(s["op"] == "stall_airspeed" for s in case.get("steps", ())):
            hard_to_stall(R, spec)
        for st in case.get("steps", []) + [s for c in case.get("clients", []) for s in c]:
            if st["op"] in ("target_lift", "pitch_trim", "stall_airspeed") and R.random() < 0.25:
                st["error"] = R.choice([1e-3, 1e-5, 1e-2, 1e-7])
                if st.get("form") == "pos":
                    st["form"] = "kw"
            if st["op"] == "distributions" and len(spec["json"].get("propellers", {})) == 1 and R.random() < 0.8 and not st.get("fault"):
                n = "pS%d" % len(pool)
                pool[n] = {"electric_throttle": r6(R.uniform(0.15, 1.0))} if gen.has_motor(spec) and R.random() < 0.5 else {"brake_power": r6(10 ** R.uniform(-0.5, 1.8))}
                st["prop"] = n

    def judge(self, spec, rs, r, stats):
        e = oracles.target(spec, rs, r["out"], r.get("file"), stats)
        return e or oracles.speed_found(spec, rs, r["out"], stats)


class C14(Prop):
    id = "C14"
    searches = "histories and faults around requests with omitted arguments"
    quick, thorough = 300, 8000
    rule = ("one run = a random history of ordinary, failing and interrupted requests with requests in between that leave out states or entries; each must "
            "equal, in answer and file, the request with the documented defaults spelled out, made on a fresh model in a fresh process. Distinct: "
            "(request kind, set of things left out, filename form, preceding request kind)")

    def gen(self, R, tier, stats, i):
        hard = i % 10 == 7
        if hard:
            # searches that cannot succeed must say so alike
            case = base_case(R, "C14", models=1, planes=1, via=("file", "file", "airplane"), maxgrid=2, maxnodes=6, wings=R.choice([0, 1, 1, 1, 1]), props=None)
            low = R.random() < 0.4
            if not low:
                hard_to_stall(R, case["planes"][0])
        else:
            case = base_case(R, "C14", models=1, planes=1, via=("file", "file", "airplane"), maxgrid=4, maxnodes=9)
        spec = case["planes"][0]
        history(R, case, R.randint(3, 7), bad_p=0.15, edit_p=0.05, weights=LOWHEAVY, search=0.25)
        fixup_edits(case)
        inject_faults(R, case, 0.15, stats)
        pool = gen.Pool(R, spec)
        pool.d, pool.n = case["pool"], 1000
        out = []
        for st in case["steps"]:
            out.append(st)
            if R.random() < 0.75:
                d = gen.gen_op(R, spec, pool, model=0, weights=dict(LOWHEAVY, derivatives=1.2, stability_derivatives=1.2, control_derivatives=1.5, damping_derivatives=1.2,
                                                                    target_lift=2, pitch_trim=1.2, stall_onset=0.8, find_aero_center=0.06, stall_airspeed=0.02, ll_solve=3, props_solve=3), file_p=0.35, search=0.1)
                self.leave_out(R, d, pool, spec)
                out.append(d)
        if hard:
            for k in range(3):
                op = R.choices(["stall_onset", "stall_airspeed", "target_lift", "pitch_trim"], [6, 4 if low else 0, 3, 3])[0]
                d = {"op": op, "m": 0, "aero": None, "ctl": None, "prop": None, "L": R.choice([1e6, -1e5, 1e4]), "W": R.choice([-30.0, -1.0, 20.0])}
                d = {k: v for k, v in d.items() if k not in ("L", "W") or (k == "L") == (op in ("target_lift", "pitch_trim")) and (k == "W") == (op == "stall_airspeed")}
                if not spec["json"].get("wings") and op in ("target_lift", "pitch_trim"):
                    continue
                if R.random() < 0.75:
                    d["file"] = "a.json"
                d["dflt"], d["form"] = True, R.choice(["kw", "omit"])
                if R.random() < 0.3:
                    d["ctl"] = pool.new("ctl", gen.gen_ctl(R))
                out.append(d)
            if low:
                for w in spec["json"].get("wings", {}).values():
                    for a in w["airfoils"].values():
                        a["properties"]["CL_max"] = r6(R.uniform(0.3, 0.6))
        case["steps"] = out
        return case

    def leave_out(self, R, d, pool, spec):
        d["dflt"] = True
        d["form"] = R.choice(["kw", "omit", "pos"])
        if R.random() < 0.5 and d["op"] != "create_stl":
            d["aero"] = None
            if R.random() < 0.2:
                d["aero"] = {}
        if R.random() < 0.6:
            d["ctl"] = None
            if R.random() < 0.2:
                d["ctl"] = {}
        if R.random() < 0.5 and d["op"] != "create_stl":
            d["prop"] = None
        if isinstance(d.get("aero"), str) and R.random() < 0.7:
            a = copy.deepcopy(pool.d[d["aero"]])
            for k in ("alpha", "beta", "roll_rate", "pitch_rate", "yaw_rate"):
                if k in a and R.random() < 0.5:
                    del a[k]
            d["aero"] = a
        if isinstance(d.get("ctl"), str) and R.random() < 0.6:
            c = copy.deepcopy(pool.d[d["ctl"]])
            for k in list(c):
                if R.random() < 0.5:
                    del c[k]
            d["ctl"] = c
        if d["op"] == "ll_solve" and d["aero"] == {}:
            d["aero"] = None

    def explicit(self, rs):
        """The same request with the documented defaults written out."""
        e = dict(rs)
        e.pop("dflt", None)
        e["form"] = "kw"
        rho = 1.0 if rs["op"] == "ll_solve" else 0.0023769
        a = e.get("aero")
        full = {"V_mag": 10, "rho": rho, "alpha": 0.0, "beta": 0.0, "roll_rate": 0.0, "pitch_rate": 0.0, "yaw_rate": 0.0}
        if rs["op"] != "create_stl":
            e["aero"] = dict(full, **a) if a else full
            if a and ("V_mag" not in a or "rho" not in a or not a["V_mag"]):
                return None
            c = e.get("ctl")
            if rs["op"] != "props_solve":
                e["ctl"] = dict({"aileron": 0.0, "elevator": 0.0, "rudder": 0.0, "flap": 0.0}, **(c or {}))
            if not e.get("prop") and rs["op"] != "ll_solve":
                e["prop"] = {"J": 0.5}
        if rs["op"] == "pitch_trim":
            e.setdefault("M", 0.0)
        if rs["op"] in ("target_lift", "pitch_trim", "stall_airspeed"):
            e.setdefault("error", 1e-9)
        return e

    def run(self, case, stats):
        recs = run_seq(case, stats)
        out = []
        prev = None
        for st, r, mir in walk(case, recs):
            if st["op"] in NON_CALL or st["op"] == "build":
                continue
            stats.rec(r)
            if not st.get("dflt"):
                prev = (st["op"], bool(r.get("fired")))
                continue
            rs = resolve(st, mir.pool)
            e = self.explicit(rs)
            if e is None:
                continue
            stats.key(st["op"], st.get("form"), st.get("aero") is None, st.get("ctl") is None, st.get("prop") is None, sorted(rs.get("aero") or ()), bool(st.get("file")), prev)
            want = ref(mir.spec(st["m"]), e, stats)
            d = diff_outcome(r["out"], want["out"], rtol=1e-8, atol=1e-9)
            what = describe(rs)
            if d:
                out.append(violation("default", r["i"], "%s: %s (defaults spelled out)" % (what, d)))
            elif st["op"] == "create_stl" or st.get("file"):
                if r["out"][0] == "ok" and (r.get("file") is None) != (want.get("file") is None):
                    out.append(violation("default", r["i"], "%s: no file was written" % what))
                elif r["out"][0] == "ok" and not self.same_file(st, r["file"], want["file"]):
                    out.append(violation("default", r["i"], "%s: the file differs from the one written with the defaults spelled out" % what))
            prev = st["op"]
        return out

    @staticmethod
    def same_file(st, a, b):
        if body(st, a) == body(st, b):
            return True
        if a is None or b is None:
            return False
        try:
            if st["op"] == "distributions":
                ta, tb = a.decode(), b.decode()
                if st["file"].endswith("json"):
                    ta, tb = [json.loads(x)["data"].replace("newline", "\n") for x in (ta, tb)]
                pa, pb = oracles.parse_distributions(ta), oracles.parse_distributions(tb)
                return diff([[list(r[1]) for r in x] for x in pa], [[list(r[1]) for r in x] for x in pb], rtol=1e-7, atol=1e-8) is None
            return diff(json.loads(a.decode()), json.loads(b.decode()), rtol=1e-8, atol=1e-9) is None
        except (ValueError, KeyError):
            return False


class C15(Prop):
    id = "C15"
    searches = "construction and edit histories"
    quick, thorough = 600, 12000
    rule = ("one run = one airplane description reached in 2-3 ways (input file, plain API calls, API calls in another order with settings overwritten later), models built "
            "before and after edits, centre-of-gravity edits while models are in use; forces must equal those of the final description loaded from a "
            "file by a fresh process, and the description held by an airplane must not change by building or using models. Distinct: (construction "
            "command kinds in order, request kind, edit pattern) hashed")

    def gen(self, R, tier, stats, i):
        case = base_case(R, "C15", models=0, planes=1, maxgrid=4, maxnodes=9)
        case["describe"] = 1
        spec = case["planes"][0]
        if R.random() < 0.25:
            spec["json"]["reference"].update(lateral_length=None, longitudinal_length=None)
        case["models"] = [{"plane": 0, "via": R.choice(["file", "airplane"])}]
        if i % 3 == 1:
            # an input file corrected and completed through the API
            base, b, changed = builder.file_history(R, spec, "plane0.", "base1.json")
            case["models"].append({"plane": 0, "via": "api", "build": b, "reordered": changed, "base": base})
        else:
            spec["json"]["condition"]["units"] = None
            b, changed = builder.history(R, spec, "plane0.")
            case["models"].append({"plane": 0, "via": "api", "build": b, "reordered": changed})
            case["models"].append({"plane": 0, "via": "api", "build": builder.plain(spec, "plane0.")})
        pool = gen.Pool(R, spec)
        steps = case["steps"]
        built = set()
        mir = Mirror(case)
        for _ in range(R.randint(4, 9)):
            m = R.choice([0, 1, 1, 2]) % len(case["models"])
            k = R.random()
            if k < 0.3 and m in built:
                xyz = [R.choice([None, 0.0, 0.0, 0.3, -0.25, 0.11]) for _ in range(3)]
                steps.append({"op": "cg", "m": m, "xyz": xyz, "pos": R.random() < 0.3})
                if R.random() < 0.3:
                    steps.append({"op": "build", "m": m}) if case["models"][m]["via"] == "airplane" else None
            elif k < 0.5 and m in built:
                J = mir.spec(m)["json"]
                st = builder.gen_alter(R, J)
                md = case["models"][m]
                whole = md["via"] == "api" and not md.get("base")
                if whole or st["what"] in ("ref", "wing", "prop"):
                    st = dict(st, op="alter", m=m, cmds=builder.alter_cmds(J, st, "plane0."))
                    if st["what"] in ("wing", "prop"):
                        st["cmds"] = [builder.shorten(R, c) for c in st["cmds"]]
                    steps.append(st)
                    mir.apply(st)
            if R.random() < 0.15 and m in built:
                steps.append({"op": "rebuild", "m": m})
            now = mir.spec(m)
            steps.append(gen.gen_op(R, now, pool, model=m, weights=dict(LOWHEAVY, solve=12, distributions=3, create_stl=0.6), search=0.1, file_p=0.02,
                                    kinds=["solve", "distributions", "ll_solve", "props_solve", "derivatives", "stability_derivatives", "target_lift", "stall_onset", "create_stl"]))
            built.add(m)
        case["pool"] = pool.d
        return case

    def run(self, case, stats):
        recs = run_seq(case, stats)
        out = []
        edits = []
        for st, r, mir in walk(case, recs):
            if st["op"] == "alter":
                edits.append((st["what"], st["m"]))
            if r.get("altered"):
                out.append(violation("altered", r["i"], "%s on model %d altered the airplane: %s" % (st["op"], st["m"], r["altered"])))
            if st["op"] in NON_CALL:
                continue
            stats.rec(r)
            if st["op"] == "build":
                continue
            m = st["m"]
            md = case["models"][m]
            stats.key(st["op"], [c[:2] for c in md.get("build", ())], mir.cg.get(mir.owner(m)), sorted(n for n, b in edits if b == m))
            spec = mir.spec(m)
            rs = resolve(st, mir.pool)
            if r["out"][0] == "exc" and str(r["out"][1]).startswith("build:"):
                e = ref(spec, rs, stats)
                if e["out"][0] == "ok":
                    out.append(violation("assembly", r["i"], "assembling the airplane raised %s" % (r["out"],)))
                continue
            e = ref(spec, rs, stats)
            got, want = r["out"], e["out"]
            kw = {}
            if md.get("reordered"):
                got, want = unorder(st, got), unorder(st, want)
                kw = dict(rtol=1e-6, atol=1e-7)
                if st["op"] == "stall_onset" and got[0] == "ok":
                    got, want = ("ok", {k: got[1][k] for k in ("alpha", "lift") if k in got[1]}), ("ok", {k: want[1][k] for k in ("alpha", "lift") if k in want[1]})
            else:
                kw = dict(rtol=1e-9, atol=1e-10)
            d = diff_outcome(got, want, **kw)
            if d:
                out.append(violation("assembly", r["i"], "%s on model %d (%s): %s (final description loaded from a file)" % (
                    describe(rs), m, md["via"] + (", other order" if md.get("reordered") else ""), d)))
            elif r["op"] == "create_stl" and not one_name(md) and facets(r.get("file"), md.get("reordered")) != facets(e.get("file"), md.get("reordered")):
                out.append(violation("assembly", r["i"], "STL exported by model %d (%s) differs from that of the final description" % (m, md["via"])))
        return out


def one_name(md):
    """Built with other airfoil names than the file's (names decide the exported shapes)."""
    return not md.get("base") and len({c[2] for c in md.get("build", ()) if c[0] == "wing_airfoil"}) == 1


def facets(data, reordered):
    """Facets of a binary STL file; in no particular order when components were added in another order."""
    if data is None:
        return None
    if not reordered:
        return data[80:]
    return data[80:84], sorted(data[i:i + 50] for i in range(84, len(data), 50))


def unorder(st, o):
    """Make an outcome independent of the order in which components were added."""
    if o[0] != "ok":
        return o
    import numpy as np
    v = o[1]
    if st["op"] == "distributions":
        res = []
        for d in v:
            if not d:
                res.append({})
                continue
            names = [str(n) for n in d["name"]]
            idx = sorted(range(len(names)), key=lambda i: (names[i], i))
            res.append({k: (np.array([x[i] for i in idx]) if k != "name" else [names[i] for i in idx]) for k, x in d.items()})
        return ("ok", res)
    if st["op"] == "props_solve":
        t = {k: x for k, x in v[0]["total"].items() if k not in ("Thrust", "Torque")}
        return ("ok", [t])
    return o


class C10(Prop):
    id = "C10"
    searches = "hard inputs, histories and faults under a counted work budget"
    quick, thorough = 420, 12000
    rule = ("one run = a history of requests with hard inputs (extreme powers, throttles, advance ratios, airspeeds, targets, stall-free and degenerate airfoils, tiny airplanes), also "
            "right after failed and interrupted requests; work is counted in library calls, loop iterations and linear solves, and a request exceeding a multiple of what its algorithm may need "
            "is a violation. Distinct: (request kind, outcome, decade of work used, hard-input kind)")

    def gen(self, R, tier, stats, i):
        wings = R.choice([0, 1, 1, 2])
        props = R.choice([0, 1, 1, 2]) if wings else 1
        case = {"prop": "C10", "planes": [gen.gen_plane(R, wings, props, maxgrid=3, maxnodes=9, motor=R.random() < 0.6)],
                "models": [{"plane": 0, "via": "file"}], "pool": {}, "steps": []}
        spec = case["planes"][0]
        self.harden(R, spec)
        pool = gen.Pool(R, spec)
        hard = []
        for _ in range(R.randint(3, 7)):
            hard.append(self.hard_op(R, spec, pool))
        case["pool"] = pool.d
        case["steps"] = hard
        k = R.random()
        if k < 0.5:
            for st in case["steps"]:
                if R.random() < 0.3:
                    st["fault"] = R.choice([{"kind": "line", "at": int(10 ** R.uniform(0.5, 3.3)), "exc": R.choice(["KeyboardInterrupt", "MemoryError"])},
                                            {"kind": "seam", "fn": "alloc", "n": R.randint(1, 300)}, {"kind": "seam", "fn": "solve", "n": R.randint(1, 5)}])
                    if st["op"] in ("find_aero_center", "stall_airspeed", "stall_onset", "pitch_trim") and st["fault"]["kind"] == "line":
                        st["fault"] = {"kind": "seam", "fn": "solve", "n": R.randint(1, 5)}
        return case

    def harden(self, R, spec):
        J = spec["json"]
        for w in list(J.get("wings", {}).values()) + list(J.get("propellers", {}).values()):
            for a in w["airfoils"].values():
                p = a["properties"]
                k = R.random()
                if k < 0.2:
                    p["CL_max"] = R.choice([50.0, 3.0, 0.01, -1.0])
                elif k < 0.3:
                    p["CL_alpha"] = R.choice([0.1, 0.001, 20.0, 0.0])
                elif k < 0.35:
                    p["alpha_L0"] = R.choice([0.3, -0.4])
        for p in J.get("propellers", {}).values():
            k = R.random()
            if k < 0.2:
                p["pitch"] = {"type": "ratio", "value": R.choice([0.01, 3.0, 0.0])}
            elif k < 0.3:
                p["diameter"] = R.choice([0.05, 10.0])
                p["hub_diameter"] = p["diameter"] * 0.1
            if p.get("electric_motor") and R.random() < 0.3:
                p["electric_motor"].update(motor_kv=R.choice([20.0, 8000.0]), battery_voltage=R.choice([0.5, 100.0]))

    def hard_op(self, R, spec, pool):
        w = {"solve": 6, "distributions": 0.5, "ll_solve": 0.3, "props_solve": 1.5, "derivatives": 0.2, "stability_derivatives": 0.2, "control_derivatives": 0.1,
             "damping_derivatives": 0.1, "target_lift": 3, "stall_onset": 1.0, "pitch_trim": 1.5, "create_stl": 0.05, "find_aero_center": 0.02, "stall_airspeed": 0.12}
        st = gen.gen_op(R, spec, pool, weights=w, file_p=0.2, search=0.2, wild=0.4)
        a = {"V_mag": R.choice([10, 10.0, 1e-3, 0.5, 300.0, 1e4, 60.0, -10.0]), "rho": R.choice([0.0023769, 1.225, 1e-6, 100.0])}
        if R.random() < 0.8:
            a["alpha"] = R.choice([0.0, -0.2, 5.0, 45.0, 89.0, -90.0, 180.0, r6(R.uniform(-20, 20)), -0.0])
        if R.random() < 0.4:
            a["beta"] = R.choice([0.0, 30.0, -80.0, 10.0])
        if R.random() < 0.3:
            a[R.choice(["roll_rate", "pitch_rate", "yaw_rate"])] = R.choice([50.0, -3.0, 0.1])
        st["aero"] = pool.new("aero", a)
        if R.random() < 0.5:
            st["ctl"] = pool.new("ctl", {R.choice(["aileron", "elevator", "flap"]): R.choice([90.0, -60.0, 20.0, 5.0])})
        if gen.has_props(spec) and st["op"] != "ll_solve":
            k = R.random()
            if st["op"] in ("stall_onset", "pitch_trim", "find_aero_center", "stall_airspeed"):
                v = {"J": R.choice([0.5, 0.05, 3.0, 0.5])}
            elif k < 0.35:
                v = {"brake_power": R.choice([1e-6, 0.01, 1.0, 50.0, 1e4, 1e8, 0.0, -10.0, r6(10 ** R.uniform(-3, 5))])}
            elif k < 0.6:
                v = {"electric_throttle": R.choice([0.0, 1e-3, 0.1, 0.5, 1.0, 2.0, r6(R.random())])}
            elif k < 0.85:
                v = {"J": R.choice([1e-6, 0.01, 0.1, 1.0, 2.0, 5.0, 100.0, -1.0, r6(10 ** R.uniform(-2, 1.3))])}
            else:
                v = {"rot_per_sec": R.choice([1e-3, 1.0, 1000.0, -20.0])}
            st["prop"] = pool.new("prop", v)
        if "L" in st and R.random() < 0.5:
            st["L"] = R.choice([0.0, 1e9, -1e3, 1e-9, 100.0])
        if "W" in st and R.random() < 0.5:
            st["W"] = R.choice([0.0, 1e6, -5.0, 1e-3])
        if R.random() < 0.2 and st["op"] in ("target_lift", "pitch_trim", "stall_airspeed"):
            st["error"] = R.choice([1e-15, 0.0, 1e-3])
        if st["op"] == "stall_airspeed":
            if gen.has_props(spec) or any(a["properties"]["CL_max"] > 2.5 or a["properties"]["CL_alpha"] < 2 for x in spec["json"]["wings"].values() for a in x["airfoils"].values()):
                st["op"] = "stall_onset"
                st.pop("W")
                st.pop("error", None)
        return st

    def run(self, case, stats):
        case = copy.deepcopy(case)
        spec = case["planes"][0]
        # stall_airspeed: how many solves one onset takes is measured first
        for st in case["steps"]:
            if st["op"] == "stall_airspeed" and not st.get("mult"):
                a = case["pool"].get(st["aero"])
                s = dict(resolve(st, case["pool"]), op="stall_onset")
                for k in ("W", "file", "error", "prior", "form"):
                    s.pop(k, None)
                n = ref(spec, s, stats).get("n", {}).get("solve", 905)
                st["mult"] = 56 * min(905, 3 * n + 20) // 2
        recs = run_seq(case, stats)
        out = []
        for st, r, mir in walk(case, recs):
            if "out" not in r:
                continue
            stats.rec(r)
            w = r.get("n", {}).get("work", 0)
            stats.key(st["op"], r["out"][0], int(math.log10(w + 1) * 2), st.get("prop") and sorted(mir.pool[st["prop"]])[0] if isinstance(st.get("prop"), str) else None, bool(r.get("fired")))
            k = st["op"]
            m = stats.d.setdefault("max_work", {})
            m[k] = max(m.get(k, 0), w)
            if r["out"][0] == "budget":
                out.append(violation("endless", r["i"], "%s: no result or error after %d units of work and %d linear solves" % (
                    describe(st, mir.pool), w, r["n"]["solve"])))
        return out


def process_settings(R):
    """Settings a caller may have chosen for the whole process."""
    return {"err": {k: R.choice(["warn", "warn", "ignore"]) for k in ("divide", "over", "under", "invalid")},
            "print": {"precision": R.choice([8, 3, 12]), "suppress": R.random() < 0.3, "threshold": R.choice([1000, 5]), "linewidth": R.choice([75, 40, 200])},
            "warn": R.choice([["default"], ["ignore"], ["always", "ignore"], ["once"]]), "seed": R.getrandbits(31),
            "gc": R.choice([[700, 10, 10], [50, 5, 5], [100000, 50, 50]]), "gcon": R.random() < 0.8,
            "rec": R.choice([1000, 3000, 700]), "umask": R.choice([0o022, 0o027, 0o077])}


class C11(Prop):
    id = "C11"
    searches = "process environments, clocks, memory contents and request orders"
    quick, thorough = 160, 4000
    rule = ("one run = 4-7 airplanes and 10-20 requests, most of them writing files, executed in two newly started interpreters that differ in hash seed, optimisation level, working "
            "and start directory, environment variables, process-wide settings (print options, floating-point errors, warning filters, umask), simulated clock and clock jumps, random-generator seeds, contents of fresh memory (allocator fill), garbage collection, what the machine and process report about themselves (processors, load, host, process id, terminal, idle threads, file limit), process age (extra "
            "requests by other models), input directory and order of requests; numbers and output bytes (STL: all but the dated header) must be identical. Distinct: "
            "(request kind, output form, wings, propellers, environment differences) hashed")

    def gen(self, R, tier, stats, i):
        np_ = R.randint(4, 7)
        case = base_case(R, "C11", models=0, planes=np_, maxgrid=4, maxnodes=9)
        case["models"] = [{"plane": k, "via": R.choice(["file", "file", "airplane"])} for k in range(np_)]
        pool = gen.Pool(R, case["planes"][0])
        w = dict(LOWHEAVY, solve=4, distributions=4, create_stl=2, derivatives=1, target_lift=1.5, find_aero_center=0.02)
        w["stall_airspeed"] = 0.005
        for k in range(R.randint(10, 20)):
            m = R.randrange(np_)
            pool.spec = case["planes"][m]
            st = gen.gen_op(R, pool.spec, pool, model=m, weights=w, file_p=0.6, search=0.2)
            if st.get("file"):
                st["file"] = "f%d.%s" % (k, st["file"].split(".")[-1])
                st["rel"] = R.random() < 0.4
            st["id"] = k
            case["steps"].append(maybe_form(R, st))
        noise = []
        for k in range(R.randint(0, 10)):
            m = R.randrange(np_)
            pool.spec = case["planes"][m]
            st = bad_op(R, pool.spec, pool, m) if R.random() < 0.3 else gen.gen_op(R, pool.spec, pool, model=m, weights=w, file_p=0.0)
            if st["op"] == "create_stl" or st.get("file"):
                continue
            st["id"] = 1000 + k
            noise.append(st)
        case["noise"] = noise
        case["pool"] = pool.d
        self.lighten(case)
        for st in noise:
            p = case["pool"].get(st.get("prop")) if isinstance(st.get("prop"), str) else None
            if st["op"] in ("pitch_trim", "stall_onset", "find_aero_center", "stall_airspeed") and driver.seeks_speed(p):
                st["prop"] = None
        case["how"] = [self.environment(R, k) for k in (0, 1)]
        return case

    def environment(self, R, k):
        e = {"PYTHONHASHSEED": str(R.randrange(1, 4294967295)), "TZ": R.choice(["UTC", "Asia/Tokyo", "America/New_York"])}
        if R.random() < 0.7:
            e["MALLOC_PERTURB_"] = str(R.randint(1, 255))
        if R.random() < 0.3:
            e["PYTHONMALLOC"] = "malloc"
        if R.random() < 0.3:
            e["LC_ALL"] = R.choice(["C", "C.UTF-8", "POSIX"])
        if R.random() < 0.3:
            e["PYTHONOPTIMIZE"] = R.choice(["1", "2"])
        if R.random() < 0.15:
            e.update(R.choice([{"PYTHONUTF8": "1"}, {"PYTHONWARNINGS": "always"}, {"PYTHONDEVMODE": "1"}, {"PYTHONUNBUFFERED": "1"}, {"PYTHONINTMAXSTRDIGITS": "4000"}]))
        for n, vals in (("HOME", ["/nonexistent", "/root", "/tmp"]), ("USER", ["root", "u1"]), ("LANG", ["C", "en_US.UTF-8"]), ("COLUMNS", ["20", "300"]),
                        ("TMPDIR", ["/tmp", "/nonexistent"]), ("DEBUG", ["1", "true"]), ("HOSTNAME", ["a", "b"]), ("PWD", ["/", "/nonexistent"])):
            if R.random() < 0.4:
                e[n] = R.choice(vals)
        return {"env": e, "rand": R.getrandbits(31), "start": R.choice([".", "start", "a b/c"]), "gc": R.choice([None, "off", 1, 50]),
                "world": {"cwd": R.choice(["out", "out", "elsewhere", "out/deep/er", "in"]), "clock": R.choice([0.0, 1e9, 1.7e9, 4e9, R.uniform(0, 5e9)]),
                          "jumps": R.choice([[], [0.001], [3600.0, -7200.0], [-1e6], [1e8]]), "garbage": R.choice([0.0, 1.0, -1e300, 5e-324, 1e10, R.uniform(-50, 50), -0.0])},
                "machine": {"cpus": R.choice([1, 2, 3, 4, 8, 12, 64]), "pid": R.randint(2, 4000000), "load": R.choice([0.0, 0.7, 30.0]), "tty": R.random() < 0.3,
                            "host": R.choice(["a", "node-17", "localhost"]), "release": R.choice(["5.4.0", "6.8.0-rc1"]), "threads": R.choice([0, 0, 1, 5]),
                            "files": R.choice([128, 256, 512]),
                            # what text files are written and read in where the program does not say
                            "text": R.choice([None, "utf-8", "cp1252", "latin-1", "ascii"])} if R.random() < 0.8 else None,
                "settings": process_settings(R) if R.random() < 0.6 else None, "argv": R.choice([[], ["prog", "-x"], ["a.json"]]),
                "order": R.getrandbits(31) if k else None, "noise": k == 1}

    def run(self, case, stats):
        res = []
        for how in case["how"]:
            steps = [dict(s) for s in case["steps"]]
            if how["noise"]:
                steps += [dict(s) for s in case["noise"]]
            if how["order"] is not None:
                rng_for("order", how["order"]).shuffle(steps)
            c = {"planes": case["planes"], "models": case["models"], "pool": case["pool"], "steps": steps, "env": how["world"]}
            recs, st = engine.run_interpreter(c, how)
            stats.add_case_stats(st)
            stats.fault("environment:interpreter started")
            for r in recs:
                stats.rec(r)
            res.append({s["id"]: (s, r) for s, r in zip(steps, recs)})
        out = []
        for st in case["steps"]:
            (sa, a), (sb, b) = res[0][st["id"]], res[1][st["id"]]
            spec = spec_of(case, st["m"])
            stats.key(st["op"], (st.get("file") or "").split(".")[-1], len(spec["json"].get("wings", {})), len(spec["json"].get("propellers", {})), st.get("rel"), case["how"])
            what = describe(resolve(st, case["pool"]))
            d = diff_outcome(a["out"], b["out"], rtol=1e-13, atol=1e-14)
            if d:
                out.append(violation("environment", st["id"], "%s: %s (two interpreters)" % (what, d)))
            elif body(st, a.get("file")) != body(st, b.get("file")):
                out.append(violation("environment", st["id"], "%s: output bytes differ between two interpreters" % what))
            elif a.get("touched") or b.get("touched"):
                out.append(violation("environment", st["id"], "%s: touched %s" % (what, a["touched"] or b["touched"])))
        return out


class C16(Prop):
    id = "C16"
    searches = "histories, faults, I/O failures and interleavings around process-wide settings"
    level = "fault_enumeration"
    quick, thorough = 600, 12000
    rule = ("one run = a process with randomly chosen settings (floating-point error handling, print options, warning filters, random streams, garbage "
            "collection, umask, recursion limit) in which a random history with failing, interrupted and I/O-failing requests, or interleaved clients, "
            "is executed; all those settings, and the working directory, environment, streams, hooks, signal handlers, threads, descriptors, exit "
            "handlers, loggers and other modules' names, must be the same after every request as before it. Distinct: (request kind, outcome, fault kind, "
            "settings) combinations")

    def construction(self, R, stats):
        """Many constructions, each failing somewhere else."""
        case = base_case(R, "C16", models=R.choice([1, 2]), planes=1, via=("file", "file", "airplane"), maxgrid=3, maxnodes=7)
        k = R.randrange(len(case["models"]))
        probe = dict(case, steps=[{"op": "build", "m": k}])
        n = run_child(driver.run_history, probe, True)[0][0]["n"]["lines"] or 1
        for j in range(R.randint(20, 40)):
            st = {"op": "build", "m": k, "fault": {"kind": "line", "at": pick_point(R, n), "exc": R.choice(["KeyboardInterrupt", "MemoryError"])}}
            if R.random() < 0.1:
                st["fault"] = {"kind": "seam", "fn": "alloc", "n": R.randint(1, 60)}
            case["steps"].append(st)
            if R.random() < 0.1:
                case["steps"].append({"op": "solve", "m": k, "aero": None, "ctl": None, "prop": None})
        return case

    def exports(self, R):
        """Output files in directories other than the working directory, most of them failing."""
        case = base_case(R, "C16", models=1, planes=1, via=("file", "file", "airplane"), maxgrid=3, maxnodes=7)
        spec = case["planes"][0]
        pool = gen.Pool(R, spec)
        for j in range(R.randint(4, 9)):
            st = gen.gen_op(R, spec, pool, weights=dict(create_stl=3, distributions=3, solve=2, stall_onset=0.2, pitch_trim=0.2), search=0.0, wild=0.0, file_p=1.0,
                            kinds=["solve", "distributions", "create_stl", "target_lift", "derivatives", "stall_onset", "pitch_trim"])
            if R.random() < 0.2:
                case["steps"].append({"op": "chdir", "to": R.choice(["out", "elsewhere", "a b"])})
            if R.random() < 0.2 and st.get("file"):
                st["file"] = R.choice(["missing/x.json", "../x.stl", "sub/x.json"])
            st["fault"] = {"kind": "io", "plan": {"fail": {"call": R.choice(["open", "write", "write", "write", "close", "read"]), "n": R.choice([1, 1, 2, 3]),
                                                           "errno": R.choice(["ENOSPC", "EIO", "EACCES"])}}}
            if R.random() < 0.2:
                del st["fault"]
            case["steps"].append(maybe_form(R, st))
        case["steps"].insert(0, {"op": "mkdir", "path": "out/sub"})
        case["pool"] = pool.d
        return self.lighten(case)

    def gen(self, R, tier, stats, i):
        case = self.construction(R, stats) if i % 6 == 4 else self.exports(R) if i % 6 == 1 else self.histories(R, stats)
        case["env"] = {"cwd": R.choice(["out", "elsewhere", "out/deep/er", "in"])}
        case["proc"] = process_settings(R)
        return case

    def histories(self, R, stats):
        threads = R.random() < 0.25
        case = base_case(R, "C16", models=R.choice([2, 3]) if threads else R.choice([1, 1, 2]), planes=1, via=("file", "file", "airplane"), maxgrid=4, maxnodes=9)
        history(R, case, R.randint(5, 12), bad_p=0 if threads else 0.25, edit_p=0.05, weights=dict(LOWHEAVY, find_aero_center=0.3, stall_airspeed=0.1, create_stl=0.5),
                search=0.2, wild=0.1, file_p=0.4)
        fixup_edits(case)
        if threads:
            case["steps"] = [s for s in case["steps"] if s["op"] != "edit" and s["op"] not in ("find_aero_center", "stall_airspeed", "stall_onset", "pitch_trim", "create_stl")]
            to_clients(R, case)
            for c in case["clients"]:
                if R.random() < 0.3:
                    R.choice(c)["fault"] = {"kind": "line", "at": int(10 ** R.uniform(0, 3)), "exc": "KeyboardInterrupt"}
                    if c[0].get("fault"):
                        del c[1:]
        else:
            inject_faults(R, case, 0.35, stats, long_p=0.95)
            for st in case["steps"]:
                if st.get("file") and not st.get("fault") and st["op"] in gen.FILE_OPS and R.random() < 0.4:
                    st["fault"] = {"kind": "io", "plan": {"fail": {"call": R.choice(["open", "write", "write", "close", "read"]), "n": R.randint(1, 3),
                                                                   "errno": R.choice(["ENOSPC", "EIO", "EACCES"])}}}
            case["steps"].insert(0, {"op": "build", "m": 0})
            if R.random() < 0.3:
                case["steps"][0]["fault"] = {"kind": "line", "at": R.randint(1, 800), "exc": R.choice(["KeyboardInterrupt", "MemoryError"])}
        return case

    def run(self, case, stats):
        out = []
        for c in core.IMPORT_CHANGES:
            out.append(violation("process", 0, "importing the library changed " + c))
        if "clients" in case:
            recs, log, end, st = run_child(driver.run_threads, case)
            case["_log"] = log
            stats.add_case_stats(st)
            stats.key("schedule", log)
            for c in sorted(recs):
                for s, r in zip(case["clients"][c], recs[c]):
                    stats.rec(dict(r, fired=["KeyboardInterrupt@line"] if r.get("fired") else []))
                    if r.get("proc"):
                        out.append(violation("process", r["i"], "client %d: %s changed, in its thread, %s" % (c, describe(s, case["pool"]), "; ".join(r["proc"]))))
            if end["proc"] and not out:
                out.append(violation("process", 0, "after all clients finished, their work has changed %s" % "; ".join(end["proc"])))
            return out
        recs = run_seq(case, stats)
        for st, r, mir in walk(case, recs):
            if "out" not in r:
                continue
            stats.rec(r)
            stats.key(st["op"], r["out"][0] if r["out"][0] == "ok" else r["out"][1], [f.split("@")[0] for f in r.get("fired") or ()], case["proc"]["err"]["invalid"], case["proc"]["warn"])
            if r.get("proc"):
                out.append(violation("process", r["i"], "%s (%s%s) changed %s" % (
                    describe(st, mir.pool), brief(r["out"]), ", injected " + str(r["fired"]) if r.get("fired") else "", "; ".join(r["proc"]))))
        return out


class C17(Prop):
    id = "C17"
    searches = "long repetitive histories with faults"
    quick, thorough = 160, 4000
    rule = ("one run = the same block of requests (ordinary, failing, interrupted, writing files) repeated for 9 rounds on the same models, or on models built and discarded in every "
            "round, or several hundred requests at ever different states; after each round, memory allocated under library code and still held, open files, "
            "descriptors and threads, and the work of the round are measured; a measure that grew in every one of the last six rounds is a violation. "
            "Distinct: (kind of repetition, request kinds and outcomes in the block)")

    def gen(self, R, tier, stats, i):
        kind = R.choices(["same", "discard", "drift"], [5, 3, 2])[0]
        case = base_case(R, "C17", models=R.choice([1, 1, 2]), planes=1, via=("file", "file", "airplane", "api"), maxgrid=3, maxnodes=7)
        if kind == "drift":
            history(R, case, R.randint(2, 4), bad_p=0.15, edit_p=0, weights={k: 0 for k in gen.MEDIUM + gen.HEAVY + gen.HUGE}, search=0.1, wild=0.05, p_none=0.05, file_p=0.3)
            case["newnames"] = R.random() < 0.7
            case["steps"] = [s for s in case["steps"] if s["op"] in gen.LIGHT]
        else:
            history(R, case, R.randint(2, 6), bad_p=0.25, edit_p=0, weights=dict(LOWHEAVY, pitch_trim=0.2, stall_onset=0.2, find_aero_center=0.0, stall_airspeed=0.0, create_stl=0.1),
                    search=0.15, wild=0.05, file_p=0.3)
        for st in case["steps"]:
            st.pop("prior", None)
        repeat = {"same": R.choice([1, 2, 4]), "discard": R.choice([1, 2]), "drift": 16}[kind]
        # every request is made dozens of times with allocation tracking on: only affordable ones
        kept, spent = [], 0
        for k, st in enumerate(case["steps"]):
            if st["op"] not in NON_CALL and st["op"] not in ("build", "attrs"):
                c = counts(case, k, stats)
                room = (1800 if kind == "drift" else 24000 // repeat) - spent
                if not c or not c["lines"] or c["lines"] > min(room, 1500 if kind == "drift" else 16000 // repeat):
                    continue
                spent += c["lines"]
            kept.append(st)
        case["steps"] = kept or [{"op": "solve", "m": 0, "aero": None, "ctl": None, "prop": None}]
        if kind != "drift":
            inject_faults(R, case, 0.3, stats)
            if R.random() < 0.4:
                case["steps"].append({"op": R.choice(["drop", "rebuild", "build"]), "m": R.randrange(len(case["models"]))})
        case.update(warm=3, rounds=6, repeat=repeat, frames=R.choice([3, 3, 6]), kind=kind)
        if kind == "drift":
            case["drift"] = True
        if kind == "discard":
            case["discard"] = True
        return case

    def run(self, case, stats):
        rows, outs, st = run_child(driver.run_growth, case)
        stats.add_case_stats(st)
        for o in outs:
            stats.rec(o)
        stats.d["requests"] += len(outs) * (len(rows) * case["repeat"] - 1)
        stats.key(case["kind"], sorted((o["op"], o["out"][0], bool(o["fired"])) for o in outs))
        stats.d["x_bytes_held_max"] = max(stats.d.get("x_bytes_held_max", 0), rows[-1]["bytes held by library code"])
        out = []
        for k in rows[0]:
            v = [r[k] for r in rows]
            if case.get("drift") and "per round" in k:
                continue        # different states need different work
            d = [b - a for a, b in zip(v[case["warm"] - 1:], v[case["warm"]:])]
            if min(d) > 0:
                out.append(violation("growth", 0, "%s keep growing over the last %d rounds (%s) of %s, by %s" % (
                    k, len(d), {"same": "same requests", "discard": "models built, used and discarded", "drift": "requests at new states"}[case["kind"]],
                    [s["op"] for s in case["steps"]], d)))
        return out


class C18(Prop):
    id = "C18"
    searches = "histories with saved, copied and restored models"
    quick, thorough = 400, 8000
    rule = ("one run = a random history (with failing and interrupted requests) in which models are copied or pickled at random points; the process then dies and another "
            "process, where the input files are gone, restores the pickled models and continues; every answer of originals, copies and restored models, "
            "also after the centre of gravity of one of them is moved, must equal that of a freshly built model in a fresh process. Distinct: (request kind, "
            "kind of model, preceding request kind, outcome)")

    def gen(self, R, tier, stats, i):
        case = base_case(R, "C18", models=R.choice([1, 1, 2]), planes=1, via=("file", "file", "airplane", "api"), maxgrid=4, maxnodes=9)
        n = len(case["models"])
        history(R, case, R.randint(2, 8), bad_p=0.1, edit_p=0.0, weights=dict(LOWHEAVY, find_aero_center=0.02), search=0.25, file_p=0.05)
        inject_faults(R, case, 0.25, stats)
        pool = gen.Pool(R, case["planes"][0])
        pool.d, pool.n = case["pool"], 100
        steps, kinds = [], ["original"] * n
        saves = R.randint(1, 3)
        at = sorted(R.randrange(len(case["steps"]) + 1) for _ in range(saves))
        saved = set()
        for j, st in enumerate(case["steps"] + [None]):
            while at and at[0] == j:
                at.pop(0)
                m = R.randrange(n)
                how = R.choice(["deepcopy", 2, 4, 5])
                sv = {"op": "save", "m": m, "how": how}
                if how == "deepcopy" or R.random() < 0.4:
                    sv["to"] = len(case["models"])
                    case["models"].append(dict(case["models"][m], of=m))
                    kinds.append("deepcopy" if how == "deepcopy" else "unpickled")
                else:
                    saved.add(m)
                steps.append(sv)
                if R.random() < 0.5:
                    for mm in ([m, sv["to"]] if "to" in sv else [m]):
                        if R.random() < 0.6:
                            steps.append(self.light(R, pool, mm))
                if R.random() < 0.4:
                    steps.append({"op": "cg", "m": R.choice([m, sv.get("to", m)]), "xyz": [R.choice([0.0, 0.3, None]), R.choice([0.0, 0.1]), R.choice([None, 0.2])]})
                    for mm in ([m, sv["to"]] if "to" in sv else [m]):
                        steps.append(self.light(R, pool, mm))
            if st is not None:
                steps.append(st)
        for mm in range(len(case["models"])):
            if R.random() < 0.6:
                steps.append(self.light(R, pool, mm))
        case["steps"] = steps
        second = []
        if saved and R.random() < 0.5:
            # the other process has models of its own already
            case["planes"].append(gen.twin(R, case["planes"][0]) if R.random() < 0.7 else gen.gen_plane(R, maxgrid=4, maxnodes=9))
            case["before"] = []
            for k in range(R.choice([1, 1, 2])):
                m = len(case["models"])
                case["models"].append({"plane": len(case["planes"]) - 1 if R.random() < 0.8 else 0, "via": R.choice(["file", "airplane"])})
                kinds.append("stranger")
                pool.spec = spec_of(case, m)
                for _ in range(R.randint(1, 2)):
                    case["before"].append(self.light(R, pool, m))
                for _ in range(R.randint(0, 2)):
                    second.append(self.light(R, pool, m))
            pool.spec = case["planes"][0]
        for m in sorted(saved):
            for k in range(R.randint(1, 4)):
                if R.random() < 0.25:
                    second.append({"op": "cg", "m": m, "xyz": [R.choice([0.0, 0.3, None]), R.choice([0.0, 0.1]), R.choice([None, 0.2])]})
                second.append(self.light(R, pool, m, 0.3))
        if "before" in case:
            # strangers' requests anywhere among the others
            n = len(case["before"])
            own = [x for x in second if kinds[x["m"]] == "stranger"]
            second = [x for x in second if kinds[x["m"]] != "stranger"]
            for x in own:
                second.insert(R.randint(0, len(second)), x)
            # and the same requests to either side
            for x in case["before"][:]:
                if R.random() < 0.4 and saved and gen.ops_available(case["planes"][0]) == gen.ops_available(spec_of(case, x["m"])) and not x.get("file"):
                    second.insert(0, dict(x, m=R.choice(sorted(saved))))
        for st in second:
            # (propellers with tables are made from files that no longer exist)
            if st["op"] == "props_solve":
                st.pop("solver", None)
        case["second"] = second
        case["kinds"] = kinds
        case["pool"] = pool.d
        return self.lighten(case)

    def light(self, R, pool, m, heavy=0.1):
        w = dict(LOWHEAVY, find_aero_center=0.0, stall_airspeed=0.0) if R.random() < heavy else {k: 0 for k in gen.MEDIUM + gen.HEAVY + gen.HUGE}
        return gen.gen_op(R, pool.spec, pool, model=m, weights=w, file_p=0.05, search=0.2)

    def run(self, case, stats):
        out = []
        c = copy.deepcopy(case)
        cg = {}
        recs, blob, st = run_child(driver.run_saved, c, "steps")
        stats.add_case_stats(st)
        at_save = self.judge(case, "steps", recs, stats, cg, out)
        if blob and not out:
            recs2, _, st2 = run_child(driver.run_saved, c, "second", blob)
            stats.add_case_stats(st2)
            stats.fault("crash:process restarted from saved models")
            if recs2 and recs2[0]["op"] == "restore":
                out.append(violation("save", 0, "restoring model %d in another process: %s" % (recs2[0]["m"], brief(recs2[0]["out"]))))
                return out
            k = len(case.get("before", ()))
            if k:
                self.judge(case, "before", recs2[:k], stats, {}, out)
            self.judge(case, "second", recs2[k:], stats, at_save, out)
        return out

    def judge(self, case, part, recs, stats, cg, out):
        """cg: centre of gravity per model, as its owner believes; returns that at each save."""
        snap = {}
        prev = None

        def group(m):
            # models of one airplane object share it; a copy has its own
            d = case["models"][m]
            return "airplane" if part == "steps" and d["via"] == "airplane" and "of" not in d else m
        for st, r in zip(case[part], recs):
            if st["op"] == "save":
                stats.fault("save:%s" % st["how"])
                if r["out"][0] != "ok":
                    out.append(violation("save", r["i"], "saving a model (%s): %s" % (st["how"], brief(r["out"]))))
                    return snap
                cur = cg.get(group(st["m"]))
                if st.get("to") is not None:
                    cg[st["to"]] = cur
                else:
                    snap[st["m"]] = cur
                prev = "save"
                continue
            if st["op"] == "cg":
                p = spec_of(case, st["m"])["json"]["plane"]
                cur = cg.get(group(st["m"])) or [p["CGx"], p["CGy"], p["CGz"]]
                cg[group(st["m"])] = [a if b is None else b for a, b in zip(cur, st["xyz"])]
                prev = "cg"
                continue
            if st["op"] in NON_CALL:
                continue
            stats.rec(r)
            kind = "restored" if part == "second" and case["kinds"][st["m"]] != "stranger" else case["kinds"][st["m"]]
            if r.get("fired"):
                prev = "fault"
                continue
            if r["out"][0] == "exc" and str(r["out"][1]).startswith("build:"):
                continue
            spec = spec_of(case, st["m"])
            cur = cg.get(group(st["m"]))
            if cur:
                spec = copy.deepcopy(spec)
                spec["json"]["plane"].update(CGx=cur[0], CGy=cur[1], CGz=cur[2])
            e = ref(spec, resolve(st, case["pool"]), stats)
            stats.key(st["op"], kind, prev, e["out"][0])
            d = diff_outcome(r["out"], e["out"])
            if d:
                out.append(violation("copy", r["i"], "%s on a model (%s, %s life): %s (fresh model, fresh process)" % (
                    describe(st, case["pool"]), kind, "second" if part == "second" else "first", d)))
            prev = st["op"]
        return snap


PROPS = {c.id: c for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16, C17, C18)}
