"""Generators: airplanes, states, requests and histories, all from one random.Random."""
import copy

AIRFOILS = {
    "NACA2412": dict(alpha_L0=-0.0369, CL_alpha=6.2832, CL_max=1.4, Cm_L0=-0.0527, Cm_alpha=-0.08, CD0=0.0055, CD0_L=-0.0045, CD0_L2=0.01),
    "NACA0012": dict(alpha_L0=0.0, CL_alpha=6.43, CL_max=1.25, Cm_L0=0.0, Cm_alpha=0.0, CD0=0.0058, CD0_L=0.0, CD0_L2=0.0085),
    "NACA4415": dict(alpha_L0=-0.0735, CL_alpha=6.1, CL_max=1.6, Cm_L0=-0.1, Cm_alpha=-0.02, CD0=0.007, CD0_L=-0.003, CD0_L2=0.011),
    "NACA1408": dict(alpha_L0=-0.018, CL_alpha=6.5, CL_max=1.0, Cm_L0=-0.026, Cm_alpha=0.01, CD0=0.0049, CD0_L=-0.001, CD0_L2=0.009),
}
NICE_V = [10, 10.0, 5.0, 20.0, 33.0, 60.0, 88.5]
RHOS = [0.0023769, 0.0023769, 0.0023769, 0.002, 1.225]
FORCE_KEYS = ["FL", "FD", "FS", "FX", "FY", "FZ", "MX", "MY", "MZ"]


def r6(x):
    return float("%.6g" % x)


def airfoil_props(R, name, wild=False):
    p = dict(AIRFOILS[name])
    if R.random() < 0.3:
        p["CL_alpha"] = r6(R.uniform(5.2, 6.6))
    if R.random() < 0.3:
        p["CL_max"] = r6(R.uniform(0.9, 1.8))
    if R.random() < 0.2:
        p["CD0"] = r6(R.uniform(0.003, 0.02))
    return p


def gen_airfoils(R, two=0.3):
    names = R.sample(sorted(AIRFOILS), 2 if R.random() < two else 1)
    # names only matter for STL export; not all are four-digit NACA names
    other = R.choice([None, None, None, "NACA23012", "naca0012", "naca4415", "Clark Y", "E-423", "NACA 0015"])
    out = {}
    for n in names:
        out[other if other and n == names[-1] else n] = {"properties": airfoil_props(R, n)}
    return out


def gen_wing(R, ID, role, parent=None, maxgrid=6):
    w = {"ID": ID, "is_main": 1 if role == "main" else 0, "side": "both",
         "connect": {"ID": parent or 0, "location": "tip", "dx": 0.0, "dy": 0.0, "dz": 0.0, "yoffset": 0.0},
         "span": r6(R.uniform(2, 6)), "sweep": 0.0, "dihedral": 0.0, "mounting_angle": 0.0, "washout": 0.0,
         "root_chord": r6(R.uniform(0.6, 1.5)), "tip_chord": 0.0,
         "airfoils": gen_airfoils(R), "grid": R.randint(2, maxgrid),
         "control": {"span_root": 0.0, "span_tip": 1.0, "chord_root": 0.0, "chord_tip": 0.0, "is_sealed": 1, "mix": {}}}
    w["tip_chord"] = r6(w["root_chord"] * R.choice([1.0, 1.0, 0.5, 0.8]))
    c = w["control"]
    if role == "main":
        w["sweep"] = R.choice([0.0, 0.0, 8.0, -5.0, 20.0])
        w["dihedral"] = R.choice([0.0, 3.0, 6.0, -2.0])
        w["mounting_angle"] = R.choice([0.0, 2.0, -1.0])
        w["washout"] = R.choice([0.0, 0.0, 3.0])
        w["connect"]["yoffset"] = R.choice([0.0, 0.0, 0.2])
        w["connect"]["dz"] = R.choice([0.0, -0.3, 0.2])
        if R.random() < 0.8:
            c.update(span_root=R.choice([0.3, 0.5]), span_tip=R.choice([0.9, 1.0]), chord_root=0.25,
                     chord_tip=R.choice([0.25, 0.2]), is_sealed=R.choice([0, 1]),
                     mix=R.choice([{"aileron": 1.0}, {"aileron": 1.0, "flap": 0.5}, {"elevator": 0.5, "aileron": 1.0},
                                   {"aileron": -0.7, "flap": 1.0}]))
    elif role == "htail":
        w.update(span=r6(R.uniform(1, 2)), root_chord=r6(R.uniform(0.4, 0.8)))
        w["tip_chord"] = w["root_chord"]
        w["connect"]["dx"] = -r6(R.uniform(3, 5))
        w["mounting_angle"] = R.choice([0.0, -2.0, 1.0])
        c.update(chord_root=R.choice([0.3, 0.5, 1.0]), chord_tip=0.5, mix={"elevator": 1.0})
    elif role == "vtail":
        w.update(side=R.choice(["right", "left"]), dihedral=90.0, span=r6(R.uniform(0.8, 1.5)), root_chord=0.6, tip_chord=0.5)
        w["connect"]["dx"] = -r6(R.uniform(3, 5))
        w["connect"]["dz"] = -0.1
        c.update(chord_root=0.35, chord_tip=0.35, mix={"rudder": 1.0})
    elif role == "tip":
        w.update(span=r6(R.uniform(0.3, 1.0)), root_chord=0.4, tip_chord=0.3, dihedral=R.choice([10.0, 60.0]))
        if R.random() < 0.3:
            c.update(chord_root=0.3, chord_tip=0.3, mix={"flap": 1.0})
    if R.random() < 0.1:
        w["control"] = {}
    return w


def gen_table(R, kind):
    """Text of a radial table for pitch (degrees) or chord (c/R)."""
    rows = ["# r/R  value"] if R.random() < 0.5 else []
    n = R.randint(5, 9)
    for i in range(n):
        r = 0.1 + 0.9 * i / (n - 1)
        if kind == "pitch":
            v = 40.0 - 28.0 * r + R.uniform(-1, 1)
        else:
            v = 0.1 + 0.15 * r * (1.1 - r) + R.uniform(-0.01, 0.01)
        rows.append("%.5f %.6f" % (r, v))
    return "\n".join(rows) + "\n"


def gen_prop(R, i, tables, maxnodes=14, span=3.0, motor=None):
    d = r6(R.uniform(0.6, 2.2))
    p = {"position": {"dx": R.choice([1.0, 0.5, -1.0]), "dy": R.choice([0.0, 0.0, 1.0, -1.0, 1.5]), "dz": R.choice([0.0, 0.0, -0.2, 0.3])},
         "orientation": {"elevation_angle": R.choice([0.0, 0.0, 3.0, -2.0]), "heading_angle": R.choice([0.0, 0.0, 2.0])},
         "radial_nodes": R.randint(6, maxnodes), "diameter": d, "hub_diameter": r6(d * R.choice([0.1, 0.15])),
         "num_of_blades": R.choice([2, 2, 3, 4]), "rotation_direction": R.choice(["CCW", "CW", "ccw", "cw"]),
         "pitch": R.choice([{"type": "default"}, {"type": "ratio", "value": r6(R.uniform(0.4, 0.9))},
                            {"type": "value", "value": r6(d * R.uniform(0.4, 0.9))}]),
         "chord": R.choice([{"type": "default"}, {"type": "linear", "root": r6(d * 0.06), "tip": r6(d * 0.04)},
                            {"type": "linear", "root": r6(d * 0.05)}, {"type": "elliptical", "root": r6(d * 0.08)}]),
         "airfoils": gen_airfoils(R, two=0.25)}
    p["pitch"] = dict(p["pitch"])
    if R.random() < 0.2:
        p["pitch"]["pitch_increment"] = R.choice([2.0, -1.0])
    if R.random() < 0.15:
        f = "pitch%d.txt" % i
        tables[f] = gen_table(R, "pitch")
        p["pitch"] = {"type": "from_file", "filename": f}
    if R.random() < 0.15:
        f = "chord%d.txt" % i
        tables[f] = gen_table(R, "chord")
        p["chord"] = {"type": "from_file", "filename": f}
    if motor if motor is not None else R.random() < 0.5:
        p["electric_motor"] = {"has_motor": True, "motor_kv": R.choice([400.0, 800.0]), "motor_resistance": 0.05,
                               "motor_no_load_current": 0.8, "gear_reduction": R.choice([1.0, 2.0]),
                               "battery_resistance": 0.02, "battery_voltage": R.choice([11.1, 22.2]),
                               "speed_control_resistance": 0.01}
    return p


def gen_plane(R, wings=None, props=None, maxgrid=6, maxnodes=14, tables_ok=True, motor=None):
    """An airplane description: {"json": <input file content>, "tables": {file: text}}."""
    tables = {}
    name = R.choice(["Plane", "Flying Wing", "T-1", "x"])
    if wings is None and props is None:
        kind = R.choices(["w", "wp", "p"], [4, 5, 1.5])[0]
        wings = 0 if kind == "p" else R.choices([1, 2, 3, 4], [3, 3, 2, 1])[0]
        props = 0 if kind == "w" else R.choices([1, 2, 3], [4, 3, 1])[0]
    wings, props = wings or 0, props or 0
    J = {"run": {}, "solver": {"type": "linear", "convergence": 1e-6, "relaxation": 0.9, "maxiter": 100},
         "plane": {"name": name, "CGx": R.choice([0.0, -0.3, 0.25, r6(R.uniform(-0.5, 0.5))]),
                   "CGy": R.choice([0.0, 0.0, 0.05]), "CGz": R.choice([0.0, 0.1, -0.1])},
         "reference": {"area": 8.0, "longitudinal_length": 1.0, "lateral_length": 8.0},
         "condition": {"alpha": 0.0, "beta": 0.0, "ground": 0, "units": R.choice(["English", "SI", "English"])}}
    if R.random() < 0.15:
        J["reference"]["longitudinal_length"] = None
    if R.random() < 0.15:
        J["reference"]["lateral_length"] = None
    if wings:
        ws = {}
        roles = ["main", R.choice(["htail", "htail", "tip"]), "vtail", "tip"][:wings]
        if wings == 1 and R.random() < 0.15:
            roles = ["htail"]
        for i, role in enumerate(roles):
            nm = {"main": R.choice(["main_wing", "Wing", "w1"]), "htail": "h_tail", "vtail": R.choice(["v_tail", "fin"]),
                  "tip": "tip%d" % i}[role]
            parent = 1 if role == "tip" and i > 0 else None
            ws[nm] = gen_wing(R, i + 1, role, parent, maxgrid)
        J["wings"] = ws
    if props:
        ps = {}
        for i in range(props):
            p = gen_prop(R, i, tables if tables_ok else {}, maxnodes, motor=motor)
            if i:
                p["position"]["dy"] = R.choice([1.0, -1.0, 1.7, -1.7])
            ps[["prop", "Prop B", "p3"][i]] = p
        if not tables_ok:
            for p in ps.values():
                for k in ("pitch", "chord"):
                    if p[k]["type"] == "from_file":
                        p[k] = {"type": "default"}
        J["propellers"] = ps
    rename(J)
    spec = {"json": J, "tables": tables}
    if not repr(J).isascii() and R.random() < 0.7:
        spec["raw"] = 1            # the file spells the names out in UTF-8 (else: escaped)
    return spec


NAMES = ["horizontal_stabilizer", "outboard panel of the main wing", "outboard panel of the main wing (2)", "Flügel", "крыло", "Hélice", "50%",
         "a \"b\" \\c", "{0}", "left_main", "0", "wing/../x", "winglet_upper_port", "propeller_outboard_port"]


def rename(J):
    """Now and then, components with long or unusual names."""
    import random
    R = random.Random("names" + repr(J))
    for g in ("wings", "propellers"):
        if g in J and R.random() < 0.15:
            new = iter(R.sample(NAMES, len(NAMES)))
            J[g] = {(next(new) if R.random() < 0.6 else n): d for n, d in J[g].items()}


def twin(R, spec):
    """An airplane with the same component names, grids and blade nodes as `spec` but other contents:
    models that anything keyed by name, size or place in the process would confuse."""
    t = copy.deepcopy(spec)
    J = t["json"]
    opts = ["cg", "ref"]
    if J.get("wings"):
        opts += ["span", "chord", "angle", "airfoil", "mix", "flap", "place"] * 2
    if J.get("propellers"):
        opts += ["diameter", "pitch", "blades", "turn", "prop_airfoil", "prop_place"] * 2
    if t["tables"]:
        opts += ["table"] * 2
    for what in R.sample(opts, R.randint(1, 4)):
        if what == "cg":
            J["plane"].update(CGx=r6(R.uniform(-0.6, 0.6)), CGz=r6(R.uniform(-0.3, 0.3)))
        elif what == "ref":
            J["reference"].update(longitudinal_length=1.3, lateral_length=7.1)
        elif what == "table":
            for f in t["tables"]:
                t["tables"][f] = gen_table(R, "pitch" if "pitch" in f or "pt" in f else "chord")
        for w in J.get("wings", {}).values():
            if what == "span":
                w["span"] = r6(w["span"] * 1.17)
            elif what == "chord":
                w["root_chord"], w["tip_chord"] = r6(w["root_chord"] * 1.2), r6(w["tip_chord"] * 0.9)
            elif what == "angle":
                w["mounting_angle"] += 1.5
                w["washout"] += 1.0
            elif what == "airfoil":
                for a in w["airfoils"].values():
                    a["properties"] = airfoil_props(R, R.choice(sorted(AIRFOILS)))
            elif what == "mix" and w.get("control"):
                w["control"]["mix"] = {k: -0.6 * v for k, v in w["control"].get("mix", {}).items()} or {"flap": 0.8}
            elif what == "flap" and w.get("control", {}).get("chord_root"):
                w["control"].update(chord_root=0.4, chord_tip=0.3, is_sealed=1 - w["control"].get("is_sealed", 1))
            elif what == "place":
                w["connect"]["dx"] = r6(w["connect"]["dx"] - 0.3)
        for p in J.get("propellers", {}).values():
            if what == "diameter":
                p["diameter"], p["hub_diameter"] = r6(p["diameter"] * 1.1), r6(p["hub_diameter"] * 1.1)
            elif what == "pitch" and p["pitch"]["type"] != "from_file":
                p["pitch"] = {"type": "ratio", "value": 0.66}
            elif what == "blades":
                p["num_of_blades"] = 3 if p["num_of_blades"] == 2 else 2
            elif what == "turn":
                p["rotation_direction"] = "CCW" if p["rotation_direction"].upper() == "CW" else "CW"
            elif what == "prop_airfoil":
                for a in p["airfoils"].values():
                    a["properties"] = airfoil_props(R, R.choice(sorted(AIRFOILS)))
            elif what == "prop_place":
                p["position"]["dx"] = r6(p["position"]["dx"] - 0.15)
    return t


def has_wings(spec):
    return bool(spec["json"].get("wings"))


def has_props(spec):
    return bool(spec["json"].get("propellers"))


def prop_names(spec):
    return list(spec["json"].get("propellers", {}))


def has_motor(spec):
    ps = spec["json"].get("propellers", {})
    return bool(ps) and all(p.get("electric_motor") for p in ps.values()) and spec["json"]["condition"].get("units")


# ------------------------------------------------------------------ states
def num(R, x):
    k = R.random()
    if k < 0.06:
        return {"$f64": float(x)}
    if k < 0.14 and float(x) == int(x):
        return int(x)
    return x


def gen_alpha(R):
    if R.random() < 0.04:
        return R.choice([12.0, 20.0, -15.0, 30.0, r6(R.uniform(10, 40))])
    return R.choice([0.0, 1.0, 2.0, 5.0, -3.0, 8.0, r6(R.uniform(-8, 10)), r6(R.uniform(-2, 4))])


def gen_aero(R, sparse=None):
    a = {"V_mag": num(R, R.choice(NICE_V)), "rho": R.choice(RHOS)}
    if R.random() < 0.85:
        a["alpha"] = num(R, gen_alpha(R))
    if R.random() < 0.45:
        a["beta"] = num(R, R.choice([0.0, 2.0, -3.0, 5.0, r6(R.uniform(-8, 8))]))
    if R.random() < 0.25:
        for k in R.sample(["roll_rate", "pitch_rate", "yaw_rate"], R.randint(1, 3)):
            a[k] = num(R, R.choice([0.0, 0.1, -0.2, r6(R.uniform(-0.5, 0.5))]))
    if R.random() < 0.05:
        a["comment"] = "cruise"
    return shuffled(R, a)


def shuffled(R, d):
    ks = list(d)
    if R.random() < 0.5:
        R.shuffle(ks)
    return {k: d[k] for k in ks}


def gen_ctl(R):
    if R.random() < 0.1:
        return {}
    ks = ["aileron", "elevator", "rudder", "flap"]
    if R.random() < 0.5:
        ks = R.sample(ks, R.randint(1, 3))
    if R.random() < 0.07:
        # far deflected, up to where a surface would stop
        return {k: num(R, R.choice([15.0, -20.0, 25.0, -25.0, 30.0, -30.0, 45.0, 60.0])) for k in ks}
    return {k: num(R, R.choice([0.0, 0.0, 3.0, -5.0, 10.0, 14.0, -18.0, r6(R.uniform(-12, 12))])) for k in ks}


def gen_prop1(R, spec, search=0.3, wild=0.05):
    k = R.random()
    if k < search:
        if has_motor(spec) and R.random() < 0.5:
            return {"electric_throttle": r6(R.uniform(0.1, 1.0))}
        return {"brake_power": r6(10 ** R.uniform(-0.5, 1.8))}
    if k < search + 0.2:
        return {"rot_per_sec": R.choice([15, 20.0, 30.0, 55.0, r6(R.uniform(12, 80))])}
    if k < search + 0.22:
        return {"J": R.choice([0.5, 0.7]), "rot_per_sec": r6(R.uniform(12, 40))}
    if k < search + 0.25:
        return {"J": 0.0, "rot_per_sec": r6(R.uniform(12, 40))}
    if R.random() < wild:
        return {"J": r6(R.uniform(1.0, 2.5))}
    return {"J": R.choice([0.25, 0.5, 0.5, 0.7, r6(R.uniform(0.15, 0.85))])}


def gen_prop_state(R, spec, search=0.3, wild=0.05):
    names = prop_names(spec)
    if not names:
        return {"J": 0.5} if R.random() < 0.1 else None
    k = R.random()
    if k < 0.2:
        return None
    if k < 0.5 and len(names) > 1:
        return {n: gen_prop1(R, spec, search, wild) for n in names}
    if k < 0.55:
        return {}
    return gen_prop1(R, spec, search, wild)


def vary(R, d, spec, which):
    """A state close to an earlier one: where stale or wrongly shared data shows."""
    d = copy.deepcopy(d)
    if not d:
        return d
    k = R.random()
    keys = list(d)
    key = R.choice(keys)
    v = d[key]
    if k < 0.25 and which != "prop" and key not in ("V_mag", "rho"):
        del d[key]
    elif k < 0.55 and isinstance(v, (int, float)):
        d[key] = v + R.choice([1e-4, -1e-3, 0.01, 1.0, 0.25, 1e-6]) if key not in ("V_mag", "rho") else v * R.choice([1.001, 1.5, 0.8])
    elif k < 0.65 and isinstance(v, (int, float)) and key not in ("V_mag", "rho", "brake_power", "rot_per_sec", "J", "electric_throttle"):
        d[key] = -v
    elif k < 0.75:
        d = {x: d[x] for x in reversed(keys)}
    elif which == "ctl":
        d[R.choice(["aileron", "elevator", "rudder", "flap"])] = R.choice([0.0, 4.0, -12.0])
    elif which == "aero":
        d[R.choice(["alpha", "beta", "roll_rate", "pitch_rate", "yaw_rate"])] = R.choice([0.0, 0.5, -1.0])
        if R.random() < 0.3:
            for x in ("roll_rate", "pitch_rate", "yaw_rate", "beta"):
                if x in d and R.random() < 0.5:
                    del d[x]
    return d


class Pool:
    """Caller-owned dictionaries of one case; requests refer to them by name."""

    def __init__(self, R, spec):
        self.R, self.spec = R, spec
        self.d = {}
        self.n = 0

    def new(self, which, val):
        if val is None:
            return None
        self.n += 1
        name = "%s%d" % (which[0], self.n)
        self.d[name] = val
        return name

    def pick(self, which, make, p_reuse=0.3, p_vary=0.3, p_none=0.0):
        R = self.R
        if R.random() < p_none:
            return None
        mine = [k for k in self.d if k[0] == which[0]]
        k = R.random()
        if mine and k < p_reuse:
            return R.choice(mine)
        if mine and k < p_reuse + p_vary:
            return self.new(which, vary(R, self.d[R.choice(mine)], self.spec, which))
        return self.new(which, make())


def states(R, spec, pool, search=0.3, wild=0.05, p_none=0.12):
    return {"aero": pool.pick("aero", lambda: gen_aero(R), p_none=p_none),
            "ctl": pool.pick("ctl", lambda: gen_ctl(R), p_none=0.3),
            "prop": pool.pick("prop", lambda: gen_prop_state(R, spec, search, wild), p_none=0.2) if has_props(spec) or R.random() < 0.1 else None}


LIGHT = ["solve", "distributions", "ll_solve", "props_solve"]
MEDIUM = ["derivatives", "stability_derivatives", "control_derivatives", "damping_derivatives", "target_lift"]
HEAVY = ["stall_onset", "pitch_trim", "create_stl"]
HUGE = ["find_aero_center", "stall_airspeed"]
FILE_OPS = {"solve": "json", "distributions": "txt", "find_aero_center": "json", "stall_onset": "json",
            "stall_airspeed": "json", "derivatives": "json", "target_lift": "json", "pitch_trim": "json", "create_stl": "stl"}


def ops_available(spec):
    w, p = has_wings(spec), has_props(spec)
    out = ["solve", "distributions", "create_stl"]
    if w:
        out += ["ll_solve", "stall_onset", "find_aero_center", "stall_airspeed"] + MEDIUM + ["pitch_trim"]
    else:
        out += ["target_lift", "stall_onset", "derivatives"]
    if p:
        out += ["props_solve"]
    return out


def is_search(prop):
    if not prop:
        return False
    return any(k in ("brake_power", "electric_throttle") or (isinstance(v, dict) and is_search(v)) for k, v in prop.items())


def gen_op(R, spec, pool, weights=None, model=0, file_p=0.1, search=0.3, wild=0.05, p_none=0.12, kinds=None):
    w = {"solve": 10, "distributions": 3, "ll_solve": 2, "props_solve": 2, "derivatives": 0.8, "stability_derivatives": 0.8,
         "control_derivatives": 0.8, "damping_derivatives": 0.8, "target_lift": 1.5, "stall_onset": 0.5, "pitch_trim": 0.7,
         "create_stl": 0.25, "find_aero_center": 0.12, "stall_airspeed": 0.08}
    if weights:
        w.update(weights)
    avail = [k for k in (kinds or ops_available(spec)) if k in ops_available(spec)]
    op = {"m": model, "op": R.choices(avail, [w[k] for k in avail])[0]}
    heavy = op["op"] in HEAVY + HUGE + MEDIUM
    op.update(states(R, spec, pool, 0.0 if heavy and R.random() < 0.85 else search, wild, p_none))
    if heavy and op["prop"] and is_search(pool.d[op["prop"]]) and op["op"] in HUGE + HEAVY:
        op["prop"] = pool.new("prop", {"J": 0.5})
    finish_op(R, spec, pool, op)
    if op["op"] in FILE_OPS and R.random() < file_p or op["op"] == "create_stl":
        ext = FILE_OPS[op["op"]]
        if op["op"] == "distributions" and R.random() < 0.4:
            ext = "json"
        op["file"] = R.choice(["a", "b", "result"]) + "." + ext
    return op


def finish_op(R, spec, pool, op):
    k = op["op"]
    if k in ("target_lift", "pitch_trim"):
        q = 0.5 * 0.0023769 * 100
        a = pool.d.get(op["aero"]) if op.get("aero") else None
        if a:
            V, rho = a.get("V_mag", 10), a.get("rho", 0.0023769)
            V = V.get("$f64") if isinstance(V, dict) else V
            if isinstance(V, (int, float)) and isinstance(rho, (int, float)):
                q = 0.5 * rho * V * V
        op["L"] = r6(q * R.uniform(-2, 6)) if R.random() < 0.9 else r6(q * R.choice([0.0, 1e3]))
        if k == "pitch_trim" and R.random() < 0.3:
            op["M"] = r6(q * R.uniform(-0.3, 0.3))
    if k == "stall_airspeed":
        op["W"] = r6(R.uniform(0.2, 60))
    if k == "create_stl":
        for x in ("aero", "ctl", "prop"):
            op[x] = None
    if k == "ll_solve":
        op["prop"] = None
        if R.random() < 0.4:
            op["solver"] = R.choice(["own", "even", "even"])
    if k == "props_solve":
        op["ctl"] = None
        if R.random() < 0.3:
            op["solver"] = R.choice(["own", "alone"])
    if k == "props_solve" and op["aero"] is None:
        op["aero"] = pool.new("aero", gen_aero(R))


def gen_edit(R, spec, pool):
    """The caller changes one of its own dictionaries between requests."""
    mine = [k for k in pool.d]
    if not mine:
        return None
    name = R.choice(mine)
    which = {"a": "aero", "c": "ctl", "p": "prop"}[name[0]]
    if which == "aero":
        key = R.choice(["alpha", "beta", "V_mag", "alpha", "yaw_rate"])
        val = R.choice(NICE_V) if key == "V_mag" else r6(R.uniform(-5, 6)) if key in ("alpha", "beta") else 0.1
    elif which == "ctl":
        key, val = R.choice(["aileron", "elevator", "rudder", "flap"]), r6(R.uniform(-10, 10))
    else:
        v = pool.d[name]
        if any(isinstance(x, dict) for x in v.values()) or not v:
            return None
        key = R.choice(sorted(v))
        if not isinstance(v[key], (int, float)) or key == "J" and v[key] == 0:
            return None
        val = r6(v[key] * R.uniform(0.7, 1.3))
        if key == "electric_throttle":
            val = min(val, 1.0)
    return {"op": "edit", "ref": name, "key": key, "val": val}
