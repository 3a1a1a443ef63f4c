"""Assembling airplanes through the public API, and edit histories with a known final meaning."""
import copy, os
import gen

AF = ["alpha_L0", "CL_alpha", "CL_max", "Cm_L0", "Cm_alpha", "CD0", "CD0_L", "CD0_L2"]


def describe(plane):
    """What an airplane says of itself through its public getters."""
    def ask(o, name, *a):
        try:
            v = getattr(o, name)(*a)
        except Exception as e:      # not set yet
            return type(e).__name__
        return plainly(v)

    def plainly(v):
        if isinstance(v, dict):
            return {k: plainly(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [plainly(x) for x in v]
        if hasattr(v, "get_lift_slope"):
            return [ask(v, n) for n in ("get_name", "get_span_position", "get_lift_slope", "get_zero_lift_alpha", "get_max_lift", "get_moment_slope",
                                        "get_zero_lift_moment", "get_drag_coefficients")]
        return v.tolist() if hasattr(v, "tolist") else v
    d = {n: ask(plane, n) for n in ("get_cg_location", "get_units", "get_lat_ref", "get_long_ref", "get_num_sections")}
    for i, s in enumerate(plane.get_wingsegments()):
        for n in ("get_airfoils", "get_num_sections", "get_span", "get_chord", "get_mounting_angle", "get_washout", "get_dihedral", "get_sweep", "get_side",
                  "get_control_surface_span", "get_control_surface_chord", "get_control_mix", "is_control_surface_sealed"):
            d["wing segment %d %s" % (i, n)] = ask(s, n)
        for side in ("left_tip", "right_tip"):
            d["wing segment %d %s" % (i, side)] = ask(s, "get_position", side)
    for i, p in enumerate(plane.get_props()):
        for n in ("get_position", "get_orientation", "get_number_of_nodes", "get_diameter", "get_hub_diameter", "get_num_of_blades", "get_rot_dir",
                  "get_airfoils", "get_pitch_info", "get_chord_info", "get_motor_info"):
            d["propeller %d %s" % (i, n)] = ask(p, n)
    return d


def altered(before, plane):
    """How an airplane differs from its earlier description, or None."""
    now = describe(plane)
    for k in sorted(set(before) | set(now)):
        if repr(before.get(k)) != repr(now.get(k)):
            return "%s was %.120r, is %.120r" % (k, before.get(k), now.get(k))
    return None


class Assembler:
    """Executes command lists; keeps the airplane, the handles the caller got back and the
    caller-owned mutable inputs."""

    def __init__(self, indir):
        self.indir, self.plane, self.owned = indir, None, []
        self.wings, self.props = {}, {}
        self.watch, self.altered = False, None

    def run(self, cmds):
        from machup import Airplane
        for c in cmds:
            c = copy.deepcopy(c)
            k = c[0]
            if k == "new":
                if len(c) > 1 and c[1]:
                    self.plane = Airplane(inputfile=os.path.join(self.indir, c[1]))
                elif len(c) > 2:
                    self.owned.append(c[2])
                    self.plane = Airplane("built", c[2])
                else:
                    self.plane = Airplane(name="built")
                self.wings, self.props = {}, {}
            elif k == "cg":
                self.plane.cg_location(**{n: v for n, v in zip(("x_coord", "y_coord", "z_coord"), c[1:]) if v is not None})
            elif k == "ref":
                self.plane.set_reference_lengths(lateral=c[1], longitudinal=c[2])
            elif k == "wing":
                _, name, parent, at, side, dims = c
                self.owned.append(dims)
                self.wings[name] = self.plane.add_wing(name, connect_to=(parent, at), side=side, **dims)
            elif k == "wing_airfoil":
                _, name, af, end, pr = c
                self.owned.append(pr)
                self.wings[name].airfoil(af, end, **pr)
            elif k == "ctl":
                _, name, pr = c
                self.owned.append(pr)
                self.wings[name].control_surface(**pr)
            elif k == "prop":
                _, name, dims = c
                for x in ("pitch_info", "chord_info"):
                    if x in dims and dims[x].get("type") == "from_file":
                        dims[x]["filename"] = os.path.join(self.indir, dims[x]["filename"])
                self.owned.append(dims)
                self.props[name] = self.plane.add_prop(name, **dims)
            elif k == "prop_airfoil":
                _, name, af, pr = c
                self.owned.append(pr)
                self.props[name].airfoil(af, **pr)
            elif k == "use":
                # a model of the airplane as it is now, put to use before the airplane is finished
                from machup.MU import MachUp
                before = describe(self.plane) if self.watch else None
                try:
                    getattr(MachUp(inputAirplane=self.plane), c[1])(**c[2])
                except Exception:
                    pass
                if before is not None:
                    self.altered = self.altered or altered(before, self.plane)
            else:
                raise KeyError(k)
        return self


def wing_cmds(name, w, names_by_id):
    c = w["connect"]
    parent = names_by_id.get(c["ID"]) if c["ID"] else None
    dims = {"position": [c["dx"], c["dy"], c["dz"]], "is_main": w["is_main"], "yoffset": c["yoffset"],
            "semispan": w["span"], "sweep": w["sweep"], "dihedral": w["dihedral"], "mount_angle": w["mounting_angle"],
            "washout": w["washout"], "root_chord": w["root_chord"], "tip_chord": w["tip_chord"], "grid": w["grid"]}
    add = ["wing", name, parent, c["location"] if parent else "tip", w["side"], dims]
    afs = list(w["airfoils"])
    air = []
    if len(afs) > 1:
        air.append(["wing_airfoil", name, afs[0], "root", dict(w["airfoils"][afs[0]]["properties"])])
        air.append(["wing_airfoil", name, afs[1], "tip", dict(w["airfoils"][afs[1]]["properties"])])
    else:
        air.append(["wing_airfoil", name, afs[0], "both", dict(w["airfoils"][afs[0]]["properties"])])
    ctl = []
    if w["control"]:
        k = w["control"]
        ctl.append(["ctl", name, {"percent_span": [k["span_root"], k["span_tip"]], "percent_chord": [k["chord_root"], k["chord_tip"]],
                                  "mix": dict(k["mix"]), "sealed": k["is_sealed"]}])
    return add, air, ctl


def prop_cmds(name, p, prefix):
    def info(d):
        d = dict(d)
        if d.get("type") == "from_file":
            d["filename"] = prefix + d["filename"]
        return d
    dims = {"position": [p["position"][k] for k in ("dx", "dy", "dz")],
            "orientation": [p["orientation"]["elevation_angle"], p["orientation"]["heading_angle"]],
            "nodes": p["radial_nodes"], "diameter": p["diameter"], "hub_diameter": p["hub_diameter"],
            "num_of_blades": p["num_of_blades"], "rot_dir": p["rotation_direction"],
            "pitch_info": info(p["pitch"]), "chord_info": info(p["chord"])}
    if p.get("electric_motor"):
        dims["electric_motor"] = dict(p["electric_motor"])
    afs = list(p["airfoils"])
    air = []
    for i, a in enumerate(afs):
        pr = dict(p["airfoils"][a]["properties"])
        pr["span_position"] = None if len(afs) == 1 else ("root", "tip")[i]
        air.append(["prop_airfoil", name, a, pr])
    return ["prop", name, dims], air


WING_DEFAULTS = {"position": [0.0, 0.0, 0.0], "is_main": 1, "yoffset": 0.0, "sweep": 0.0, "dihedral": 0.0, "mount_angle": 0.0, "washout": 0.0}
PROP_DEFAULTS = {"position": [0.0, 0.0, 0.0], "orientation": [0.0, 0.0], "num_of_blades": 2, "rot_dir": "CCW", "pitch_info": {"type": "default"},
                 "chord_info": {"type": "default"}}


def shorten(R, c):
    """Leave out what equals the default, and use the other documented spellings."""
    c = copy.deepcopy(c)
    if c[0] == "wing":
        d = c[5]
        for k, v in WING_DEFAULTS.items():
            if d.get(k) == v and R.random() < 0.5:
                del d[k]
        if d["tip_chord"] == d["root_chord"] and R.random() < 0.5:
            del d["tip_chord"]
    elif c[0] == "prop":
        d = c[2]
        for k, v in PROP_DEFAULTS.items():
            if d.get(k) == v and R.random() < 0.5:
                del d[k]
        if "rot_dir" in d and R.random() < 0.4:
            d["rot_dir"] = {"CCW": "ccw", "ccw": 1.0, "CW": -1.0, "cw": "CW"}.get(d["rot_dir"], d["rot_dir"])
    elif c[0] == "ctl":
        d = c[2]
        if isinstance(d["percent_chord"], list) and d["percent_chord"][0] == d["percent_chord"][1] and R.random() < 0.5:
            d["percent_chord"] = d["percent_chord"][0]
        if d.get("sealed") == 1 and R.random() < 0.5:
            del d["sealed"]
    return c


def plain(spec, prefix):
    """The straightforward command list for a description."""
    J = spec["json"]
    ids = {w["ID"]: n for n, w in J.get("wings", {}).items()}
    out = [["new"], ["cg", J["plane"]["CGx"], J["plane"]["CGy"], J["plane"]["CGz"]],
           ["ref", J["reference"]["lateral_length"], J["reference"]["longitudinal_length"]]]
    for n, w in J.get("wings", {}).items():
        a, air, ctl = wing_cmds(n, w, ids)
        out += [a] + air + ctl
    for n, p in J.get("propellers", {}).items():
        a, air = prop_cmds(n, p, prefix)
        out += [a] + air
    return out


def history(R, spec, prefix):
    """A shuffled command list with detours, whose final meaning is `spec`.

    Detours: settings that are overwritten later (airfoils, control surfaces, centre of
    gravity per coordinate, reference lengths). Components are added in random order, a
    parent before its children. Returns (commands, order_changed)."""
    J = spec["json"]
    ids = {w["ID"]: n for n, w in J.get("wings", {}).items()}
    queues = []
    wnames, pnames = list(J.get("wings", {})), list(J.get("propellers", {}))
    order_w, order_p = list(wnames), list(pnames)
    if R.random() < 0.5:
        order_p = R.sample(pnames, len(pnames))
        todo, order_w = list(wnames), []
        while todo:
            ready = [n for n in todo if not J["wings"][n]["connect"]["ID"] or ids[J["wings"][n]["connect"]["ID"]] in order_w]
            n = R.choice(ready)
            order_w.append(n)
            todo.remove(n)

    def junk_af():
        return dict(alpha_L0=R.choice([-0.2, 0.1]), CL_alpha=R.choice([3.0, 9.0]), CL_max=0.5, Cm_L0=0.3, Cm_alpha=0.2,
                    CD0=0.09, CD0_L=0.02, CD0_L2=0.05)
    wq = []
    for n in order_w:
        a, air, ctl = wing_cmds(n, J["wings"][n], ids)
        q = []
        if R.random() < 0.6:
            q.append(["wing_airfoil", n, R.choice(["NACA0012", "junk"]), R.choice(["root", "tip", "both"]), junk_af()])
        if ctl and R.random() < 0.5:
            q.append(["ctl", n, {"percent_span": [0.1, 0.6], "percent_chord": R.choice([[0.4, 0.4], 0.3]),
                                 "mix": {"aileron": 2.0, "elevator": -1.0, "rudder": 0.5, "flap": 1.5}, "sealed": R.choice([0, 1])}])
        if len(air) == 2 and R.random() < 0.5:
            air = air[::-1]
        if len(air) == 2 and R.random() < 0.4:
            # set both ends to the first one, then the other end to its own
            air[0][3] = "both"
        if len(air) == 2 and R.random() < 0.3:
            # "both" first, then one end: the last setting of each end wins
            q.append(["wing_airfoil", n, "junk", "both", junk_af()])
        tail = air + ctl
        if R.random() < 0.5 and ctl:
            tail = ctl + air
        wq.append((a, q + tail))
    pq = []
    for n in order_p:
        a, air = prop_cmds(n, J["propellers"][n], prefix)
        q = []
        if R.random() < 0.4:
            x = R.choice(air)
            pr = junk_af()
            pr["span_position"] = x[3]["span_position"]
            q.append(["prop_airfoil", n, x[2], pr])
        pq.append((a, q + air))
    # interleave: adds keep their relative order (dictionary order is the caller's choice), the rest mixes
    lanes = [[], []]
    follow = []
    adds = [x for x in wq], [x for x in pq]
    seqs = [list(adds[0]), list(adds[1])]
    out = []
    pending = []
    cgs = []
    cg = [J["plane"]["CGx"], J["plane"]["CGy"], J["plane"]["CGz"]]
    if R.random() < 0.6:
        cgs.append(["cg", R.choice([0.7, None]), R.choice([-0.4, None]), R.choice([0.9, 0.0])])
    if R.random() < 0.5:
        idx = R.sample([0, 1, 2], 3)
        for i in idx:
            v = [None, None, None]
            v[i] = cg[i]
            cgs.append(["cg"] + v)
    else:
        cgs.append(["cg"] + cg)
    refs = []
    unset = J["reference"]["lateral_length"] is None and J["reference"]["longitudinal_length"] is None
    if R.random() < (0.2 if unset else 0.5):
        refs.append(["ref", 3.3, 0.4])
    if refs or not unset or R.random() < 0.3:
        refs.append(["ref", J["reference"]["lateral_length"], J["reference"]["longitudinal_length"]])
    pending += [cgs, refs]
    while any(seqs) or any(pending):
        opts = [("s", i) for i in (0, 1) if seqs[i]] + [("p", i) for i in range(len(pending)) if pending[i]]
        k, i = R.choice(opts)
        if k == "s":
            a, q = seqs[i].pop(0)
            if R.random() < 0.25:
                # first added with other dimensions, then added again under the same name
                b = copy.deepcopy(a)
                if b[0] == "wing":
                    b[4] = R.choice(["both", "left", "right", b[4]])
                    b[5].update(semispan=7.7, root_chord=2.2, sweep=15.0, grid=3, position=[0.5, 0.5, 0.5])
                    out.append(b)
                    if R.random() < 0.5:
                        out.append(["wing_airfoil", b[1], "junk", "both", junk_af()])
                    if R.random() < 0.5:
                        out.append(["ctl", b[1], {"percent_span": [0.0, 1.0], "percent_chord": 0.5, "mix": {"aileron": 1.0, "flap": -2.0}}])
                else:
                    b[2].update(diameter=3.1, nodes=7, num_of_blades=5, position=[0.1, 0.2, 0.3])
                    out.append(b)
                    if R.random() < 0.5:
                        out.append(["prop_airfoil", b[1], "junk", dict(junk_af(), span_position=None)])
            out.append(a)
            pending.append(list(q))
        else:
            out.append(pending[i].pop(0))
    changed = order_w != wnames or order_p != pnames
    if R.random() < 0.15:
        # a wing's airfoils are told apart by their end, not by their name (a propeller's by their name)
        for c in out:
            if c[0] == "wing_airfoil":
                c[2] = "NACA0012"
    out = [shorten(R, c) for c in out]
    use_midway(R, out)
    return [R.choice([["new"], ["new", None, [0.0, 0.0, 0.0]]])] + out, changed


def leaves(J):
    """Wings nothing is connected to (what a child is connected to is settled when it is added)."""
    return [n for n, w in J.get("wings", {}).items() if not any(x["connect"]["ID"] == w["ID"] for x in J["wings"].values())]


def other_wing(R, w):
    """The same wing with other dimensions, airfoils and controls."""
    w = copy.deepcopy(w)
    for k, v in (("span", 2.7), ("root_chord", 1.3), ("tip_chord", 0.45), ("sweep", 12.0), ("dihedral", 4.0), ("mounting_angle", 3.0),
                 ("washout", 2.0), ("grid", 3), ("side", "both")):
        if R.random() < 0.4 and not (k in ("side", "dihedral") and w["side"] != "both"):
            w[k] = v
    if R.random() < 0.3 and w["side"] != "both":
        w["side"] = "left" if w["side"] == "right" else "right"
    if R.random() < 0.5:
        w["connect"].update(dx=0.4, dz=R.choice([0.0, 0.25]), yoffset=R.choice([0.0, 0.1]))
    if R.random() < 0.5:
        w["airfoils"] = gen.gen_airfoils(R)
    if R.random() < 0.6:
        w["control"] = other_control(R)
    return w


def other_control(R):
    return {"span_root": R.choice([0.0, 0.4]), "span_tip": R.choice([0.8, 1.0]), "chord_root": R.choice([0.3, 0.2]),
            "chord_tip": R.choice([0.3, 0.15]), "is_sealed": R.choice([0, 1]),
            "mix": R.choice([{"flap": 1.0}, {"aileron": 2.0, "elevator": -0.5}, {"rudder": 1.0}, {"elevator": 1.0}, {"aileron": 1.0}, {}])}


def other_prop(R, p):
    p = copy.deepcopy(p)
    for k, v in (("radial_nodes", 7), ("num_of_blades", R.choice([2, 5])), ("rotation_direction", R.choice(["CCW", "CW"]))):
        if R.random() < 0.4:
            p[k] = v
    if R.random() < 0.4:
        p["diameter"], p["hub_diameter"] = 1.4, 0.2
    if R.random() < 0.4:
        p["position"].update(dx=0.3, dz=0.2)
    if R.random() < 0.3 and p["pitch"]["type"] != "from_file":
        p["pitch"] = {"type": "ratio", "value": 0.55}
    if R.random() < 0.3 and p["chord"]["type"] != "from_file":
        p["chord"] = {"type": "linear", "root": 0.09, "tip": 0.05}
    if p.get("electric_motor") and R.random() < 0.4:
        p["electric_motor"] = dict(p["electric_motor"], motor_kv=550.0, gear_reduction=1.5)
    if R.random() < 0.4:
        p["airfoils"] = gen.gen_airfoils(R, two=0.25)
    return p


def names_order(J):
    return list(J.get("wings", {})) + list(J.get("propellers", {}))


def file_history(R, spec, prefix, file):
    """An input file with another (possibly incomplete) airplane, completed and corrected through
    the API to mean `spec`. Returns (base description, commands, order_changed)."""
    J = spec["json"]
    base = copy.deepcopy(spec)
    B = base["json"]
    ids = {w["ID"]: n for n, w in J.get("wings", {}).items()}
    cmds = []
    if R.random() < 0.7:
        B["plane"].update(CGx=R.choice([0.7, 0.0]), CGy=R.choice([-0.4, 0.0]), CGz=0.9)
    cg = [["cg"] + [J["plane"][k] for k in ("CGx", "CGy", "CGz")]]
    if R.random() < 0.7:
        B["reference"].update(longitudinal_length=R.choice([2.2, None]), lateral_length=R.choice([5.5, None]))
    ref = [["ref", J["reference"]["lateral_length"], J["reference"]["longitudinal_length"]]]
    seqs = [cg, ref]
    some = leaves(J)
    if len(J.get("wings", {})) and not J.get("propellers") and len(some) == len(J["wings"]) and R.random() < 0.7:
        some = some[1:] or some        # keep something in the file, mostly
    for n in some:
        k = R.random()
        a, air, ctl = wing_cmds(n, J["wings"][n], ids)
        if k < 0.3:
            del B["wings"][n]
        elif k < 0.65:
            B["wings"][n] = other_wing(R, J["wings"][n])
        else:
            continue
        rest = air + ctl if R.random() < 0.5 else ctl + air
        seqs.append([a] + rest)
    for n in list(J.get("propellers", {})):
        k = R.random()
        a, air = prop_cmds(n, J["propellers"][n], prefix)
        if k < 0.3:
            del B["propellers"][n]
        elif k < 0.65:
            B["propellers"][n] = other_prop(R, J["propellers"][n])
        else:
            continue
        seqs.append([a] + air)
    for g in ("wings", "propellers"):
        if g in B and not B[g]:
            if R.random() < 0.5:
                del B[g]
    order = names_order(B)
    out = []
    while any(seqs):
        q = R.choice([q for q in seqs if q])
        c = q.pop(0)
        out.append(c)
        if c[0] in ("wing", "prop") and c[1] not in order:
            order.append(c[1])
    wings, props = J.get("wings", {}), J.get("propellers", {})
    changed = [n for n in order if n in wings] != list(wings) or [n for n in order if n in props] != list(props)
    out = [shorten(R, c) for c in out]
    use_midway(R, out)
    return base, [["new", file]] + out, changed


def use_midway(R, out):
    """Models of the unfinished airplane are built and used in between."""
    for _ in range(R.choice([0, 0, 1, 2])):
        out.insert(R.randint(0, len(out)), ["use", R.choice(["solve", "derivatives", "distributions", "solve"]),
                                            R.choice([{}, {"aero_state": {"V_mag": 20.0, "alpha": 3.0}}])])


def gen_alter(R, J):
    """One later edit of a finished airplane: what, component, and its new description."""
    opts = ["ref"]
    if J.get("wings"):
        opts += ["airfoil"] * 3 + ["control"] * 2
        if leaves(J):
            opts += ["wing"]
    if J.get("propellers"):
        opts += ["prop_airfoil"] * 2 + ["prop"]
    what = R.choice(opts)
    if what == "ref":
        return {"what": what, "val": [R.choice([None, 4.4, 9.1]), R.choice([None, 0.8, 1.7])]}
    if what == "airfoil":
        name = "NACA%04d" % R.choice([6, 9, 1410, 2309, 2418, 3312, 4409, 4421])
        return {"what": what, "name": R.choice(sorted(J["wings"])), "af": name, "end": R.choice(["root", "tip", "both"]),
                "val": gen.airfoil_props(R, R.choice(sorted(gen.AIRFOILS)))}
    if what == "control":
        return {"what": what, "name": R.choice(sorted(J["wings"])), "val": other_control(R)}
    if what == "wing":
        n = R.choice(leaves(J))
        return {"what": what, "name": n, "val": other_wing(R, J["wings"][n])}
    n = R.choice(sorted(J["propellers"]))
    if what == "prop_airfoil":
        return {"what": what, "name": n, "af": R.choice(sorted(J["propellers"][n]["airfoils"])),
                "val": gen.airfoil_props(R, R.choice(sorted(gen.AIRFOILS)))}
    return {"what": what, "name": n, "val": other_prop(R, J["propellers"][n])}


def alter_json(J, st):
    """What the airplane description is after the edit (None: the edit does not apply to it)."""
    J = copy.deepcopy(J)
    w, n = st["what"], st.get("name")
    if w == "ref":
        J["reference"].update(lateral_length=st["val"][0], longitudinal_length=st["val"][1])
    elif w == "airfoil":
        cur = list(J["wings"][n]["airfoils"].items())
        cur = [cur[0], cur[-1]]
        new = (st["af"], {"properties": st["val"]})
        if st["end"] == "both":
            cur = [new]
        else:
            cur[0 if st["end"] == "root" else 1] = new
        if len(cur) == 2 and cur[0][0] == cur[1][0] and cur[0][1] != cur[1][1]:
            # two different airfoils of one name; the file format needs two keys
            k = cur[1][0]
            cur[1] = (k.lower() if k[:4] == "NACA" else k.upper() if k[:4] == "naca" else k + "_", cur[1][1])
        J["wings"][n]["airfoils"] = dict(cur)
    elif w == "control":
        J["wings"][n]["control"] = st["val"]
    elif w == "wing":
        J["wings"][n] = st["val"]
    elif w == "prop_airfoil":
        J["propellers"][n]["airfoils"][st["af"]]["properties"] = st["val"]
    elif w == "prop":
        J["propellers"][n] = st["val"]
    return J


def alter_cmds(J, st, prefix):
    """The API calls of an edit, for an airplane whose description is J before it."""
    w, n = st["what"], st.get("name")
    ids = {x["ID"]: k for k, x in J.get("wings", {}).items()}
    if w == "ref":
        return [["ref"] + st["val"]]
    if w == "airfoil":
        return [["wing_airfoil", n, st["af"], st["end"], dict(st["val"])]]
    if w == "control":
        return wing_cmds(n, dict(J["wings"][n], control=st["val"]), ids)[2]
    if w == "wing":
        a, air, ctl = wing_cmds(n, st["val"], ids)
        return [a] + ctl + air
    if w == "prop_airfoil":
        air = [c for c in prop_cmds(n, J["propellers"][n], prefix)[1] if c[2] == st["af"]][0]
        return [["prop_airfoil", n, st["af"], dict(st["val"], span_position=air[3]["span_position"])]]
    a, air = prop_cmds(n, st["val"], prefix)
    return [a] + air
