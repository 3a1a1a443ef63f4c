"""Executable reference models: what an answer must satisfy, computed independently of the
library from individual answers of freshly built models."""
import json, math
import core
from core import decode, diff
from engine import ref, ref_many

FK = ["FL", "FD", "FS", "FX", "FY", "FZ", "MX", "MY", "MZ"]
DEF = {"V_mag": 10, "rho": 0.0023769}


def fin(x):
    return isinstance(x, (int, float)) and math.isfinite(x)


def num(v, default=0.0):
    if isinstance(v, dict):
        v = decode(v)
    if v is None:
        return default
    return float(v)


def aero_of(step):
    return step.get("aero") or dict(DEF)


def fscale(t):
    return max([abs(t[k]) for k in FK[:6] if fin(t.get(k))] + [0.0])


def mscale(t):
    return max([abs(t[k]) for k in FK if fin(t.get(k))] + [0.0])


# ------------------------------------------------------------------ C12
def wind(F, alpha, beta, u=None):
    """Lift, drag, side of a body-axis force (x forward, y right, z down)."""
    a, b = math.radians(alpha), math.radians(beta)
    u = u or [-math.cos(a) * math.cos(b), -math.cos(a) * math.sin(b), -math.sin(a) * math.cos(b)]
    n = math.sqrt(sum(x * x for x in u))
    u = [x / n for x in u]
    L = [-u[2], 0.0, u[0]]
    n = math.hypot(L[0], L[2])
    L = [x / n for x in L]
    S = [L[1] * u[2] - L[2] * u[1], L[2] * u[0] - L[0] * u[2], L[0] * u[1] - L[1] * u[0]]
    n = math.sqrt(sum(x * x for x in S))
    S = [x / n for x in S]
    D = sum(f * x for f, x in zip(F, u))
    Lf = sum(f * x for f, x in zip(F, L))
    rest = [f - Lf * l - D * d for f, l, d in zip(F, L, u)]
    return Lf, D, sum(f * x for f, x in zip(rest, S))


def close(a, b, scale, rtol=1e-9):
    if a == b or (a != a and b != b):
        return True
    return abs(a - b) <= rtol * max(abs(a), abs(b), scale)


def rotation_ok(part, step, where):
    al, be = num(aero_of(step).get("alpha")), num(aero_of(step).get("beta"))
    if num(aero_of(step).get("V_mag"), 10.0) <= 0:
        return None         # a backward airspeed has no agreed wind axes
    if not all(fin(part.get(k)) for k in FK[:6]) or not fin(al) or not fin(be):
        return None
    u = None
    if "local_state" in aero_of(step) and "V_mag" not in aero_of(step):
        # no freestream given: the mean of the local velocities
        rows = aero_of(step)["local_state"]["$arr"]
        u = [sum(r[k] for r in rows) / len(rows) for k in (1, 2, 3)]
    L, D, S = wind([part["FX"], part["FY"], part["FZ"]], al, be, u)
    sc = fscale(part)
    for k, v in (("FL", L), ("FD", D), ("FS", S)):
        if not close(part[k], v, sc, 1e-8):
            return "%s: %s is %r, the body-axis components give %r" % (where, k, part[k], v)
    return None


def identities_solve(step, out, file):
    """Returned total against itself and against the document written."""
    if out[0] != "ok" or not isinstance(out[1], dict):
        return None
    t = out[1]
    if set(FK) - set(t):
        return "total lacks %s" % sorted(set(FK) - set(t))
    e = rotation_ok(t, step, "total")
    if e:
        return e
    if file is None:
        return None
    doc = json.loads(file.decode())
    if set(doc) != {"wing_results", "prop_results", "total_results"}:
        return "document has the sections %s" % sorted(doc)
    d = diff(doc["total_results"], t, "file total", rtol=0, atol=0)
    if d:
        return d
    w, p = doc["wing_results"], doc["prop_results"]
    wt, pt = w.get("total", {}), p.get("total", {})
    sc = max(mscale(wt), mscale(pt))
    for k in FK:
        if not close(t[k], wt.get(k, 0) + pt.get(k, 0), sc):
            return "total %s %r is not wing %r + propeller %r" % (k, t[k], wt.get(k, 0), pt.get(k, 0))
    if w:
        for k in FK:
            if not close(wt[k], w["inviscid"][k] + w["viscous"][k], mscale(w["inviscid"]) + mscale(w["viscous"])):
                return "wing %s %r is not inviscid %r + viscous %r" % (k, wt[k], w["inviscid"][k], w["viscous"][k])
        if wt["FD"] != 0 and not close(wt["L/D"], wt["FL"] / wt["FD"], 0, 1e-9):
            return "L/D %r is not FL/FD" % wt["L/D"]
    for nm, part in (("inviscid wing force", w.get("inviscid")), ("viscous wing force", w.get("viscous")),
                     ("wing force", wt), ("propeller force", pt)):
        if part:
            e = rotation_ok(part, step, nm)
            if e:
                return e
    return None


def identities_ll(step, out):
    if out[0] != "ok":
        return None
    w = out[1]
    for k in FK:
        if not close(w["total"][k], w["inviscid"][k] + w["viscous"][k], mscale(w["inviscid"]) + mscale(w["viscous"])):
            return "wing %s is not inviscid + viscous" % k
    for nm in ("inviscid", "viscous", "total"):
        e = rotation_ok(w[nm], step, nm)
        if e:
            return e
    return None


WCOLS = ["chord", "twist", "dihedral", "sweep", "area", "alpha", None, None, None, "section_CL", "section_Cm",
         "section_CD_parasitic", "section_alpha_L0", "section_CL_ref"]
PCOLS = ["radial_position", "chord", "pitch", "advance_angle", "induced_angle", "alpha", "section_CL", "section_CD",
         "Vi", "Vi_x", "Vi_t"]


def parse_distributions(text):
    wings, props, cur = [], [], None
    for line in text.split("\n"):
        if line.startswith("#"):
            if "WingDistributions" in line:
                cur = (wings, 17)
            elif "PropellerDistributions" in line:
                cur = (props, 11)
            continue
        if not line.strip():
            continue
        if cur is None:
            raise ValueError("line %.60r before any section" % line)
        n = cur[1]
        vals = line.split()
        nums = [float(x) for x in vals[-n:]]
        cur[0].append((" ".join(vals[:-n]), nums))
    return wings, props


def distributions_file(step, out, file):
    """Text (or its JSON wrapping) against the arrays handed to the caller."""
    if out[0] != "ok":
        return None
    w, p = out[1]
    text = file.decode()
    if step["file"].endswith("json"):
        doc = json.loads(text)
        if set(doc) != {"data"}:
            return "distributions document has keys %s" % sorted(doc)
        text = doc["data"].replace("newline", "\n")
    wings, props = parse_distributions(text)
    nw = len(w["name"]) if w else 0
    np_ = len(p["name"]) if p else 0
    if len(wings) != nw or len(props) != np_:
        return "file has %d wing and %d propeller rows, the answer %d and %d" % (len(wings), len(props), nw, np_)
    for i, (name, vals) in enumerate(wings):
        if name != " ".join(str(w["name"][i]).split()):
            return "wing row %d is named %r, the answer says %r" % (i, name, w["name"][i])
        want = list(w["control_points"][i]) + [w[c][i] if c else None for c in WCOLS]
        want[9:12] = list(w["forces_xyz"][i])
        for j, (a, b) in enumerate(zip(vals, want)):
            if not close(a, float(b), 0, 2e-12):
                return "wing row %d column %d is %r, the answer holds %r" % (i, j + 1, a, float(b))
    for i, (name, vals) in enumerate(props):
        if name != " ".join(str(p["name"][i]).split()):
            return "propeller row %d is named %r, the answer says %r" % (i, name, p["name"][i])
        for j, c in enumerate(PCOLS):
            if not close(vals[j], float(p[c][i]), 0, 2e-12):
                return "propeller row %d column %s is %r, the answer holds %r" % (i, c, vals[j], float(p[c][i]))
    return None


def distributions_sum(spec, step, out, stats):
    """Sectional forces add up to the inviscid wing force of the same request."""
    if out[0] != "ok" or not out[1][0]:
        return None
    s = {k: v for k, v in step.items() if k not in ("file", "prior", "rel", "form")}
    s.update(op="solve", file="ids.json", m=0)
    r = ref(spec, s, stats)
    if r["out"][0] != "ok":
        return None
    inv = json.loads(r["file"].decode())["wing_results"]["inviscid"]
    f = out[1][0]["forces_xyz"]
    import numpy as np
    sc = float(np.abs(f).sum())
    for i, k in enumerate(("FX", "FY", "FZ")):
        v = float(f[:, i].sum())
        if not close(v, inv[k], sc):
            return "sectional forces sum to %s=%r, a solve reports %r" % (k, v, inv[k])
    return None


def plain_json_file(step, out, file):
    """JSON documents of the other analyses repeat the returned values."""
    if out[0] != "ok":
        return None
    doc = json.loads(file.decode())
    if step["op"] == "find_aero_center":
        return diff(doc, {"x_ac": float(out[1][0]), "z_ac": float(out[1][2])}, "file", rtol=0, atol=0)
    if step["op"] == "pitch_trim" and out[1] is None:
        return None if set(doc) == {"error"} else "nothing returned but the file says %r" % doc
    return diff(doc, out[1], "file", rtol=0, atol=0)


def stl_file(spec, step, out, file):
    if out[0] != "ok":
        return None
    J = spec["json"]
    faces = 0
    for w in J.get("wings", {}).values():
        k = 2 if w["side"] == "both" else 1
        faces += k * (w["grid"] - 1) * 49 * 2
    for p in J.get("propellers", {}).values():
        faces += p["num_of_blades"] * (p["radial_nodes"] - 1) * 49 * 2
    if len(file) < 84:
        return "STL file has only %d bytes" % len(file)
    n = int.from_bytes(file[80:84], "little")
    if n != faces or len(file) != 84 + 50 * n:
        return "STL file has %d bytes and announces %d facets, the airplane has %d" % (len(file), n, faces)
    return None


def file_content(spec, step, out, file):
    """Absolute check of a completed request's output file."""
    if out[0] != "ok":
        return None
    if file is None:
        return "no file at the path given"
    try:
        op = step["op"]
        if op == "solve":
            return identities_solve(step, out, file)
        if op == "distributions":
            return distributions_file(step, out, file)
        if op == "create_stl":
            return stl_file(spec, step, out, file)
        return plain_json_file(step, out, file)
    except (ValueError, KeyError, IndexError, TypeError, UnicodeDecodeError) as e:
        return "file cannot be read back: %r" % e


def identities(spec, step, out, file, stats):
    op = step["op"]
    if out[0] != "ok":
        return None
    if file is not None and step.get("file"):
        e = file_content(spec, step, out, file)
        if e:
            return e
    if op == "solve":
        e = identities_solve(step, out, None)
        if e or stats is None:
            return e
        return split_solve(spec, step, out, stats)
    if op == "ll_solve":
        return identities_ll(step, out)
    if op == "distributions":
        return distributions_sum(spec, step, out, stats)
    return None


def split_solve(spec, step, out, stats):
    """A total equals the sum of what the parts report when asked on their own."""
    J = spec["json"]
    if not J.get("propellers"):
        if step.get("aero") and step["op"] == "solve":
            r = ref(spec, dict(op="ll_solve", m=0, aero=step["aero"], ctl=step.get("ctl"), prop=None), stats)
            if r["out"][0] == "ok":
                return diff({k: r["out"][1]["total"][k] for k in FK}, {k: out[1][k] for k in FK}, "wing alone vs total")
    elif not J.get("wings"):
        r = ref(spec, dict(op="props_solve", m=0, aero=aero_of(step), ctl=None, prop=step.get("prop")), stats)
        if r["out"][0] == "ok":
            return diff({k: r["out"][1][0]["total"][k] for k in FK}, {k: out[1][k] for k in FK}, "propellers alone vs total")
    return None


# ------------------------------------------------------------------ C09
def S(step, aero=None, ctl=None):
    return dict(op="solve", m=0, aero=aero, ctl=ctl, prop=step.get("prop"))


CN = ["CL", "CD", "CS", "CX", "CY", "CZ", "Cl", "Cm", "Cn"]


def geometry(spec, stats):
    """Reference area and lengths: from the description where it states them."""
    a = ref(spec, {"op": "attrs", "m": 0}, stats)["out"]
    if a[0] != "ok":
        return None
    a = a[1]
    r = spec["json"]["reference"]
    lat = r["lateral_length"]
    lon = r["longitudinal_length"]
    Sw = a["Sw"]
    if lat is None and lon is None:
        lat = max(2 * w["span"] for w in spec["json"]["wings"].values())
        lon = Sw / lat
    elif lon is None:
        lon = Sw / lat
    elif lat is None:
        lat = Sw / lon
    return Sw, lat, lon


def state(step):
    """Operating point with the documented defaults spelled out."""
    a = dict(aero_of(step))
    c = dict(step.get("ctl") or {})
    return a, c


def central(spec, step, which, stats):
    """Expected derivative tables from individual solves at the perturbed states."""
    g = geometry(spec, stats)
    if g is None:
        return None
    Sw, lat, lon = g
    if not (Sw and lat and lon):
        return None
    a, c = state(step)
    V = num(a.get("V_mag"), 10.0)
    DP = 0.5 * num(a.get("rho"), 0.0023769) * V * V * Sw
    todo = []          # (suffix, back step, forward step, divisor)
    if which == "stability":
        h = 0.5
        for k, s in (("alpha", "_a"), ("beta", "_b")):
            x = num(a.get(k))
            todo.append((s, S(step, dict(a, **{k: x - h}), c), S(step, dict(a, **{k: x + h}), c), 2 * math.radians(h) * DP))
    elif which == "damping":
        h = 0.005
        for k, s, L in (("roll_rate", "_pbar", lat), ("pitch_rate", "_qbar", lon), ("yaw_rate", "_rbar", lat)):
            x, d = num(a.get(k)), h * 2 * V / L
            todo.append((s, S(step, dict(a, **{k: x - d}), c), S(step, dict(a, **{k: x + d}), c), 2 * h * DP))
    else:
        h = 0.25
        for k, s in (("aileron", "_da"), ("elevator", "_de"), ("rudder", "_dr"), ("flap", "_df")):
            x = num(c.get(k))
            todo.append((s, S(step, a, dict(c, **{k: x - h})), S(step, a, dict(c, **{k: x + h})), 2 * math.radians(h) * DP))
    recs = ref_many(spec, [s for t in todo for s in t[1:3]], stats)
    want, tol = {}, {}
    for i, (suf, b, f, div) in enumerate(todo):
        rb, rf = recs[2 * i]["out"], recs[2 * i + 1]["out"]
        if rb[0] != "ok" or rf[0] != "ok":
            return None
        for k, n, L in zip(FK, CN, [1] * 6 + [lat, lon, lat]):
            x, y = rf[1][k], rb[1][k]
            if not div * L:
                return None
            want[n + suf] = (x - y) / div / L
            sc = max(mscale(rf[1]), mscale(rb[1]))
            tol[n + suf] = 1e-9 * abs(sc / div / L)
    return want, tol


def compare_table(got, want, tol, name):
    if not isinstance(got, dict) or set(want) - set(got):
        return "%s derivatives lack %s" % (name, sorted(set(want) - set(got or ()))[:4])
    for k in want:
        a, b = got[k], want[k]
        if a != a and b != b:
            continue
        if not abs(a - b) <= 1e-8 * abs(b) + tol[k]:
            return "%s is %r, individual solves give %r" % (k, a, b)
    return None


def derivatives(spec, step, out, stats):
    op = step["op"]
    if out[0] != "ok" or "error" in (out[1] or ()):
        return None
    parts = {"stability_derivatives": ["stability"], "control_derivatives": ["control"], "damping_derivatives": ["damping"],
             "derivatives": ["stability", "control", "damping"]}[op]
    for w in parts:
        exp = central(spec, step, w, stats)
        if exp is None:
            continue
        got = out[1][w + "_derivatives"] if op == "derivatives" else out[1]
        e = compare_table(got, exp[0], exp[1], w)
        if e:
            return e
        if op == "derivatives" and w == "stability":
            cm, cl = exp[0]["Cm_a"], exp[0]["CL_a"]
            sm = got.get("static_margin")
            if not cl or cm != cm or cl != cl:
                continue
            if sm is None or not abs(sm + cm / cl) <= 1e-7 * abs(cm / cl) + (exp[1]["Cm_a"] + exp[1]["CL_a"] * abs(cm / cl)) / abs(cl):
                return "static margin is %r, individual solves give %r" % (sm, -cm / cl)
    return None


def cl_limits(spec, name):
    """Smallest and largest section maximum lift of the wing a section belongs to."""
    base = name.split("_", 1)[1] if "_" in name else name
    w = spec["json"]["wings"][base]
    m = [a["properties"]["CL_max"] for a in w["airfoils"].values()]
    return min(m), max(m)


def stalled(spec, d):
    """(certainly stalled sections, possibly stalled sections) of a wing distribution."""
    sure, maybe = [], []
    for n, cl in zip(d["name"], d["section_CL"]):
        lo, hi = cl_limits(spec, str(n))
        if cl > lo:
            maybe.append(str(n))
        if cl > hi:
            sure.append(str(n))
    return sure, maybe


def stall(spec, step, out, stats, sweep=2):
    """The sweep's angles are multiples of 0.1 up to rounding, which matters where the flow
    turns exactly onto a wing: a complaint must hold on both sides of the angle."""
    e = stall_at(spec, step, out, stats, sweep, 0.0)
    for d in (-1e-7, 1e-7) if e else ():
        if stall_at(spec, step, out, stats, sweep, d) is None:
            return None
    return e


def stall_at(spec, step, out, stats, sweep, off):
    if out[0] != "ok" or "error" in out[1]:
        return None
    info = out[1]
    a, c = state(step)
    al = info["alpha"]
    steps = []
    def D(x):
        return dict(op="distributions", m=0, aero=dict(a, alpha=x + off), ctl=step.get("ctl"), prop=step.get("prop"))
    n = int(round(al / 0.1))
    if abs(al - n * 0.1) > 1e-6 or al < 0:
        return "stall angle %r is not on the sweep" % al
    earlier = sorted({0, n - 1, n // 2, n // 3} & set(range(n)))
    if sweep == "all":
        earlier = list(range(n))
    steps = [S(step, dict(a, alpha=al + off), step.get("ctl")), D(al)] + [D(round(0.1 * k, 10)) for k in earlier]
    recs = ref_many(spec, steps, stats)
    if any(r["out"][0] != "ok" for r in recs):
        return None
    FL = recs[0]["out"][1]["FL"]
    sc = fscale(recs[0]["out"][1])
    if not fin(FL):
        return None
    if not abs(FL - info["lift"]) <= (1e-7 if not off else 1e-4) * sc:
        return "stall lift %r, a solve at the stall angle gives %r" % (info["lift"], FL)
    d = recs[1]["out"][1][0]
    sure, maybe = stalled(spec, d)
    if not maybe:
        return "no section exceeds its maximum lift at the reported stall angle %r" % al
    if info["stalled_wing"] not in maybe:
        return "%s is reported stalled, stalled sections are on %s" % (info["stalled_wing"], sorted(set(maybe)))
    if not 0 <= info["span_location"] <= 1:
        return "span location %r" % info["span_location"]
    for k, r in zip(earlier, recs[2:]):
        s2, _ = stalled(spec, r["out"][1][0])
        if s2:
            return "%s already exceeds its maximum lift at %.1f, stall onset is reported at %r" % (s2[0], 0.1 * k, al)
    return None


def unstallable(spec, step, stats):
    """The sweep is said to have found no stalled section up to 90 degrees."""
    a, c = state(step)
    ks = list(range(0, 900, 60)) + [895]
    recs = ref_many(spec, [dict(op="distributions", m=0, aero=dict(a, alpha=round(0.1 * k, 10)), ctl=step.get("ctl"), prop=step.get("prop")) for k in ks], stats)
    for k, r in zip(ks, recs):
        if r["out"][0] == "ok" and stalled(spec, r["out"][1][0])[0]:
            near = ref_many(spec, [dict(op="distributions", m=0, aero=dict(a, alpha=0.1 * k + d), ctl=step.get("ctl"), prop=step.get("prop")) for d in (-1e-7, 1e-7)], stats)
            if not all(n["out"][0] == "ok" and stalled(spec, n["out"][1][0])[0] for n in near):
                continue
            return "reported unstallable, but %s exceeds its maximum lift at %.1f degrees" % (stalled(spec, r["out"][1][0])[0][0], 0.1 * k)
    return None


def aero_center(spec, step, out, stats):
    """Thin-airfoil-type fit of the individual solves between -10 and 10 degrees."""
    if out[0] != "ok":
        return None
    import numpy as np
    g = geometry(spec, stats)
    if g is None:
        return None
    Sw, lat, lon = g
    if not (Sw and lat and lon):
        return None
    a, c = state(step)
    V = num(a.get("V_mag"), 10.0)
    DP = 0.5 * num(a.get("rho"), 0.0023769) * V * V * Sw
    al = np.arange(-10, 10, 0.05)
    recs = []
    for i in range(0, len(al), 100):
        recs += ref_many(spec, [S(step, dict(a, alpha=float(x)), step.get("ctl")) for x in al[i:i + 100]], stats)
    if any(r["out"][0] != "ok" for r in recs):
        return None
    FX = np.array([r["out"][1]["FX"] for r in recs]) / DP
    FZ = np.array([r["out"][1]["FZ"] for r in recs]) / DP
    Cm = np.array([r["out"][1]["MY"] for r in recs]) / DP / lon
    if not (np.isfinite(FX).all() and np.isfinite(FZ).all() and np.isfinite(Cm).all()):
        return None
    CNn, CA = -FZ, -FX
    r_ = np.radians(al)
    ca, sa = np.cos(r_), np.sin(r_)
    CL, CD = CNn * ca - CA * sa, CA * ca + CNn * sa
    # CL ~ p*sin(a) - q*cos(a)
    (p, q), *_ = np.linalg.lstsq(np.stack([sa, -ca], 1), CL, rcond=None)
    CL0a = p
    aL0 = math.atan2(q, p) if p > 0 else math.atan(q / p)
    (CD0, CD1, CD2), *_ = np.linalg.lstsq(np.stack([np.ones_like(CL), CL, CL * CL], 1), CD, rcond=None)
    (Cm0a, CmN, CmA), *_ = np.linalg.lstsq(np.stack([np.sin(2 * r_), CNn, CA], 1), Cm, rcond=None)
    ao = math.radians(num(a.get("alpha")))
    den = 2 * CL0a + 3 * CD0 - 2 * CD2 * CL0a * CL0a
    X = -lon * (-((4 + 2 * CD0 / CL0a + (12 * ao * ao - 4) * CD2 * CL0a) / den) * Cm0a - CmN)
    Z = -lon * ((4 * aL0 + 4 * CD1 + 12 * ao * CD2 * CL0a) / den * Cm0a + CmA)
    cg = spec["json"]["plane"]
    want = [X + cg["CGx"], 0.0, Z + cg["CGz"]]
    sc = max(abs(lon), abs(X), abs(Z), abs(CmA) * lon, abs(CmN) * lon)
    for n, g_, w in zip("xyz", out[1], want):
        if not abs(float(g_) - w) <= 1e-4 * sc:
            return "aerodynamic centre %s is %r, a fit of individual solves gives %r" % (n, float(g_), w)
    return None


def dist_alone(spec, step, out, stats):
    """Distributions repeat what an individual solve at the same state computed."""
    if out[0] != "ok":
        return None
    e = distributions_sum(spec, step, out, stats)
    if e or not out[1][0]:
        return e
    g = geometry(spec, stats)
    d = out[1][0]
    import numpy as np
    want = d["section_CL"] * d["chord"] / g[2]
    if not np.allclose(d["section_CL_ref"], want, rtol=1e-9, atol=1e-14, equal_nan=True):
        return "section_CL_ref is not section_CL*chord/longitudinal reference length"
    return None


def composition(spec, step, out, stats):
    op = step["op"]
    if op in ("derivatives", "stability_derivatives", "control_derivatives", "damping_derivatives"):
        return derivatives(spec, step, out, stats)
    if op == "stall_onset":
        return stall(spec, step, out, stats)
    if op == "find_aero_center":
        return aero_center(spec, step, out, stats)
    if op == "distributions":
        return dist_alone(spec, step, out, stats)
    return None


# ------------------------------------------------------------------ C13
def doc_of(step, out, file):
    """(reported solution or None, says-it-failed)"""
    if out[0] == "exc":
        return None, True
    if out[0] != "ok":
        return None, False
    v = out[1]
    if v is None and step["op"] == "pitch_trim":
        v = json.loads(file.decode()) if file else None
    if not isinstance(v, dict):
        return None, False
    return (None, True) if "error" in v else (v, False)


def target(spec, step, out, file, stats):
    op = step["op"]
    if op not in ("target_lift", "pitch_trim", "stall_onset", "stall_airspeed", "solve"):
        return None
    if op == "solve":
        return None
    try:
        sol, failed = doc_of(step, out, file)
    except ValueError as e:
        return "unreadable document %r" % e
    if failed:
        if out[0] == "ok" and not step.get("file"):
            return "an error document is returned although no filename was given"
        if op == "stall_onset" and out[0] == "ok" and spec["json"].get("wings"):
            return unstallable(spec, step, stats)
        return None
    if sol is None:
        return "%s reports neither a solution nor a failure" % op
    a, c = state(step)
    err = step.get("error", 1e-9)
    if op == "target_lift":
        al = sol.get("alpha")
        if not fin(al):
            return "reported angle %r" % (al,)
        h = 1e-4
        r = ref_many(spec, [S(step, dict(a, alpha=x), step.get("ctl")) for x in (al, al + h, al - h)], stats)
        if r[0]["out"][0] != "ok":
            return "a solve at the reported angle %r fails: %s" % (al, core.brief(r[0]["out"]))
        t = r[0]["out"][1]
        sl = 0.0
        for x in r[1:]:
            if x["out"][0] == "ok":
                sl = max(sl, abs(x["out"][1]["FL"] - t["FL"]) / h)
        tol = 4 * sl * err + 1e-8 * max(fscale(t), abs(step["L"]))
        if not abs(t["FL"] - step["L"]) <= tol:
            return "lift at the reported angle is %r, the target is %r (tolerance %.3g)" % (t["FL"], step["L"], tol)
        return None
    if op == "pitch_trim":
        al, de = sol.get("alpha"), sol.get("elevator")
        if not fin(al) or not fin(de):
            return "reported trim %r" % (sol,)
        r = ref(spec, S(step, dict(a, alpha=al), dict(step.get("ctl") or {}, elevator=de)), stats)
        if r["out"][0] != "ok":
            return "a solve at the reported trim fails: %s" % core.brief(r["out"])
        t = r["out"][1]
        tol = err * 1.01 + 1e-11 * mscale(t)
        M = step.get("M", 0.0)
        if not (abs(t["FL"] - step["L"]) <= tol and abs(t["MY"] - M) <= tol):
            return "at the reported trim lift is %r (target %r) and pitching moment %r (target %r), tolerance %.3g" % (
                t["FL"], step["L"], t["MY"], M, tol)
        return None
    if op == "stall_onset":
        return stall(spec, step, out, stats)
    if op == "stall_airspeed":
        V = sol.get("airspeed")
        if not fin(V):
            return "reported airspeed %r" % (V,)
        V2 = V
        s = dict(step, op="stall_onset", aero=dict(a, V_mag=V2), m=0)
        for k in ("file", "W", "error", "prior", "rel", "form"):
            s.pop(k, None)
        h = 1e-4 * max(1.0, abs(V))
        r = ref_many(spec, [s, dict(s, aero=dict(a, V_mag=V + h))], stats)
        if r[0]["out"][0] != "ok":
            return "stall onset at the reported airspeed %r fails: %s" % (V, core.brief(r[0]["out"]))
        i0 = r[0]["out"][1]
        sl = abs(r[1]["out"][1]["lift"] - i0["lift"]) / h if r[1]["out"][0] == "ok" and r[1]["out"][1]["alpha"] == i0["alpha"] else abs(i0["lift"]) / max(abs(V), 1e-9)
        tol = 4 * sl * err + 1e-7 * max(abs(i0["lift"]), abs(step["W"]))
        if abs(i0["lift"] - step["W"]) <= tol:
            if i0["alpha"] != sol["alpha"] or i0["stalled_wing"] != sol["stalled_wing"]:
                return "at the reported airspeed stall onset is %r, not %r" % (i0, sol)
            return None
        # the onset may switch between neighbouring sweep angles exactly at the reported speed
        near = ref_many(spec, [dict(s, aero=dict(a, V_mag=V + d)) for d in (-4 * err, 4 * err)], stats)
        for n in near:
            if n["out"][0] == "ok" and abs(n["out"][1]["lift"] - step["W"]) <= tol + 4 * sl * err:
                return None
        return "stall lift at the reported airspeed %r is %r, the weight is %r" % (V, i0["lift"], step["W"])
    return None


def motor_torque(motor, throttle, n, units):
    ns = 1 - 0.079 * (1 - throttle)
    Im = (ns * throttle * motor["battery_voltage"] - motor["gear_reduction"] / motor["motor_kv"] * n * 60) / (
        ns * throttle * motor["battery_resistance"] + motor["speed_control_resistance"] + motor["motor_resistance"])
    T = 7.0432 * motor["gear_reduction"] / motor["motor_kv"] * (Im - motor["motor_no_load_current"])
    return T * (1.3558179483314 if units == "SI" else 1.0)


def speed_found(spec, step, out, stats):
    """Shaft power or throttle request on a one-propeller airplane: the speed the answer
    refers to (read off the advance angles) absorbs the power or the motor's torque."""
    ps = spec["json"].get("propellers", {})
    if out[0] != "ok" or len(ps) != 1 or step["op"] != "distributions" or not step.get("prop"):
        return None
    (name, p), = ps.items()
    st = step["prop"].get(name, step["prop"])
    if not isinstance(st, dict) or "J" in st or "rot_per_sec" in st:
        return None
    if "brake_power" not in st and "electric_throttle" not in st:
        return None
    d = out[1][1]
    a = aero_of(step)
    V = num(a.get("V_mag"), 10.0)
    z = d["radial_position"] / (p["diameter"] / 2)
    import numpy as np
    Js = np.tan(np.radians(d["advance_angle"])) * math.pi * z
    J = float(Js[len(Js) // 2])
    if V == 0 or J == 0 or not math.isfinite(J) or not math.isfinite(V):
        return None
    n = V / (J * p["diameter"])
    r = ref_many(spec, [dict(op="props_solve", m=0, aero=a, ctl=None, prop={"rot_per_sec": n}),
                        dict(op="distributions", m=0, aero=step.get("aero"), ctl=step.get("ctl"), prop={"rot_per_sec": n}),
                        dict(op="props_solve", m=0, aero=a, ctl=None, prop={"rot_per_sec": n * (1 + 1e-6)}),
                        dict(op="props_solve", m=0, aero=a, ctl=None, prop={"rot_per_sec": n * (1 - 1e-6)})], stats)
    if any(x["out"][0] != "ok" for x in r[:2]):
        return "a solve at the speed found (%r rev/s) fails: %s" % (n, core.brief(r[0]["out"]))
    def quant(x):
        q = -x["out"][1][0]["total"]["Torque"] * (-1.0 if p["rotation_direction"].lower() == "cw" else 1.0)
        return q
    q = quant(r[0])
    dq = max([abs(quant(x) - q) for x in r[2:] if x["out"][0] == "ok"] + [0.0])
    if "brake_power" in st:
        got, want = q * 2 * math.pi * n, st["brake_power"]
        tol = 1e-6 * abs(want) + 2 * math.pi * abs(n) * dq
    else:
        m = dict(p["electric_motor"])
        got, want = q, motor_torque(m, st["electric_throttle"], n, spec["json"]["condition"]["units"])
        w2 = motor_torque(m, st["electric_throttle"], n * (1 + 1e-6), spec["json"]["condition"]["units"])
        tol = 1e-6 * max(abs(want), abs(got)) + dq + abs(w2 - want)
    if not abs(got - want) <= tol:
        return "at the speed found (%r rev/s) the propeller absorbs %r, requested %r" % (n, got, want)
    e = diff(r[1]["out"][1][1], d, "propeller distribution", rtol=1e-5, atol=1e-6)
    return e
