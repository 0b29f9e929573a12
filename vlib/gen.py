"""Strategies producing JSON-able airplane, state and propeller specifications,
and builders that turn a specification into machup objects (API or JSON file)."""
from . import env  # noqa: F401
import json
import math
import os
import tempfile
from collections import OrderedDict

from hypothesis import strategies as st

import machup.geometry as geometry

# ---------------------------------------------------------------- numbers


def num(lo, hi, step=0.01):
    """Multiples of step in [lo, hi], even ones as int; shrinks towards 0 (or the nearest bound)."""
    a, b = int(math.ceil(lo / step - 1e-9)), int(math.floor(hi / step + 1e-9))

    def value(k):
        v = round(float(k * step), 10)
        return int(v) if v % 2 == 0 else v
    return st.integers(a, b).map(value)


def maybe(strategy, default):
    return st.one_of(st.just(default), strategy)


def mostly(strategy, default):
    return st.one_of(strategy, strategy, strategy, st.just(default))


@st.composite
def rare(draw, common, unusual, odds=12):
    """Mostly the common range, now and then an unusual value."""
    return draw(unusual if draw(st.integers(0, odds - 1)) == odds - 1 else common)


# ---------------------------------------------------------------- airfoils


@st.composite
def airfoil(draw, cm=True):
    return {
        "name": draw(st.sampled_from(["NACA2412", "NACA0012", "NACA4415", "custom"])),
        "alpha_L0": draw(rare(num(-0.08, 0.04, 0.001), num(-0.25, 0.2, 0.01))),
        "CL_alpha": draw(rare(num(4.5, 7.0, 0.01), num(0.5, 9., 0.1))),
        "CL_max": draw(rare(num(1.0, 1.8, 0.01), num(0.3, 4., 0.1))),
        "Cm_L0": draw(num(-0.12, 0.06, 0.001)) if cm else 0.,
        "Cm_alpha": draw(num(-0.3, 0.3, 0.01)) if cm else 0.,
        "CD0": draw(num(0.0, 0.02, 0.0005)),
        "CD0_L": draw(num(-0.01, 0.01, 0.0005)),
        "CD0_L2": draw(num(0.0, 0.03, 0.0005)),
    }


@st.composite
def control(draw):
    r = draw(num(0., 0.85, 0.05))
    t = draw(num(min(0.95, r + 0.1), 1.0, 0.05))
    mix = {}
    for k in draw(st.lists(st.sampled_from(["aileron", "elevator", "rudder", "flap"]),
                           min_size=1, max_size=4, unique=True)):
        mix[k] = draw(rare(st.sampled_from([1.0, 1.0, -1.0, 0.5, -0.5, 0.25, 2.0, 1]), num(-3, 3, 0.01), 6))
    cr = draw(rare(num(0.05, 0.6, 0.01), num(0.6, 0.95, 0.01)))
    return {"span": [r, t],
            "chord": [cr, draw(st.one_of(st.just(cr), num(0.05, 0.6, 0.01), num(0.05, 0.9, 0.01)))],
            "mix": mix,
            "sealed": draw(st.sampled_from([1, 1, 0])),
            "form": draw(st.integers(0, 3))}


# ---------------------------------------------------------------- wings


@st.composite
def wing(draw, name, sides=("both", "both", "right", "left"), parents=(), spread=True,
         max_grid=10, min_grid=1, vertical=True, angles=True, controls=True,
         airfoils=True, big=None):
    side = draw(st.sampled_from(list(sides)))
    options = [p for p in parents if p["side"] == "both" or p["side"] == side]
    parent = None
    if options and draw(st.booleans()):
        parent = draw(st.sampled_from([p["name"] for p in options]))
    chord = draw(rare(num(0.2, 3.0, 0.05), num(0.02, 12., 0.02)))
    kind = draw(rare(st.sampled_from(["normal", "normal", "normal", "vertical"]), st.just("folded"))) \
        if vertical else "normal"
    d = {
        "name": name,
        "parent": parent,
        "side": side,
        "pos": [draw(mostly(num(-5, 5, 0.05), 0.)) if spread else 0.,
                draw(maybe(num(-2, 2, 0.05), 0.)) if spread else 0.,
                draw(mostly(num(-2, 2, 0.05), 0.)) if spread else 0.],
        "yoffset": draw(maybe(num(0. if side == "both" else -0.6, 1.5, 0.05), 0.)),
        "semispan": draw(rare(num(0.5, 8.0, 0.05), num(0.1, 40., 0.1))),
        "sweep": draw(mostly(rare(num(-40, 40, 1), num(-65, 65, 0.5)), 0.)) if angles else 0.,
        "dihedral": (draw(st.sampled_from([90., -90., 80.])) if kind == "vertical" else
                     draw(st.one_of(num(60, 180, 5), num(-180, -60, 5))) if kind == "folded" else
                     (draw(mostly(num(-30, 40, 1), 0.)) if angles else 0.)),
        "mount": draw(mostly(rare(num(-6, 6, 0.5), num(-25, 25, 0.5)), 0.)) if angles else 0.,
        "washout": draw(mostly(rare(num(-6, 6, 0.5), num(-20, 20, 0.5)), 0.)) if angles else 0.,
        "root_chord": chord,
        "tip_chord": draw(rare(st.one_of(st.just(chord), num(0.1, 3.0, 0.05), num(0.01, 1., 0.01)), st.just(0.), 15)),
        "grid": draw(rare(st.integers(min_grid, max_grid), st.sampled_from(list(big))) if big else
                     st.integers(min_grid, max_grid)),
        "is_main": draw(st.sampled_from([1, 1, 1, 0])),
        "airfoil_root": None, "airfoil_tip": None,
        "control": draw(maybe(control(), None)) if controls else None,
    }
    if airfoils:
        mode = draw(st.sampled_from(["two", "one", "default", "two"]))
        if mode != "default":
            d["airfoil_root"] = draw(airfoil())
        if mode == "two":
            d["airfoil_tip"] = draw(airfoil())
            if d["airfoil_tip"]["name"] == d["airfoil_root"]["name"]:
                d["airfoil_tip"]["name"] += "b" if d["airfoil_root"]["name"] == "custom" else ""
    return d


STYLES = ("%s%d", "left_%s%d", "right%s.%d", "stabilize_%s%d", "tip-%s%d")


def style():
    """How wings and propellers are called: none of it matters (fits the 18 columns of tables)."""
    return st.one_of(st.just(STYLES[0]), st.sampled_from(STYLES))


@st.composite
def airplane(draw, min_wings=1, max_wings=3, connect=True, props=0, **kw):
    n = draw(rare(st.integers(min_wings, max_wings), st.integers(min_wings, max_wings + 2 * (max_wings > 1))))
    wings, name = [], draw(style())
    for i in range(n):
        wings.append(draw(wing(name % ("w", i), parents=wings if connect else (), **kw)))
    if wings and not any(w["is_main"] for w in wings):
        wings[0]["is_main"] = 1
    spec = {
        "name": "plane",
        "cg": [draw(maybe(num(-3, 3, 0.05), 0.)), draw(maybe(num(-1, 1, 0.05), 0.)),
               draw(maybe(num(-1, 1, 0.05), 0.))],
        "units": draw(st.sampled_from(["English", "SI"])),
        "lat_ref": draw(rare(num(0.5, 20., 0.1), num(0.01, 0.5, 0.01))),
        "long_ref": draw(rare(num(0.1, 4., 0.05), num(0.005, 0.1, 0.005))),
        "position": None,
        "wings": wings,
        "props": [],
    }
    if props:
        m = draw(st.integers(1 if not wings else 0, props))
        spec["props"] = [draw(prop("p%d" % i)) for i in range(m)]
    return spec


# ---------------------------------------------------------------- propellers


@st.composite
def prop_airfoil(draw):
    return {
        "name": draw(st.sampled_from(["NACA2412", "NACA0012", "NACA4415"])),
        "alpha_L0": draw(rare(num(-0.06, 0.0, 0.001), num(-0.12, 0.05, 0.001))),
        "CL_alpha": draw(rare(num(5.0, 6.6, 0.01), num(3., 8., 0.1))),
        "CL_max": draw(num(1.1, 1.8, 0.01)),
        "Cm_L0": 0., "Cm_alpha": 0.,
        "CD0": draw(num(0.004, 0.02, 0.0005)),
        "CD0_L": draw(num(-0.005, 0.005, 0.0005)),
        "CD0_L2": draw(num(0.004, 0.03, 0.0005)),
    }


@st.composite
def motor(draw):
    return {"has_motor": True,
            "motor_kv": draw(num(200, 2500, 10)),
            "motor_resistance": draw(num(0.01, 0.2, 0.005)),
            "motor_no_load_current": draw(num(0.1, 2., 0.05)),
            "gear_reduction": draw(rare(st.sampled_from([1., 1., 2.5]), num(0.5, 6., 0.1))),
            "battery_resistance": draw(num(0.005, 0.05, 0.005)),
            "battery_voltage": draw(st.sampled_from([7.4, 11.1, 22.2])),
            "speed_control_resistance": draw(num(0.002, 0.02, 0.002))}


@st.composite
def prop(draw, name, tilt=True, with_motor=False, tables=False):
    """tables: also what input files cannot hold or what needs files of its own"""
    d = draw(rare(num(0.5, 6.0, 0.05), num(0.05, 20., 0.05)))
    kind = draw(st.sampled_from(["default", "ratio", "value"] + (["from_file"] if tables else [])))
    pitch = {"type": kind}
    if kind == "ratio":
        pitch["value"] = draw(rare(num(0.4, 1.4, 0.01), num(0.1, 3., 0.05)))
    elif kind == "value":
        pitch["value"] = round(d * draw(num(0.4, 1.4, 0.01)), 6)
    elif kind == "from_file":
        p0 = draw(num(0.4, 1.2, 0.01))
        tw = draw(num(-3, 3, 0.5))
        pitch["table"] = [[round(z, 3), round(math.degrees(math.atan(p0 / (math.pi * z))) + tw * z, 5)]
                          for z in [0.05, 0.15, 0.3, 0.45, 0.6, 0.75, 0.9, 1.0]]
    if draw(st.booleans()):
        pitch["pitch_increment"] = draw(rare(num(0, 5, 0.25), num(-8, 15, 0.5)))
    ck = draw(st.sampled_from(["default", "linear", "linear", "elliptical"] + (["from_file"] if tables else [])))
    chord = {"type": ck}
    if ck == "linear":
        chord["root"] = round(d * draw(num(0.05, 0.12, 0.005)), 6)
        if draw(st.booleans()):
            chord["tip"] = round(d * draw(num(0.02, 0.1, 0.005)), 6)
    elif ck == "elliptical":
        chord["root"] = round(d * draw(num(0.05, 0.12, 0.005)), 6)
    elif ck == "from_file":
        c0 = draw(num(0.1, 0.22, 0.01))
        c1 = draw(num(0.04, 0.15, 0.01))
        chord["table"] = [[z, round(c0 + (c1 - c0) * z * z, 6)]
                          for z in [0.05, 0.2, 0.4, 0.6, 0.8, 1.0]]
    n_af = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 3, 4, 5]))
    afs = [draw(prop_airfoil()) for _ in range(n_af)]
    if n_af == 2:
        afs[0]["span_position"], afs[1]["span_position"] = "root", "tip"
    elif n_af > 2:
        order = draw(st.permutations(range(n_af)))
        where = ["root"] + draw(st.lists(st.integers(6, 16), min_size=n_af - 2, max_size=n_af - 2, unique=True)) + ["tip"]
        where = [round(x * 0.05, 6) if isinstance(x, int) else x for x in where]
        for i, k in enumerate(order):
            afs[k]["span_position"] = where[i]
    if n_af > 1 and tables and draw(st.integers(0, 3)) == 0:       # away from the ends: constant beyond
        for af in afs:
            if af["span_position"] == "root":
                af["span_position"] = draw(num(0.15, 0.28, 0.01))
            elif af["span_position"] == "tip":
                af["span_position"] = draw(num(0.82, 0.95, 0.01))
    for i, af in enumerate(afs):
        af["key"] = af["name"] if n_af == 1 else af["name"][:7] + str((int(af["name"][7:]) + i) % 10)
    # distinct keys
    seen = set()
    for i, af in enumerate(afs):
        while af["key"] in seen:
            af["key"] += "x"
        seen.add(af["key"])
    hub = draw(rare(num(0.05, 0.25, 0.01), num(0.02, 0.5, 0.01)))
    for af in afs:          # two airfoils at the same place on the blade say nothing
        if isinstance(af.get("span_position"), float) and af["span_position"] < hub + 0.02:
            af["span_position"] = round(hub + 0.1013 + 0.1 * af["span_position"], 4)
    return {
        "name": name,
        "pos": [draw(num(-2, 3, 0.05)), draw(maybe(num(-3, 3, 0.05), 0.)), draw(maybe(num(-1, 1, 0.05), 0.))],
        "orient": [draw(maybe(rare(num(-12, 12, 0.5), num(-70, 70, 1)), 0.)) if tilt else 0.,
                   draw(maybe(rare(num(-12, 12, 0.5), num(-70, 70, 1)), 0.)) if tilt else 0.],
        "nodes": draw(rare(st.sampled_from([11, 12, 15, 20, 31, 40]), st.sampled_from([5, 8, 10, 64, 100, 101]))),
        "diameter": d,
        "hub": round(d * hub, 6),
        "blades": draw(rare(st.sampled_from([2, 2, 3, 4, 5]), st.sampled_from([1, 6, 7, 8]))),
        "rot_dir": draw(st.sampled_from(["CCW", "CW", "ccw", "cw", 1, -1])),
        "pitch": pitch, "chord": chord,
        "motor": draw(motor()) if with_motor else {},
        "airfoils": afs,
    }


# ---------------------------------------------------------------- states


@st.composite
def aero(draw, rates=True, small=False, beta=True):
    lim = 6 if small else 14
    far = num(-lim, lim, 0.1) if small else st.one_of(num(-60, 60, 0.5), st.sampled_from([0.02, -0.003, 1e-4, -1e-6]))
    d = {"V_mag": draw(rare(num(1, 120, 0.5), st.sampled_from([0.01, 0.1, 0.5, 250., 340.5, 1000.]))),
         "rho": draw(rare(st.sampled_from([0.0023769, 1.225, 1.0, 0.5, 0.0017555]),
                          st.sampled_from([1e-5, 0.01, 20., 1000.])))}
    if draw(st.integers(0, 9)) > 0:
        d["alpha"] = draw(rare(num(-lim, lim, 0.1), far))
    if beta and draw(st.integers(0, 2)) > 0:
        d["beta"] = draw(rare(num(-lim, lim, 0.1), far))
    if rates and draw(st.integers(0, 2)) == 0:
        for k in draw(st.lists(st.sampled_from(["roll_rate", "pitch_rate", "yaw_rate"]),
                               min_size=1, max_size=3, unique=True)):
            # non-dimensional rates, scaled by V/10 so that velocities stay moderate
            d[k] = round(draw(num(-0.25, 0.25, 0.01)) * d["V_mag"] / 10., 8)
    return d


@st.composite
def controls(draw, big=True):
    d = {}
    lim = 30 if big else 10
    for k in ("aileron", "elevator", "rudder", "flap"):
        if draw(st.booleans()):
            d[k] = draw(rare(num(-lim, lim, 0.5), num(-60, 60, 1)) if big else num(-lim, lim, 0.5))
    return d


# ---------------------------------------------------------------- builders


def af_kwargs(a):
    return {k: a[k] for k in ("alpha_L0", "CL_alpha", "CL_max", "Cm_L0", "Cm_alpha",
                              "CD0", "CD0_L", "CD0_L2")}


def wing_dims(w):
    return dict(position=list(w["pos"]), is_main=w["is_main"], yoffset=w["yoffset"],
                semispan=w["semispan"], sweep=w["sweep"], dihedral=w["dihedral"],
                mount_angle=w["mount"], washout=w["washout"], root_chord=w["root_chord"],
                tip_chord=w["tip_chord"], grid=w["grid"])


def _table(table, tmp):
    path = os.path.join(tmp, "t%d.txt" % len(os.listdir(tmp)))
    with open(path, "w") as f:
        for row in table:
            f.write("%.10g %.10g\n" % tuple(row))
    return path


def prop_info(info, tmp):
    info = dict(info)
    if "table" in info:
        info["filename"] = _table(info.pop("table"), tmp)
    return info


def build(spec, tmp=None, objects=None):
    """Airplane through the programmatic interface (objects collects the wings and props)."""
    plane = geometry.Airplane(spec.get("name", ""), spec.get("position"))
    plane.cg_location(*spec["cg"])
    plane.set_reference_lengths(spec["lat_ref"], spec["long_ref"])
    if spec.get("units") and any(p["motor"] for p in spec["props"]):
        plane.get_units = lambda: spec["units"]      # (only a file can set it)
    for w in spec["wings"]:
        wing_obj = plane.add_wing(w["name"], (w["parent"], "tip"), w["side"], **wing_dims(w))
        if objects is not None:
            objects[w["name"]] = wing_obj
        if w["airfoil_root"] and not w["airfoil_tip"]:
            wing_obj.airfoil(w["airfoil_root"]["name"], "both", **af_kwargs(w["airfoil_root"]))
        elif w["airfoil_root"]:
            wing_obj.airfoil(w["airfoil_root"]["name"], "root", **af_kwargs(w["airfoil_root"]))
            wing_obj.airfoil(w["airfoil_tip"]["name"], "tip", **af_kwargs(w["airfoil_tip"]))
        c = w["control"]
        if c:
            form = c.get("form", 0)
            chord = c["chord"][0] if form & 1 and c["chord"][0] == c["chord"][1] else tuple(c["chord"])
            wing_obj.control_surface(percent_span=tuple(c["span"]), percent_chord=chord, mix=dict(c["mix"]),
                                     **{"is_sealed" if form & 2 else "sealed": c["sealed"]})
    for p in spec["props"]:
        po = plane.add_prop(p["name"], position=list(p["pos"]), orientation=list(p["orient"]),
                            nodes=p["nodes"], diameter=p["diameter"], hub_diameter=p["hub"],
                            num_of_blades=p["blades"], rot_dir=p["rot_dir"],
                            pitch_info=prop_info(p["pitch"], tmp), chord_info=prop_info(p["chord"], tmp),
                            electric_motor=dict(p["motor"]))
        if objects is not None:
            objects[p["name"]] = po
        for a in p["airfoils"]:
            kw = af_kwargs(a)
            if "span_position" in a:
                kw["span_position"] = a["span_position"]
            po.airfoil(a["key"], **kw)
    return plane


DEFAULT_AF = {"name": "NACA2412", "alpha_L0": -0.0369, "CL_alpha": 6.2832, "CL_max": 1.4,
              "Cm_L0": -0.0527, "Cm_alpha": -0.08, "CD0": 0.0055, "CD0_L": -0.0045, "CD0_L2": 0.01}


def to_json(spec, tmp=None, omit_main=False):
    """The same airplane as the contents of an input file."""
    data = OrderedDict()
    data["condition"] = {"units": spec["units"]} if spec.get("units") else {}
    data["reference"] = {"area": 1., "longitudinal_length": spec["long_ref"],
                         "lateral_length": spec["lat_ref"]}
    data["plane"] = {"name": spec["name"], "CGx": spec["cg"][0], "CGy": spec["cg"][1], "CGz": spec["cg"][2]}
    ids = {}
    if spec["wings"]:
        data["wings"] = OrderedDict()
    for i, w in enumerate(spec["wings"]):
        ids[w["name"]] = w.get("id", i + 1)
        afs = OrderedDict()
        root = w["airfoil_root"] or DEFAULT_AF
        tip = w["airfoil_tip"]
        afs[root["name"]] = {"properties": dict(af_kwargs(root), type="linear")}
        if tip:
            key = tip["name"] if tip["name"] != root["name"] else tip["name"] + "_tip"
            afs[key] = {"properties": dict(af_kwargs(tip), type="linear")}
        c = w["control"]
        d = OrderedDict()
        d["name"] = w["name"]
        d["ID"] = ids[w["name"]]
        d["side"] = w["side"]
        d["connect"] = {"ID": ids[w["parent"]] if w["parent"] else 0,
                        "location": "tip" if w["parent"] else w.get("loc", "tip"),
                        "dx": w["pos"][0], "dy": w["pos"][1], "dz": w["pos"][2],
                        "yoffset": w["yoffset"]}
        if not (omit_main and w["is_main"]):
            d["is_main"] = w["is_main"]
        d.update(span=w["semispan"], sweep=w["sweep"], dihedral=w["dihedral"],
                 mounting_angle=w["mount"], washout=w["washout"], root_chord=w["root_chord"],
                 tip_chord=w["tip_chord"], airfoils=afs, grid=w["grid"])
        d["control"] = OrderedDict(span_root=c["span"][0], span_tip=c["span"][1],
                                   chord_root=c["chord"][0], chord_tip=c["chord"][1],
                                   is_sealed=c["sealed"], mix=c["mix"]) if c else {}
        data["wings"][w["name"]] = d
    if spec["props"]:
        data["propellers"] = OrderedDict()
    for p in spec["props"]:
        afs = OrderedDict()
        for a in p["airfoils"][:2]:
            afs[a["key"]] = {"properties": af_kwargs(a)}
        d = OrderedDict(name=p["name"],
                        position={"dx": p["pos"][0], "dy": p["pos"][1], "dz": p["pos"][2]},
                        orientation={"elevation_angle": p["orient"][0], "heading_angle": p["orient"][1]},
                        radial_nodes=p["nodes"], diameter=p["diameter"], hub_diameter=p["hub"],
                        num_of_blades=p["blades"], rotation_direction=p["rot_dir"],
                        pitch=prop_info(p["pitch"], tmp), chord=prop_info(p["chord"], tmp),
                        airfoils=afs)
        if p["motor"]:
            d["electric_motor"] = p["motor"]
        data["propellers"][p["name"]] = d
    return data


def write_json(data, tmp):
    fd, path = tempfile.mkstemp(suffix=".json", dir=tmp)
    with os.fdopen(fd, "w") as f:
        json.dump(data, f)
    return path


class Scratch:
    """Temporary directory; the check creates and removes it."""

    def __enter__(self):
        self.d = tempfile.TemporaryDirectory(prefix="verif-")
        return self.d.name

    def __exit__(self, *a):
        self.d.cleanup()


def segments(spec):
    """(wing, side) in the order machup lists the segments."""
    out = []
    for w in spec["wings"]:
        for s in (["left", "right"] if w["side"] == "both" else [w["side"]]):
            out.append((w, s))
    return out


def from_json(data):
    """The specification an input file describes (read independently of machup)."""
    ref, pl = data["reference"], data["plane"]
    spec = {"name": pl["name"], "cg": [float(pl["CG" + x]) for x in "xyz"], "lat_ref": ref["lateral_length"],
            "long_ref": ref["longitudinal_length"], "units": data["condition"].get("units"), "position": None,
            "wings": [], "props": []}

    def af(name, d):
        return dict({k: d["properties"][k] for k in ("alpha_L0", "CL_alpha", "CL_max", "Cm_L0", "Cm_alpha", "CD0",
                                                     "CD0_L", "CD0_L2")}, name=name)
    by_id = {}
    for name, w in data.get("wings", {}).items():
        by_id[w["ID"]] = name
        afs = [af(k, v) for k, v in w["airfoils"].items()]
        c, k = w["control"], w["connect"]
        spec["wings"].append({
            "name": name, "parent": by_id[k["ID"]] if k["ID"] else None, "side": w["side"],
            "pos": [k["dx"], k["dy"], k["dz"]], "yoffset": k["yoffset"], "semispan": w["span"], "sweep": w["sweep"],
            "dihedral": w["dihedral"], "mount": w["mounting_angle"], "washout": w["washout"],
            "root_chord": w["root_chord"], "tip_chord": w["tip_chord"], "grid": w["grid"],
            "is_main": w.get("is_main", 1), "airfoil_root": afs[0], "airfoil_tip": afs[1] if len(afs) > 1 else None,
            "control": {"span": [c["span_root"], c["span_tip"]], "chord": [c["chord_root"], c["chord_tip"]],
                        "mix": dict(c["mix"]), "sealed": c["is_sealed"]} if c else None})
    for name, p in data.get("propellers", {}).items():
        afs = [dict(af(k, v), key=k) for k, v in p["airfoils"].items()]
        if len(afs) > 1:
            afs = afs[:2]
            afs[0]["span_position"], afs[1]["span_position"] = "root", "tip"
        spec["props"].append({
            "name": name, "pos": [p["position"][k] for k in ("dx", "dy", "dz")],
            "orient": [p["orientation"]["elevation_angle"], p["orientation"]["heading_angle"]],
            "nodes": p["radial_nodes"], "diameter": p["diameter"], "hub": p["hub_diameter"], "blades": p["num_of_blades"],
            "rot_dir": p["rotation_direction"], "pitch": p["pitch"], "chord": p["chord"],
            "motor": p.get("electric_motor", {}), "airfoils": afs})
    return spec
