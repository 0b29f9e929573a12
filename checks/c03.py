"""C03: an input file and the programmatic interface describe the same airplane."""
import glob
import json
import os

import numpy as np
from hypothesis import strategies as st

from vlib import env, gen, refll, refmodel
from vlib.runner import Sub
from vlib.util import KEYS, FK, check, close, require

import machup.geometry as geometry
import machup.MU as MU

PROPERTY = "C03"
ASSUMPTIONS = ["propellers in a file have one (whole blade) or two (root, tip) airfoils, the forms the format defines",
               "electric motors are compared in C19 (there is no programmatic way to choose the unit system)"]


@st.composite
def case(draw, props):
    p = draw(gen.airplane(min_wings=0 if props else 1, max_wings=3, max_grid=5, props=props))
    ids = draw(st.lists(st.one_of(st.integers(1, 40), st.integers(-9, 9999)).filter(bool), min_size=len(p["wings"]), max_size=len(p["wings"]), unique=True))
    for w, i in zip(p["wings"], ids):
        w["id"] = i
        if w["airfoil_tip"] and w["airfoil_tip"]["name"] == w["airfoil_root"]["name"]:
            w["airfoil_tip"]["name"] = "tip" + w["airfoil_tip"]["name"]
    for q in p["props"]:
        if len(q["airfoils"]) == 0:
            q["airfoils"] = [dict(draw(gen.prop_airfoil()), key="only")]
        elif len(q["airfoils"]) > 2:
            q["airfoils"] = sorted(q["airfoils"], key=lambda a: str(a["span_position"]))[-2:]
            q["airfoils"][0]["span_position"], q["airfoils"][1]["span_position"] = "root", "tip"
    p["units"] = draw(st.sampled_from(["English", "english", "SI", "si", "Si", None]))
    return {"plane": p, "aero": draw(gen.aero(rates=not props)), "ctl": draw(gen.controls()),
            "prop": draw(st.sampled_from([{"J": 0.3}, {"J": 0.5}, {"rot_per_sec": 40.}])),
            "omit_main": draw(st.booleans())}


AIRFOIL = ("get_name", "get_lift_slope", "get_zero_lift_alpha", "get_max_lift", "get_moment_slope", "get_zero_lift_moment",
           "get_drag_coefficients")
SEGMENT = ("get_num_sections", "get_span", "get_chord", "get_mounting_angle", "get_washout", "get_dihedral", "get_sweep", "get_side",
           "get_control_surface_span", "get_control_surface_chord", "get_control_mix", "is_control_surface_sealed")
PROPELLER = ("get_position", "get_orientation", "get_number_of_nodes", "get_diameter", "get_hub_diameter", "get_num_of_blades",
             "get_rot_dir", "get_pitch_info", "get_chord_info")


def same(what, x, y):
    if isinstance(x, dict) or isinstance(y, dict):
        check(isinstance(x, dict) and isinstance(y, dict), "%s: %r from the file, %r from the interface", what, x, y)
        for k in set(x) | set(y):
            if k != "filename":
                same("%s[%s]" % (what, k), x.get(k), y.get(k))
    elif isinstance(x, (list, tuple, np.ndarray)):
        check(len(x) == len(y), "%s: %r from the file, %r from the interface", what, x, y)
        for i, (p, q) in enumerate(zip(x, y)):
            same("%s[%d]" % (what, i), p, q)
    elif isinstance(x, (int, float, np.number)) and not isinstance(y, str) and y is not None:
        close(what, float(x), float(y), abs(float(y)) + 1e-9, 1e-12)
    else:
        check(x == y, "%s: %r from the file, %r from the interface", what, x, y)


def described(a, b):
    """What the two airplanes say about themselves."""
    sa, sb = a.get_wingsegments(), b.get_wingsegments()
    check(len(sa) == len(sb), "%d wing segments from the file, %d from the interface", len(sa), len(sb))
    check([s.name for s in sa] == [s.name for s in sb], "names of the wing segments")
    same("number of sections", a.get_num_sections(), b.get_num_sections())
    for x, y in zip(sa, sb):
        for m in SEGMENT:
            same("%s.%s" % (x.name, m), getattr(x, m)(), getattr(y, m)())
        for end in ("left_tip", "right_tip"):
            same("%s %s" % (x.name, end), x.get_position(end), y.get_position(end))
        for i, (p, q) in enumerate(zip(x.get_airfoils(), y.get_airfoils())):
            for m in AIRFOIL:
                same("%s airfoil %d %s" % (x.name, i, m), getattr(p, m)(), getattr(q, m)())
    for x, y in zip(a.get_props(), b.get_props()):
        for m in PROPELLER:
            same("%s.%s" % (x.name, m), getattr(x, m)(), getattr(y, m)())
        pa, pb = (dict(t) if isinstance(t, dict) else dict(enumerate(t)) for t in (x.get_airfoils(), y.get_airfoils()))
        check(len(pa) == len(pb), "%s: %d airfoils from the file, %d from the interface", x.name, len(pa), len(pb))
        for i, (p, q) in enumerate(zip(*(sorted(t.values(), key=lambda f: str(f.get_span_position())) for t in (pa, pb)))):
            for m in AIRFOIL + ("get_span_position",):
                same("%s airfoil %d %s" % (x.name, i, m), getattr(p, m)(), getattr(q, m)())


def _compare(c, rec):
    spec = c["plane"]
    if spec["wings"]:
        ref = refll.solve(spec, c["aero"], c["ctl"])
        require(refll.benign(ref))
    with gen.Scratch() as tmp:
        data = gen.to_json(spec, tmp, c["omit_main"])
        path = gen.write_json(data, tmp)
        a = MU.MachUp(path)
        plane_a = geometry.Airplane(inputfile=path)
        plane_b = gen.build(spec, tmp)
        b = MU.MachUp(inputAirplane=plane_b)
        check(json.load(open(path)) == json.loads(json.dumps(data)), "the input file was modified")
    described(plane_a, plane_b)
    close("cg", plane_a.get_cg_location(), spec["cg"], 1., 1e-14)
    check(plane_a.get_long_ref() == spec["long_ref"] and plane_a.get_lat_ref() == spec["lat_ref"], "reference lengths")
    want = {None: None, "e": "English", "s": "SI"}[spec["units"] and spec["units"][0].lower()]
    check(plane_a.get_units() == want, "units %r, expected %r", plane_a.get_units(), want)
    check(plane_a.name == spec["name"], "airplane name %r", plane_a.name)
    check([p.name for p in plane_a.get_props()] == [p["name"] for p in spec["props"]], "propellers of the file")
    ps = c["prop"] if spec["props"] else None
    if spec["wings"]:
        close("Sw", a.Sw, b.Sw, max(abs(b.Sw), 1e-9), 1e-12)
        check(a.long_ref == b.long_ref == spec["long_ref"] and a.lat_ref == b.lat_ref == spec["lat_ref"],
              "reference lengths of the model")
    ra = a.solve(dict(c["aero"]), dict(c["ctl"]), ps)
    rb = b.solve(dict(c["aero"]), dict(c["ctl"]), ps)
    fs = max(abs(rb[k]) for k in FK)
    ms = max(abs(rb[k]) for k in KEYS if k not in FK) + fs
    if spec["wings"]:
        fs, ms = fs + ref.fscale, ms + ref.mscale
    for k in KEYS:
        close(k, ra[k], rb[k], (fs if k in FK else ms) + 1e-12, 1e-9)
    da, db = a.distributions(dict(c["aero"]), dict(c["ctl"]), ps), b.distributions(dict(c["aero"]), dict(c["ctl"]), ps)
    for what, x, y in (("wing", da[0], db[0]), ("prop", da[1], db[1])):
        check(set(x) == set(y), "%s distribution keys", what)
        for k in x:
            if k == "name":
                check(list(x[k]) == list(y[k]), "%s names", what)
            else:
                close("%s %s" % (what, k), x[k], y[k], np.max(np.abs(y[k])) + 1e-9, 1e-8)
    rec.nt((spec["wings"] and fs > 0 and any(w["airfoil_root"] for w in spec["wings"])) or spec["props"])
    rec.tag("control surface", any(w["control"] for w in spec["wings"]))
    rec.tag("two airfoils", any(w["airfoil_tip"] for w in spec["wings"]))
    rec.tag("is_main omitted", c["omit_main"])


FILES = sorted(os.path.basename(f) for f in glob.glob(os.path.join(env.VERIF, "data", "*.json")))
CHANGES = {"span": (.5, 2.), "root_chord": (.5, 2.), "tip_chord": (.5, 2.), "sweep": None, "dihedral": None,
           "mounting_angle": None, "washout": None, "CL_alpha": (.8, 1.1), "CD0": (.5, 2.)}


@st.composite
def shipped(draw):
    """An input file that comes with the repository, some of its numbers changed."""
    c = {"file": draw(st.sampled_from(FILES + FILES[:2] * 8)), "aero": draw(gen.aero(small=True)), "ctl": draw(gen.controls()),
         "grid": draw(st.one_of(st.none(), st.integers(2, 12))), "change": [], "as": draw(st.sampled_from(["file", "api"])),
         "prop": draw(st.sampled_from([None, {"J": .3}, {"J": .45}, {"rot_per_sec": 40.}]))}
    for _ in range(draw(st.integers(0, 4))):
        c["change"].append([draw(st.integers(0, 5)), draw(st.sampled_from(sorted(CHANGES))), draw(st.integers(0, 8))])
    return c


def edit(data, c):
    wings = list(data.get("wings", {}).values())
    for i, key, step in c["change"]:
        w = wings[i % len(wings)]
        if key in w and CHANGES[key]:
            lo, hi = CHANGES[key]
            w[key] = round(w[key] * (lo + (hi - lo) * step / 8.), 9)
        elif key in w:
            w[key] = w[key] + step - 4
        else:
            for a in w["airfoils"].values():
                lo, hi = CHANGES[key]
                a["properties"][key] *= lo + (hi - lo) * step / 8.
    if c["grid"]:
        for w in wings:
            w["grid"] = c["grid"]
    return data


def _shipped(c, rec):
    data = edit(json.load(open(os.path.join(env.VERIF, "data", c["file"]))), c)
    spec = gen.from_json(data)
    ps = c["prop"] if spec["props"] else None
    r = refmodel.solve(spec, c["aero"], c["ctl"], ps)
    require(r.ok)
    with gen.Scratch() as tmp:
        if c["as"] == "file":
            mu = MU.MachUp(gen.write_json(data, tmp))
        else:
            mu = MU.MachUp(inputAirplane=gen.build(spec, tmp))
    got = mu.solve(dict(c["aero"]), dict(c["ctl"]), ps and dict(ps))
    for k in KEYS:
        close(k, got[k], r.total[k], r.fs if k in FK else r.ms, 1e-6)
    close("reference area", mu.Sw, r.wing.g.area_ref, abs(r.wing.g.area_ref) + 1e-9, 1e-9)
    close("reference lengths", [mu.lat_ref, mu.long_ref], [spec["lat_ref"], spec["long_ref"]], 1e-9, 1e-9)
    rec.nt(c["change"] or c["file"].startswith("Example"))
    rec.tag("example", c["file"].startswith("Example"))
    rec.tag("several wings", len(spec["wings"]) > 1)


SUBS = [Sub("wings", case(0), _compare, 3000, 40000,
            "file against API, wings only; non-trivial: some wing with a non default airfoil"),
        Sub("props", case(2), _compare, 840, 12000,
            "file against API with propellers; non-trivial: at least one propeller or airfoil", shards=8),
        Sub("shipped", shipped(), _shipped, 2400, 30000,
            "the repository's input files, numbers changed, against the reference model; non-trivial: changed, or one of the "
            "two examples", shards=8)]
