"""C23: omitted states, entries and dimensions mean their documented defaults."""
import copy

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ops, refll
from vlib.runner import Sub
from vlib.util import KEYS, check, close, forces_close, require

import machup.geometry as geometry
from machup import LLModel, PropsSolver
import machup.MU as MU

PROPERTY = "C23"
ASSUMPTIONS = ["defaults: zero angles, rates and deflections, speed 10, density 0.0023769 (1 for LLModel.solve alone), advance ratio "
               "0.5; wings: both sides, position and offset 0, semispan 4, chord 1, tip chord as the root chord, no sweep, dihedral, "
               "mounting angle or washout, 40 sections, counted in the reference area, NACA 2412; control surfaces sealed; "
               "propellers: at the origin, pointing forward, 100 nodes, diameter 1, hub of a tenth of it, two blades, "
               "counterclockwise, pitch of half the diameter, elliptical chord of 0.075 diameters, NACA 2412",
               "both requests answer or both fail in the same way; tolerance 1e-9 of the largest number beside, 1e-6 for analyses "
               "that search"]
OPTIONAL = ("alpha", "beta", "roll_rate", "pitch_rate", "yaw_rate")
CONTROLS = ("aileron", "elevator", "rudder", "flap")


@st.composite
def state_case(draw, direct=False):
    kind = "solve" if direct else draw(st.sampled_from(["solve", "distributions", "stability_derivatives", "control_derivatives",
                                 "damping_derivatives", "derivatives", "target_lift", "pitch_trim", "stall_onset",
                                 "stall_airspeed", "find_aero_center", "solve", "solve"]))
    if kind in ops.HEAVY and draw(st.booleans()):
        kind = "pitch_trim"
    alone = kind == "stall_airspeed" or (kind == "find_aero_center" and draw(st.integers(0, 3)) > 0)
    plane = draw(ops.model(motors=False, max_props=0 if alone else 2, max_grid=2 if kind in ops.HEAVY else 3, min_wings=0 if kind in ("solve", "distributions") else 1))
    if kind == "stall_airspeed":        # (the search takes long where nothing lifts)
        for w in plane["wings"]:
            w["dihedral"] = max(-30., min(30., w["dihedral"]))
    if kind == "pitch_trim" and draw(st.integers(0, 5)) > 0:
        w = plane["wings"][-1]
        w["control"] = dict(draw(gen.control()), mix={"elevator": 1.})
        w["pos"][0] = -6.
    o = draw(ops.op(plane, 1, kinds=[kind]))
    o["omit"], o["file"], o["state"] = [], False, 0
    slow = o["op"] in ops.HEAVY + ("stall_onset", "pitch_trim", "target_lift")
    aero = draw(gen.aero(rates=not slow, small=slow))
    whole = {k: draw(st.integers(0, 2)) == 0 for k in ("aero", "ctl", "prop")}
    if whole["aero"]:
        aero = {"V_mag": 10., "rho": .0023769}
    full = {k: aero.get(k, 0.) for k in OPTIONAL}
    for k in OPTIONAL:
        if draw(st.booleans()):
            full[k] = 0.
    if whole["aero"]:
        full = dict.fromkeys(OPTIONAL, 0.)
    full.update(V_mag=aero["V_mag"], rho=aero["rho"])
    ctl = draw(gen.controls())
    full_ctl = {k: 0. if whole["ctl"] else ctl.get(k, 0.) for k in CONTROLS}
    ps = {"J": .5}
    if not whole["prop"]:
        ps = draw(st.sampled_from([{"J": .5}, {"J": .5}, {"J": .4}]))
    named = bool(plane["props"]) and draw(st.booleans())
    return {"plane": plane, "op": o, "aero": full, "ctl": full_ctl, "ps": ps, "named": named, "whole": whole,
            "keep": [draw(st.booleans()) for _ in range(9)], "empty": draw(st.booleans()),
            "solver": draw(st.sampled_from(["LLModel", "PropsSolver"])) if direct else "MachUp"}


def _states(c, rec):
    spec, o, whole = c["plane"], c["op"], c["whole"]
    keep = c["keep"]
    full = [c["aero"], c["ctl"], {p["name"]: c["ps"] for p in spec["props"]} if c["named"] else c["ps"]]
    aero = {k: v for (k, v), kp in zip(c["aero"].items(), keep) if v != 0. or kp or k in ("V_mag", "rho")}
    ctl = {k: v for (k, v), kp in zip(c["ctl"].items(), keep[5:]) if v != 0. or kp}
    ps = full[2]
    none = {} if c["empty"] else None
    less = [none if whole["aero"] else aero, none if whole["ctl"] else ctl, none if whole["prop"] else ps]
    if whole["ctl"] and not c["empty"]:
        less[1] = None
    rtol = 1e-9
    if o["op"] in ("target_lift", "pitch_trim", "stall_onset", "stall_airspeed", "find_aero_center"):
        rtol = 1e-6
    with gen.Scratch() as tmp:
        if c["solver"] == "LLModel" and spec["wings"]:
            plane = gen.build(dict(spec, props=[]), tmp)
            a = dict(full[0])
            if whole["aero"]:
                a["rho"] = 1.
            got = LLModel(plane).solve("linear", less[0], less[1])
            want = LLModel(plane).solve("linear", a, full[1])
            ops.same("LLModel.solve with %r" % (less[:2],), got, want, 1e-9)
            rec.tag("LLModel")
        elif c["solver"] == "PropsSolver" and spec["props"]:
            plane = gen.build(dict(spec, wings=[]), tmp)
            pts = np.array([[-1., .1, .2], [2., 0., 1.]])
            got = PropsSolver(plane, pts).solve(less[0], less[2])
            want = PropsSolver(plane, pts).solve(full[0], full[2])
            ops.same("PropsSolver.solve with %r" % (less[::2],), got[0], want[0], 1e-9)
            ops.same("PropsSolver velocity with %r" % (less[::2],), got[1], want[1], 1e-9)
            rec.tag("PropsSolver")
        else:
            if o["op"] in ("target_lift", "pitch_trim"):      # attainable
                at = ops.build(spec, tmp).solve(dict(full[0], alpha=2.), dict(full[1], elevator=2.), copy.deepcopy(full[2]))
                o["L"], o["m"] = at["FL"], at["MY"]
            got, _ = ops.apply(ops.build(spec, tmp), o, copy.deepcopy(less), tmp)
            want, _ = ops.apply(ops.build(spec, tmp), o, copy.deepcopy(full), tmp)
            check(got[0] == want[0], "%s with states %r %s, with the defaults spelled out it %s", o["op"], less,
                  got, want)
            if want[0] == "raised":
                require(got[1] == want[1])
                rec.tag("both raise")
                return
            ops.same("%s with states %r" % (o["op"], less), got[1], want[1], rtol)
            rec.tag(o["op"])
    rec.nt(less != full)
    for k, v in whole.items():
        rec.tag("no %s state" % k, v)


@st.composite
def build_case(draw):
    def some(options):
        """Which of the optional arguments are left out."""
        return draw(st.lists(st.sampled_from(options), max_size=len(options), unique=True))
    wings = []
    for i in range(draw(st.integers(0, 2))):
        w = draw(gen.wing("w%d" % i, max_grid=4))
        w["omit"] = some(["position", "is_main", "yoffset", "semispan", "sweep", "dihedral", "mount_angle", "washout",
                          "root_chord", "tip_chord", "side", "airfoil", "connect_to"])
        if draw(st.integers(0, 5)) == 0:
            w["omit"].append("grid")
        w["comit"] = some(["sealed", "chord pair", "mix"])
        wings.append(w)
    props = []
    for i in range(draw(st.integers(0 if wings else 1, 2))):
        p = draw(gen.prop("p%d" % i))
        p["omit"] = some(["position", "orientation", "nodes", "diameter", "hub_diameter", "num_of_blades", "rot_dir",
                          "pitch_info", "chord_info", "electric_motor", "airfoil"])
        props.append(p)
    return {"wings": wings, "props": props, "cg": [draw(gen.num(-1, 1, .1)) for _ in range(3)],
            "no_cg": draw(st.booleans()), "aero": draw(gen.aero()), "ctl": draw(gen.controls())}


WING = {"position": [0., 0., 0.], "is_main": 1, "yoffset": 0., "semispan": 4., "sweep": 0., "dihedral": 0., "mount_angle": 0.,
        "washout": 0., "root_chord": 1., "grid": 40}


def _plane(c, less):
    plane = geometry.Airplane() if less else geometry.Airplane("", None, None)
    if not c["no_cg"]:
        plane.cg_location(*c["cg"])
    elif not less:
        plane.cg_location(0., 0., 0.)
    plane.set_reference_lengths(4., 1.)
    for w in c["wings"]:
        om, dims = w["omit"], gen.wing_dims(w)
        for k in om:
            if k in WING:
                if less:
                    dims.pop(k)
                else:
                    dims[k] = WING[k]
        if "tip_chord" in om:
            if less:
                dims.pop("tip_chord")
            else:
                dims["tip_chord"] = dims["root_chord"]
        side = "both" if "side" in om else w["side"]
        args = {} if less and "side" in om else {"side": side}
        if not (less and "connect_to" in om):
            args["connect_to"] = (None, "tip")
        obj = plane.add_wing(w["name"], **args, **dims)
        root, tip = w["airfoil_root"], w["airfoil_tip"]
        if "airfoil" in om:
            root, tip = gen.DEFAULT_AF, None
        if root and not (less and "airfoil" in om):
            if tip:
                obj.airfoil(root["name"], "root", **gen.af_kwargs(root))
                obj.airfoil(tip["name"], "tip", **gen.af_kwargs(tip))
            elif less:
                obj.airfoil(root["name"], **gen.af_kwargs(root))       # end="both"
            else:
                obj.airfoil(root["name"], "both", **gen.af_kwargs(root))
        k, co = w["control"], w["comit"]
        if k:
            cr = k["chord"][0]
            kw = {"percent_span": tuple(k["span"]), "mix": dict(k["mix"]), "sealed": k["sealed"],
                  "percent_chord": tuple(k["chord"])}
            if "chord pair" in co:
                kw["percent_chord"] = cr if less else (cr, cr)
            if "sealed" in co:
                kw["sealed"] = 1
                if less:
                    kw.pop("sealed")
            if "mix" in co and not less:
                kw["mix"] = {n: k["mix"].get(n, 0.) for n in CONTROLS}
            obj.control_surface(**kw)
    for p in c["props"]:
        om = p["omit"]
        d = 1. if "diameter" in om else p["diameter"]
        # definitions that hold lengths are rescaled with the diameter
        pitch, chord = dict(p["pitch"]), dict(p["chord"])
        if "value" in pitch and pitch["type"] == "value":
            pitch["value"] *= d / p["diameter"]
        for n in ("root", "tip"):
            if n in chord:
                chord[n] *= d / p["diameter"]
        if not less:
            pitch.setdefault("pitch_increment", 0.)
            if pitch["type"] == "default":
                pitch.update(type="ratio", value=.5)
            if chord["type"] == "default":
                chord = {"type": "elliptical", "root": .075 * d}
            if chord["type"] == "linear":
                chord.setdefault("tip", chord["root"])
        dims = {"position": p["pos"], "orientation": p["orient"], "nodes": p["nodes"], "diameter": d,
                "hub_diameter": p["hub"] * d / p["diameter"], "num_of_blades": p["blades"], "rot_dir": p["rot_dir"],
                "pitch_info": pitch, "chord_info": chord, "electric_motor": {}}
        default = {"position": [0., 0., 0.], "orientation": [0., 0.], "nodes": 100, "diameter": 1., "hub_diameter": .1 * d,
                   "num_of_blades": 2, "rot_dir": "CCW", "pitch_info": {"type": "value", "value": .5 * d},
                   "chord_info": {"type": "elliptical", "root": .075 * d}, "electric_motor": {"has_motor": False}}
        for k in om:
            if k in default:
                if less:
                    dims.pop(k)
                else:
                    dims[k] = default[k]
        obj = plane.add_prop(p["name"], **dims)
        afs = p["airfoils"]
        if "airfoil" in om or not afs:
            if less:
                continue
            afs = [dict(gen.DEFAULT_AF, key="NACA2412")]
        for a in afs:
            kw = gen.af_kwargs(a)
            if "span_position" in a:
                kw["span_position"] = a["span_position"]
            obj.airfoil(a["key"], **kw)
    return plane


def _builders(c, rec):
    a, b = _plane(c, True), _plane(c, False)
    ma, mb = MU.MachUp(inputAirplane=a), MU.MachUp(inputAirplane=b)
    aero, ctl = dict(c["aero"]), dict(c["ctl"])
    ra, rb = ma.solve(dict(aero), ctl), mb.solve(dict(aero), ctl)
    require(all(np.isfinite(rb[k]) for k in KEYS))
    fs = sum(abs(rb[k]) for k in KEYS[:6]) + 1e-300
    ms = fs * 10. + sum(abs(rb[k]) for k in KEYS[6:])
    if c["wings"]:
        # a wing whose geometry is degenerate amplifies round-off
        d0 = mb.distributions(dict(aero), ctl)[0]
        require(np.all(np.abs(d0["section_CL"]) < 20.))
        fs += np.sum(np.abs(d0["section_CL"]) * d0["area"]) * aero["rho"] * aero["V_mag"] ** 2
        ms += fs * 10.
    forces_close("left out", ra, rb, fs, ms, 1e-8)
    da, db = ma.distributions(dict(aero), ctl), mb.distributions(dict(aero), ctl)
    for x, y, what in zip(da, db, ("wings", "propellers")):
        check((x is None) == (y is None), "distributions of %s", what)
        if x is not None:
            ops.same("distributions of %s" % what, x, y, 1e-7)
    if c["wings"]:
        close("reference area", ma.Sw, mb.Sw, mb.Sw, 1e-12)
    rec.nt(any(w["omit"] for w in c["wings"]) or any(p["omit"] for p in c["props"]))
    for n in set(sum([w["omit"] for w in c["wings"]], [])):
        rec.tag("wing without %s" % n)
    for n in set(sum([p["omit"] for p in c["props"]], [])):
        rec.tag("propeller without %s" % n)


@st.composite
def length_case(draw):
    plane = draw(gen.airplane(max_wings=3, max_grid=4))
    return {"plane": plane, "given": draw(st.sampled_from(["lateral", "longitudinal", "none"])),
            "call": draw(st.booleans()), "aero": draw(gen.aero()), "ctl": draw(gen.controls()), "file": draw(st.booleans()),
            "what": draw(st.sampled_from(["stability_derivatives", "control_derivatives", "damping_derivatives",
                                          "distributions"]))}


def _lengths(c, rec):
    spec, given = c["plane"], c["given"]
    g = refll.grid(spec)
    lat, lon = spec["lat_ref"], spec["long_ref"]
    if given == "none":
        lat = 2. * max(w["semispan"] for w in spec["wings"])
        lon = g.area_ref / lat
    elif given == "lateral":
        lon = g.area_ref / lat
    else:
        lat = g.area_ref / lon
    r = refll.solve(spec, c["aero"], c["ctl"], g=g)
    require(refll.benign(r))
    with gen.Scratch() as tmp:
        if c["file"]:
            data = gen.to_json(spec, tmp)
            data["reference"]["lateral_length"] = spec["lat_ref"] if given == "lateral" else None
            data["reference"]["longitudinal_length"] = spec["long_ref"] if given == "longitudinal" else None
            mu = MU.MachUp(gen.write_json(data, tmp))
        else:
            plane = gen.build(spec, tmp)
            if c["call"] and given == "none":
                plane.set_reference_lengths()
            else:
                plane.set_reference_lengths(spec["lat_ref"] if given == "lateral" else None,
                                            spec["long_ref"] if given == "longitudinal" else None)
            mu = MU.MachUp(inputAirplane=plane)
        other = MU.MachUp(inputAirplane=gen.build(dict(spec, lat_ref=lat, long_ref=lon), tmp))
    if c["what"] == "distributions":
        ops.same("distributions", mu.distributions(dict(c["aero"]), c["ctl"])[0], other.distributions(dict(c["aero"]), c["ctl"])[0],
                 1e-8)
    else:
        a = getattr(mu, c["what"])(dict(c["aero"]), dict(c["ctl"]))
        b = getattr(other, c["what"])(dict(c["aero"]), dict(c["ctl"]))
        scale = 1. + max(abs(v) for v in b.values())
        for k in b:
            close("%s with %s length given" % (k, given), a[k], b[k], scale, 1e-6)
    rec.nt(True)
    rec.tag("given: %s" % given)


SUBS = [Sub("states", state_case(), _states, 480, 25000,
            "every analysis with states or entries left out and spelled out; non-trivial: something is left out", shards=16),
        Sub("direct", state_case(True), _states, 240, 10000,
            "the same for LLModel.solve and PropsSolver.solve used directly", shards=8),
        Sub("builders", build_case(), _builders, 400, 16000,
            "wings, control surfaces and propellers with arguments left out and spelled out; non-trivial: something is left out",
            shards=16),
        Sub("lengths", length_case(), _lengths, 250, 8000,
            "reference lengths left out; non-trivial: all cases", shards=8)]
