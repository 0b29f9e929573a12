"""C24: invalid requests are rejected."""
import copy
import json
import os

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ops
from vlib.runner import Sub, Violation
from vlib.util import KEYS, check, require

import machup.geometry as geometry
from machup import LLGrid, LLModel, PropsSolver
import machup.MU as MU

PROPERTY = "C24"
ASSUMPTIONS = ["rejected: an exception of any type, or, when a file is requested, an answer and a file that consist of an error entry "
               "alone",
               "an unknown rotation direction counts as the default direction, as the interface says",
               "afterwards the model answers a valid request as a fresh one does (tolerance 1e-9)"]
ANALYSES = ("solve", "distributions", "stability_derivatives", "control_derivatives", "damping_derivatives", "derivatives",
            "target_lift", "pitch_trim", "stall_onset", "stall_airspeed", "find_aero_center")
WORDS = ["", "centre", "BOTH", "up", "leftright", "Left", "none", "root", "x" * 40, "both ", "0", "ÜÄ"]


def rejected(what, fn, path=None):
    if path and os.path.exists(path):
        os.remove(path)
    try:
        r = fn()
    except Exception as e:
        return type(e).__name__
    if path and isinstance(r, dict) and set(r) == {"error"} and isinstance(r["error"], str) and r["error"]:
        with open(path) as f:
            check(json.load(f) == r, "%s: the file does not hold the error entry %r", what, r)
        return "error entry"
    raise Violation("%s is answered: %.200r" % (what, r))


@st.composite
def build_case(draw):
    n = draw(st.integers(0, 2))
    plane = draw(gen.airplane(min_wings=1, max_wings=3, max_grid=4))
    for i in range(n):
        p = draw(gen.prop("p%d" % i))
        p["airfoils"] = p["airfoils"][:2] or [dict(gen.DEFAULT_AF, key="NACA2412")]
        for a, where in zip(p["airfoils"], ("root", "tip")):
            a.pop("span_position", None)
            if len(p["airfoils"]) == 2:
                a["span_position"] = where
        plane["props"].append(p)
    kinds = ["side", "side file", "location", "location file", "parent", "parent file", "position at", "missing file",
             "missing file", "directory", "units", "wing airfoil", "wing key", "airfoil end"]
    if n:
        kinds += ["pitch type", "chord type", "pitch file", "airfoil positions", "prop airfoil", "prop key",
                  "pitch type file", "airfoil table"]
    return {"plane": plane, "kind": draw(st.sampled_from(kinds)), "which": draw(st.integers(0, 11)),
            "word": draw(st.one_of(st.sampled_from(WORDS), st.text("abcdefgh_ LR", min_size=1, max_size=8))),
            "key": draw(st.sampled_from(["alpha_L0", "CL_alpha", "CL_max", "Cm_L0", "Cm_alpha", "CD0", "CD0_L", "CD0_L2"])),
            "wkey": draw(st.sampled_from(["ID", "side", "connect", "span", "sweep", "dihedral", "mounting_angle", "washout",
                                          "root_chord", "tip_chord", "airfoils", "grid", "control"])),
            "pkey": draw(st.sampled_from(["position", "orientation", "radial_nodes", "diameter", "hub_diameter",
                                          "num_of_blades", "rotation_direction", "pitch", "chord", "airfoils"])),
            "solve": draw(st.booleans())}


def _make(plane_fn, solve):
    """The constructor must reject, or at the latest the first solution."""
    mu = plane_fn()
    mu.solve({"V_mag": 10., "rho": 1., "alpha": 2.})
    return mu


def _construct(c, rec):
    spec, kind, word = copy.deepcopy(c["plane"]), c["kind"], c["word"]
    w = spec["wings"][c["which"] % len(spec["wings"])]
    p = spec["props"][c["which"] % len(spec["props"])] if spec["props"] else None
    with gen.Scratch() as tmp:
        def by_file(change):
            def go():
                data = json.loads(json.dumps(gen.to_json(spec, tmp)))
                change(data)
                return _make(lambda: MU.MachUp(gen.write_json(data, tmp)), True)
            return go

        def by_call():
            return _make(lambda: MU.MachUp(inputAirplane=gen.build(spec, tmp)), True)
        if kind == "side":
            require(word not in ("both", "left", "right"))
            w["side"] = word
            rejected("side %r" % word, lambda: gen.build(spec, tmp))
        elif kind == "side file":
            require(word not in ("both", "left", "right"))
            rejected("side %r in a file" % word, by_file(lambda d: d["wings"][w["name"]].update(side=word)))
        elif kind == "location":
            require(word != "tip")
            plane = gen.build(spec, tmp)
            side = "left" if w["side"] == "left" else "right"

            def go():
                plane.add_wing("late", (w["name"], word), side, semispan=1., grid=3)
                return _make(lambda: MU.MachUp(inputAirplane=plane), True)
            rejected("attached at %r" % word, go)
        elif kind == "location file":
            require(word != "tip")
            children = [x for x in spec["wings"] if x["parent"]]
            require(children)
            rejected("attached at %r in a file" % word,
                     by_file(lambda d: d["wings"][children[0]["name"]]["connect"].update(location=word)))
        elif kind == "parent":
            require(word and word not in [x["name"] for x in spec["wings"]])
            rejected("attached to an unknown wing", lambda: gen.build(spec, tmp).add_wing("late", (word, "tip"), "right"))
        elif kind == "parent file":
            rejected("attached to an unknown ID", by_file(lambda d: d["wings"][w["name"]]["connect"].update(ID=999)))
        elif kind == "position at":
            require(word not in ("left_tip", "right_tip"))
            plane = geometry.Airplane("x")
            wing = plane.add_wing("w", (None, "tip"), w["side"], **gen.wing_dims(w))
            rejected("position at %r" % word, lambda: wing.get_position(word))
            for seg in plane.get_wingsegments():
                other = "right_tip" if seg.get_side() == "left" else "left_tip"
                seg.get_position("left_tip" if seg.get_side() == "left" else "right_tip")
                if word not in ("left_tip", "right_tip"):
                    rejected("position of a segment at %r" % word, lambda: seg.get_position(word))
                rec.tag("other tip " + other)
        elif kind == "missing file":
            path = os.path.join(tmp, "not there.json")
            for what, go in (("Airplane", lambda: geometry.Airplane(inputfile=path)), ("MachUp", lambda: MU.MachUp(path))):
                e = rejected("%s of a missing file" % what, go)
                check(e in ("OSError", "IOError", "FileNotFoundError"), "%s of a missing file raises %s", what, e)
                check(not os.path.exists(path), "the missing file was created")
        elif kind == "directory":
            e = rejected("a directory as file", lambda: MU.MachUp(tmp))
            check(e in ("OSError", "IOError", "IsADirectoryError"), "a directory raises %s", e)
        elif kind == "units":
            require(word not in ("English", "english", "SI", "si", "Si"))
            rejected("units %r" % word, by_file(lambda d: d["condition"].update(units=word)))
        elif kind == "wing airfoil":
            def go(d):
                afs = d["wings"][w["name"]]["airfoils"]
                afs[list(afs)[c["which"] % len(afs)]]["properties"].pop(c["key"])
            if c["solve"]:
                rejected("wing airfoil without %s in a file" % c["key"], by_file(go))
            else:
                kw = gen.af_kwargs(gen.DEFAULT_AF)
                kw.pop(c["key"])
                wing = geometry.Airplane("x").add_wing("w", (None, "tip"), w["side"])
                rejected("wing airfoil without %s" % c["key"], lambda: wing.airfoil("a", "both", **kw))
        elif kind == "airfoil end":
            require(word not in ("both", "root", "tip"))
            plane = gen.build(spec, tmp)
            seg = [x for x in plane.get_wingsegments() if x.name.endswith("_" + w["name"])][0]
            before = seg.get_airfoils()

            def go():
                late = geometry.Airplane("x").add_wing("w", (None, "tip"), w["side"], **gen.wing_dims(w))
                late.airfoil("late", word, **gen.af_kwargs(gen.DEFAULT_AF))
            rejected("wing airfoil at %r" % word, go)
            rejected("segment airfoil at %r" % word, lambda: seg.airfoil(word, geometry.Airfoil()))
            check(seg.get_airfoils() == before, "the rejected airfoil is used")
        elif kind == "wing key":
            rejected("wing without %s in a file" % c["wkey"], by_file(lambda d: d["wings"][w["name"]].pop(c["wkey"])))
        elif kind == "pitch type":
            require(word not in ("default", "ratio", "value", "from_file"))
            p["pitch"]["type"] = word
            rejected("pitch type %r" % word, by_call)
        elif kind == "chord type":
            require(word not in ("default", "linear", "elliptical", "from_file"))
            p["chord"]["type"] = word
            rejected("chord type %r" % word, by_call)
        elif kind == "pitch type file":
            require(word not in ("default", "ratio", "value", "from_file"))
            which = "pitch" if c["solve"] else "chord"
            require(word not in ("linear", "elliptical"))
            rejected("%s type %r in a file" % (which, word), by_file(lambda d: d["propellers"][p["name"]][which].update(type=word)))
        elif kind in ("pitch file", "airfoil table"):
            p["pitch" if c["solve"] else "chord"] = {"type": "from_file", "filename": os.path.join(tmp, "no table.txt")}
            rejected("missing table", by_call)
        elif kind == "airfoil positions":
            n = 2 + c["which"] % 3
            lacking = [i for i in range(n) if i == c["which"] // 3 % n or (c["solve"] and i < 2)]
            p["airfoils"] = []
            for i, where in enumerate(["root", "tip", .5, .75][:n] if c["which"] % 2 else [0.3, .6, "tip", "root"][:n]):
                p["airfoils"].append(dict(gen.DEFAULT_AF, key="NACA%d412" % i, span_position=where))
            for i in lacking:
                p["airfoils"][i].pop("span_position")
            rejected("several blade airfoils, one without a position", by_call)
        elif kind == "prop airfoil":
            def go(d):
                afs = d["propellers"][p["name"]]["airfoils"]
                afs[list(afs)[c["which"] % len(afs)]]["properties"].pop(c["key"])
            rejected("blade airfoil without %s in a file" % c["key"], by_file(go))
        elif kind == "prop key":
            rejected("propeller without %s in a file" % c["pkey"], by_file(lambda d: d["propellers"][p["name"]].pop(c["pkey"])))
        # the valid description is accepted
        for mu in (MU.MachUp(inputAirplane=gen.build(c["plane"], tmp)),
                   MU.MachUp(gen.write_json(gen.to_json(c["plane"], tmp), tmp))):
            r = mu.solve({"V_mag": 10., "rho": 1., "alpha": 2.})
            check(set(r) == set(KEYS), "valid airplane: %s", sorted(r))
    rec.nt(True)
    rec.tag(kind)


@st.composite
def request_case(draw):
    kind = draw(st.sampled_from(["no rho", "no V_mag", "no rho", "no V_mag", "LLModel flow", "PropsSolver flow", "solver type",
                                 "local state", "prop state", "prop state", "zero J", "still J", "throttle", "motor units",
                                 "wingless", "wingless", "no elevator", "no lift", "power", "no stall"]))
    wingless = kind in ("wingless",)
    prop = kind in ("prop state", "zero J", "still J", "throttle", "motor units", "PropsSolver flow", "wingless", "power")
    plane = draw(ops.model(motors=False, max_wings=2, max_props=2, min_wings=0 if prop else 1))
    if prop and not plane["props"]:
        p = draw(gen.prop("p9"))
        p["airfoils"] = [dict(gen.DEFAULT_AF, key="NACA2412")]
        plane["props"].append(p)
    if wingless:
        plane["wings"] = []
    if kind in ("no stall", "no lift"):
        plane["props"] = []
    if kind == "no elevator":
        for w in plane["wings"]:
            if w["control"]:
                w["control"]["mix"].pop("elevator", None)
    if kind == "motor units":
        plane["units"] = None
        plane["props"][0]["motor"] = draw(gen.motor())
        plane["as_file"] = draw(st.booleans())
        for p in plane["props"]:
            p["airfoils"] = [dict(gen.DEFAULT_AF, key="NACA2412")]
    names = list(ANALYSES)
    if kind == "no V_mag":
        names.remove("solve")
        names += ["solve"] * 4
    if not plane["wings"]:
        names = ["solve", "distributions", "target_lift", "stall_onset", "stall_airspeed", "derivatives"] if kind != "wingless" else \
            ["stall_onset", "stall_airspeed", "derivatives"]
    return {"plane": plane, "kind": kind, "analysis": draw(st.sampled_from(names)), "aero": draw(gen.aero(small=True)),
            "ctl": draw(gen.controls(big=False)), "J": draw(gen.num(.2, .8, .05)), "file": draw(st.booleans()),
            "word": draw(st.sampled_from(["speed", "rpm", "j", "throttle", "power", "Rot_per_sec", "RPS"])),
            "named": draw(st.booleans()), "which": draw(st.integers(0, 5)), "size": draw(gen.num(1, 500, 1)),
            "stype": draw(st.sampled_from(["nonlinear", "", "Linear", "LINEAR", "vortex", "linear ", None, 1]))}


def _call(mu, c, aero, ctl, ps, path):
    kw = dict(aero_state=aero, control_state=ctl, prop_state=ps)
    n = c["analysis"]
    if n in ("stability_derivatives", "control_derivatives", "damping_derivatives"):
        return getattr(mu, n)(**kw)
    if n == "target_lift":
        return mu.target_lift(c["size"], filename=path, **kw)
    if n == "pitch_trim":
        return mu.pitch_trim(c["size"], c["size"], filename=path, **kw)
    if n == "stall_airspeed":
        return mu.stall_airspeed(c["size"], filename=path, **kw)
    return getattr(mu, n)(filename=path, **kw)


def _request(c, rec):
    spec, kind = c["plane"], c["kind"]
    aero, ctl, ps = dict(c["aero"]), dict(c["ctl"]), {"J": c["J"]}
    valid = (dict(aero), dict(ctl), dict(ps))
    with gen.Scratch() as tmp:
        path = os.path.join(tmp, "out.json") if c["file"] else None
        mu = ops.build(spec, tmp)
        p = spec["props"][c["which"] % len(spec["props"])] if spec["props"] else None

        def reject(what, **state):
            a, k, s = state.get("aero", aero), state.get("ctl", ctl), state.get("ps", ps)
            e = rejected("%s: %s" % (c["analysis"], what), lambda: _call(mu, c, a, k, s, path), path)
            rec.tag("%s, %s" % (kind, "error entry" if e == "error entry" else "raised"))

        def for_one(bad):
            """The bad state for one propeller, or for all of them."""
            if c["named"]:
                return dict({q["name"]: dict(ps) for q in spec["props"]}, **{p["name"]: bad})
            return bad
        if kind in ("no rho", "no V_mag"):
            key = kind[3:]
            aero.pop(key)
            reject("flow without %s" % key)
        elif kind == "LLModel flow":
            key = ("rho", "V_mag")[c["which"] % 2]
            aero.pop(key)
            m = LLModel(gen.build(dict(spec, props=[]), tmp))
            rejected("LLModel: flow without %s" % key, lambda: m.solve("linear", aero, ctl))
        elif kind == "PropsSolver flow":
            key = ("rho", "V_mag")[c["which"] % 2]
            aero.pop(key)
            pts = np.zeros((2, 3)) if c["named"] else None
            m = PropsSolver(gen.build(dict(spec, wings=[]), tmp), pts)
            rejected("PropsSolver: flow without %s" % key, lambda: m.solve(aero, ps))
        elif kind == "solver type":
            m = LLModel(gen.build(dict(spec, props=[]), tmp))
            rejected("solver type %r" % (c["stype"],), lambda: m.solve(c["stype"], aero, ctl))
            a, b = m.solve("linear", aero, ctl), LLModel(gen.build(dict(spec, props=[]), tmp)).solve("linear", aero, ctl)
            ops.same("LLModel after the failure", a, b, 1e-9)
        elif kind == "local state":
            plane = gen.build(dict(spec, props=[]), tmp)
            n = len(LLGrid(plane).get_control_point_pos())
            local = np.tile([aero["rho"], -aero["V_mag"], 0., 0.], (n, 1))
            m = LLModel(plane)
            bad = [local[:, 1:], local[:, :3], np.tile(local, (2, 1)), local[:-1] if n > 2 else local[:, 1:]][c["which"] % 4]
            rejected("local state of shape %s for %d sections" % (bad.shape, n),
                     lambda: m.solve("linear", {"local_state": bad}, ctl))
            a = m.solve("linear", {"local_state": local}, ctl)
            b = LLModel(plane).solve("linear", {"local_state": local.copy()}, ctl)
            ops.same("LLModel after the failure", a, b, 1e-9)
        elif kind == "prop state":
            bad = {c["word"]: 10.}
            reject("propeller state %r" % bad, ps=for_one(bad))
            if len(spec["props"]) > 1:
                part = {p["name"]: {"J": .5}}
                reject("propeller state of one of two propellers", ps=part)
        elif kind == "zero J":
            reject("zero advance ratio without a rate", ps=for_one({"J": 0.}))
        elif kind == "still J":
            aero["V_mag"] = 0.
            c["analysis"] = "solve" if c["analysis"] == "stall_airspeed" else c["analysis"]
            reject("still air and an advance ratio without a rate", ps=for_one({"J": .5}))
        elif kind == "throttle":
            reject("throttle without a motor", ps=for_one({"electric_throttle": .5}))
        elif kind == "motor units":
            p = spec["props"][0]
            reject("motor without units", ps=for_one({"electric_throttle": .5}))
        elif kind == "power":
            # more drag than any rotation overcomes: a blade that windmills or is driven at any rate absorbs less
            reject("a rate that absorbs a power that is not a number", ps=for_one({"brake_power": float("nan")}))
        elif kind == "wingless":
            reject("without wings")
        elif kind == "no elevator":
            c["analysis"] = "pitch_trim"
            at = mu.solve(dict(aero), dict(ctl), dict(ps))
            L = at["FL"] + (abs(at["FL"]) + c["size"]) * .1
            m = at["MY"] + (abs(at["MY"]) + c["size"]) * .1
            rejected("trim without an elevator", lambda: mu.pitch_trim(L, m, aero, ctl, ps, path), path)
        elif kind == "no lift":
            g = sum((w["root_chord"] + w["tip_chord"]) * w["semispan"] for w in spec["wings"])
            L = 1e6 * aero["rho"] * aero["V_mag"] ** 2 * g * (1. if c["which"] % 2 else -1.)
            rejected("impossible lift", lambda: mu.target_lift(L, aero, ctl, None, path), path)
        elif kind == "no stall":
            for w in spec["wings"]:
                for k in ("airfoil_root", "airfoil_tip"):
                    w[k] = dict(w[k] or gen.DEFAULT_AF, CL_max=1e6)
            mu = ops.build(spec, tmp)
            c["analysis"] = ("stall_onset", "stall_airspeed")[c["which"] % 2]
            reject("an airplane that cannot stall")
        # and the model still works
        if kind not in ("LLModel flow", "PropsSolver flow", "solver type", "local state"):
            got = mu.solve(*copy.deepcopy(valid))
            want = ops.build(spec, tmp).solve(*copy.deepcopy(valid))
            ops.same("solve after %s" % kind, got, want, 1e-9)
    rec.nt(True)
    rec.tag(kind)


SUBS = [Sub("construct", build_case(), _construct, 1500, 15000,
            "invalid descriptions by interface and file; non-trivial: all cases", shards=16),
        Sub("request", request_case(), _request, 1800, 20000,
            "invalid requests of every analysis; non-trivial: all cases", shards=16)]
