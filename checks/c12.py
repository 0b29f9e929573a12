"""C12: arguments are not altered and results belong to the caller."""
import copy

import numpy as np
from hypothesis import strategies as st

from checks.c03 import AIRFOIL, PROPELLER, SEGMENT
from vlib import gen, ops
from vlib.runner import Sub, Violation
from vlib.util import check

from machup import LLGrid, LLModel, PropsSolver
import machup.geometry as geometry

PROPERTY = "C12"
ASSUMPTIONS = ["arguments and earlier results are compared exactly"]


def _exact(what, a, b):
    ops.same(what, a, b, 0.)


def _spoil(x):
    """Overwrites everything in a returned result."""
    if isinstance(x, dict):
        for k in list(x):
            _spoil(x[k])
            x[k] = -12345.
    elif isinstance(x, (list, tuple)):
        for v in x:
            _spoil(v)
    elif isinstance(x, np.ndarray) and x.dtype.kind == "f":
        x[...] = -12345.


@st.composite
def case(draw):
    c = draw(ops.history(min_ops=2, max_ops=5))
    c["spoil"] = draw(st.booleans())
    return c


def _history(c, rec):
    states = c["states"]          # shared by all the calls, as a user script does
    keep, results = copy.deepcopy(states), []
    with gen.Scratch() as tmp:
        mu = ops.build(c["plane"], tmp)
        for i, o in enumerate(c["ops"]):
            got, _ = ops.apply(mu, o, states[o["state"]], tmp)
            what = "%s(%s)" % (o["op"], ", ".join(n for j, n in enumerate(("aero", "control", "prop")) if j not in o["omit"]))
            _exact("arguments of %s, which %s: states" % (what, got[0]), states, keep)
            for n, r, s in results:
                _exact("result of earlier %s after %s" % (n, what), r, s)
            if c["spoil"]:
                fresh, _ = ops.apply(ops.build(c["plane"], tmp), o, copy.deepcopy(keep[o["state"]]), tmp)
                ops.same("%s after altering earlier results" % what, got, fresh, 1e-9)
                _spoil(got[1])
            else:
                results.append((what, got[1], copy.deepcopy(got[1])))
            rec.tag(o["op"])
            rec.tag("a call raised", got[0] == "raised")
    rec.nt(len(c["ops"]) >= 2 and any(not o["omit"] for o in c["ops"]))


@st.composite
def solver_case(draw):
    plane = draw(ops.model(motors=False))
    plane["as_file"] = False
    return {"plane": plane, "calls": [draw(ops.states(plane)) + [draw(st.sampled_from(["", "", "local", "bad", "type"]))]
                                      for _ in range(draw(st.integers(2, 5)))]}


def _solvers(c, rec):
    spec = c["plane"]
    with gen.Scratch() as tmp:
        plane = gen.build(spec, tmp)
        grid_pts = pts = None
        solvers = []
        if spec["wings"]:
            pts = np.array(LLGrid(plane).get_control_point_pos())
            grid_pts = pts.copy()
            solvers.append(LLModel(plane))
        if spec["props"]:
            solvers.append(PropsSolver(plane, pts))
        kept = []
        for i, (a, ctl, ps, how) in enumerate(c["calls"]):
            for s in solvers:
                wing = isinstance(s, LLModel)
                a2 = a
                if how == "bad" and a:
                    a2 = {k: v for k, v in a.items() if k != "rho"}
                if how == "local" and wing and a:
                    local = np.empty((len(pts), 4))
                    local[:, 0], local[:, 1:] = a["rho"], [-a["V_mag"], 0.1, 0.2]
                    a2 = dict(a, local_state=local)
                args = [a2, ctl if wing else ps]
                before = copy.deepcopy(args)
                try:
                    r = s.solve("nonlinear" if how == "type" else "linear", *args) if wing else s.solve(*args)
                except Exception:
                    r = None
                _exact("arguments of %s.solve (%s)" % (type(s).__name__, how), args, before)
                for n, x, y in kept:
                    _exact("result of call %d after call %d" % (n, i), x, y)
                kept.append((i, r, copy.deepcopy(r)))
                if pts is not None:
                    _exact("wing points given to PropsSolver", pts, grid_pts)
    rec.nt(len(kept) >= 2)
    rec.tag("props", bool(spec["props"]))


@st.composite
def geometry_case(draw):
    c = draw(ops.history(min_ops=1, max_ops=2, motors=False))
    c["forms"] = draw(st.lists(st.integers(0, 2), min_size=1, max_size=5))
    return c


def _geometry(c, rec):
    """Everything handed to the builders, sequences as lists, tuples or arrays."""
    given, count = [], [0]

    def own(x):
        given.append((x, copy.deepcopy(x)))
        return x

    def seq(v):
        count[0] += 1
        return own((list, tuple, lambda t: np.array(t, float))[c["forms"][count[0] % len(c["forms"])]](v))
    with gen.Scratch() as tmp:
        spec = c["plane"]
        plane = geometry.Airplane("p", seq(spec["position"] or [1., 2., 3.]))
        plane.cg_location(*spec["cg"])
        for w in spec["wings"]:
            dims = own(dict(gen.wing_dims(w), position=seq(w["pos"])))
            wing = plane.add_wing(w["name"], own((w["parent"], "tip")), w["side"], **dims)
            if w["airfoil_root"]:
                wing.airfoil("a", "root", **own(gen.af_kwargs(w["airfoil_root"])))
            if w["control"]:
                wing.control_surface(**own(dict(percent_span=list(w["control"]["span"]),
                                                percent_chord=list(w["control"]["chord"]),
                                                mix=dict(w["control"]["mix"]), sealed=w["control"]["sealed"])))
        for p in spec["props"]:
            po = plane.add_prop(p["name"], **own(dict(
                position=seq(p["pos"]), orientation=seq(p["orient"]), nodes=p["nodes"], diameter=p["diameter"],
                hub_diameter=p["hub"], num_of_blades=p["blades"], rot_dir=p["rot_dir"],
                pitch_info=gen.prop_info(p["pitch"], tmp), chord_info=gen.prop_info(p["chord"], tmp),
                electric_motor={})))
            for a in p["airfoils"]:
                po.airfoil(a["key"], **own(dict(gen.af_kwargs(a), **({"span_position": a["span_position"]}
                                                                     if "span_position" in a else {}))))
        import machup.MU as MU
        told = _told(plane)
        mu = MU.MachUp(inputAirplane=plane)
        for o in c["ops"]:
            ops.apply(mu, o, c["states"][o["state"]], tmp)
            for x, y in given:
                _exact("geometry input after %s" % o["op"], x, y)
            _exact("what the airplane says about itself after %s" % o["op"], _told(plane), told)
    rec.nt(len(given) >= 3)
    rec.tag("arrays", 2 in c["forms"] and count[0] > 2)


def _told(plane):
    out = {"cg": plane.get_cg_location(), "refs": [plane.get_long_ref(), plane.get_lat_ref()], "units": plane.get_units(),
           "n": plane.get_num_sections()}
    for s in plane.get_wingsegments():
        out[s.name] = [getattr(s, m)() for m in SEGMENT] + [s.get_position("left_tip"), s.get_position("right_tip")]
        out[s.name] += [getattr(a, m)() for a in s.get_airfoils() for m in AIRFOIL]
    for p in plane.get_props():
        out["propeller " + p.name] = [getattr(p, m)() for m in PROPELLER + ("get_motor_info",)]
    return copy.deepcopy(out)


SUBS = [Sub("history", case(), _history, 360, 16000,
            "shared state dictionaries and kept (or spoiled) results over a history; non-trivial: two calls, one with all "
            "states", shards=24),
        Sub("solvers", solver_case(), _solvers, 300, 12000,
            "LLModel and PropsSolver directly, with local fields and failing calls; non-trivial: two calls", shards=24),
        Sub("geometry", geometry_case(), _geometry, 160, 6000,
            "inputs of the geometry builders; non-trivial: at least three arguments", shards=24)]
