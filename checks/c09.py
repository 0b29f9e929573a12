"""C09: origin independence and transfer of moments."""
import copy

import numpy as np
from hypothesis import strategies as st

from vlib import gen, refll, refmodel
from vlib.runner import Sub
from vlib.util import FK, KEYS, check, close, require, vec

import machup.MU as MU

PROPERTY = "C09"
ASSUMPTIONS = ["unique propulsive propeller states, well conditioned wings, no wing point on the edge of a slipstream",
               "rotation happens about the centre of gravity, so that only without rates moving it keeps the forces"]


@st.composite
def case(draw):
    c = draw(refmodel.case(max_wings=3, max_props=2, max_grid=5))
    c["d"] = [draw(gen.num(-20, 20, 0.1)) for _ in range(3)]
    c["how"] = draw(st.sampled_from(["wings", "position", "both"]))
    c["as"] = draw(st.sampled_from(["list", "tuple", "array"]))
    return c


def run(spec, aero, ctl, ps):
    with gen.Scratch() as tmp:
        mu = MU.MachUp(inputAirplane=gen.build(spec, tmp))
    return mu.solve(dict(aero), ctl and dict(ctl), copy.deepcopy(ps))


def _add(a, b):
    return [float(x + y) for x, y in zip(a, b)]


def _move(c, rec):
    spec, aero, ctl, ps = c["plane"], c["aero"], c["ctl"], c["prop"]
    r = refmodel.solve(spec, aero, ctl, ps)
    require(r.ok)
    d = np.array(c["d"])
    s = copy.deepcopy(spec)
    s["cg"] = _add(s["cg"], d)
    for p in s["props"]:
        p["pos"] = _add(p["pos"], d)
    on_wings = {"wings": d, "position": 0. * d, "both": 0.25 * d}[c["how"]]
    for w in s["wings"]:
        if w["parent"] is None:
            w["pos"] = _add(w["pos"], on_wings)
    if c["how"] != "wings":
        s["position"] = {"list": list, "tuple": tuple, "array": np.array}[c["as"]]([float(x) for x in d - on_wings])
    a, b = run(spec, aero, ctl, ps), run(s, aero, ctl, ps)
    # the conditioning of distances gets worse with the distance from the origin
    far = 1. + np.max(np.abs(d))
    for k in KEYS:
        close("moved by %s: %s" % (c["d"], k), b[k], a[k], (r.fs if k in FK else r.ms) * far, 1e-7)
    rec.nt(np.all(d != 0) and len(spec["wings"]) + len(spec["props"]) > 1)
    rec.tag("props", bool(spec["props"]))
    rec.tag("airplane position", c["how"] != "wings")
    rec.tag("rotating", any(k.endswith("rate") for k in aero))


def _cg(c, rec):
    spec, ctl, ps = c["plane"], c["ctl"], c["prop"]
    aero = {k: v for k, v in c["aero"].items() if not k.endswith("rate")}
    r = refmodel.solve(spec, aero, ctl, ps)
    require(r.ok)
    d = np.array(c["d"])
    s = copy.deepcopy(spec)
    s["cg"] = _add(s["cg"], d)
    a, b = run(spec, aero, ctl, ps), run(s, aero, ctl, ps)
    ms = r.ms + r.fs * np.linalg.norm(d)
    for k in FK:
        close("%s after moving the cg" % k, b[k], a[k], r.fs, 1e-8)
    F = vec(a, ("FX", "FY", "FZ"))
    want = vec(a, ("MX", "MY", "MZ")) - np.cross(d, F)
    for i, k in enumerate(("MX", "MY", "MZ")):
        close("%s after moving the cg by %s" % (k, c["d"]), b[k], want[i], ms, 1e-8)
    rec.nt(np.linalg.norm(np.cross(d, F)) > 1e-3 * r.ms)
    rec.tag("props", bool(spec["props"]))
    # moving it to where there is no net arm along one axis at a time
    for i in range(3):
        e = np.zeros(3)
        e[i] = d[i]
        s["cg"] = _add(spec["cg"], e)
        b = run(s, aero, ctl, ps)
        want = vec(a, ("MX", "MY", "MZ")) - np.cross(e, F)
        for j, k in enumerate(("MX", "MY", "MZ")):
            close("%s after moving the cg along axis %d" % (k, i), b[k], want[j], ms, 1e-8)


SUBS = [Sub("move", case(), _move, 1800, 25000,
            "airplane moved together with its cg; non-trivial: moved along every axis, several parts", shards=8),
        Sub("cg", case(), _cg, 1200, 20000,
            "moment transfer; non-trivial: the transferred moment is at least 1e-3 of the moment scale", shards=8)]
