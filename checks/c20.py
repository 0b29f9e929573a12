"""C20: slipstream velocities and wings in them."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, refll, refmodel, refprop
from vlib.runner import Sub
from vlib.util import check, close, forces_close, require

from machup import LLGrid, LLModel, PropsSolver
import machup.MU as MU

PROPERTY = "C20"
ASSUMPTIONS = ["no point within 1e-6 radii of a boundary of the slipstream (disk plane, tube wall, hub streamline), where the "
               "field is discontinuous",
               "propulsive operating points with a unique solution; zero airspeed included",
               "wing loads: flow from ahead of every section, well conditioned lifting-line system"]


@st.composite
def cloud(draw):
    n = draw(st.integers(1, 3))
    props = [draw(gen.prop("p%d" % i, tables=True)) for i in range(n)]
    if n > 1 and draw(st.booleans()):      # tubes that overlap
        for p in props[1:]:
            p["pos"] = [round(props[0]["pos"][0] - draw(gen.num(0, 2, .1)), 4),
                        round(props[0]["pos"][1] + draw(gen.num(-.5, .5, .05)), 4), props[0]["pos"][2]]
    aero = draw(gen.aero(rates=False))
    kind = draw(st.sampled_from(["J", "J", "J", "none", "rps", "static"]))
    J = draw(gen.num(.05, .9, .02))
    ps = {"J": {"J": J}, "none": None, "static": {"J": 0., "rot_per_sec": draw(gen.num(2, 150, 1))},
          "rps": {"rot_per_sec": round(aero["V_mag"] / (J * props[0]["diameter"]), 6)}}[kind]
    if kind == "static":
        aero["V_mag"] = 0.
    return {"props": props, "aero": aero, "ps": ps, "named": draw(st.booleans()), "cg": [0., 0., 0.],
            "at": [[draw(st.integers(0, n - 1)), draw(gen.num(-3, 8, .05)), draw(gen.num(0, 1.3, .01)),
                    draw(st.integers(0, 359))] for _ in range(draw(st.integers(1, 30)))],
            "far": [[draw(gen.num(-20, 20, .5)) for _ in range(3)] for _ in range(draw(st.integers(0, 4)))]}


def _points(c):
    pts = []
    for i, x, r, deg in c["at"]:
        b = refprop.Blade(c["props"][i])
        e1 = np.cross(b.fwd, [.3, .5, .8])
        e1 /= np.linalg.norm(e1)
        e2 = np.cross(b.fwd, e1)
        a = math.radians(deg)
        R = b.d / 2
        pts.append(b.pos - x * R * b.fwd + r * R * (math.cos(a) * e1 + math.sin(a) * e2))
    return np.array(pts + c["far"])


def _cloud(c, rec):
    aero, ps = c["aero"], c["ps"]
    pts = _points(c)
    u, V = refprop.flow_dir(aero), aero["V_mag"]
    spec = {"name": "x", "cg": c["cg"], "units": None, "lat_ref": 1., "long_ref": 1., "position": None, "wings": [],
            "props": c["props"]}
    want = np.tile(V * u, (len(pts), 1))
    size = V
    solved, margin, washed = [], 1., 0
    for p in c["props"]:
        b = refprop.Blade(p)
        J, n = refmodel.operating_point(p, aero, ps)
        s = b.solve(J)
        require(s is not None and s.margin > 1e-6)
        w, m = b.wash(s, n, V, pts)
        solved.append((b, s, n, w))
        want += w
        margin = min(margin, m)
        size += np.max(b.induced_velocity(s, n)[0]) * 4.
        washed += int(np.sum(np.any(w != 0, axis=1)))
    # leave out the points too close to a boundary, not the whole case
    ok = np.ones(len(pts), bool)
    if margin < 1e-6:
        for i in range(len(pts)):
            ok[i] = all(b.wash(s, n, V, pts[i:i + 1])[1] > 1e-6 for b, s, n, w in solved)
    require(np.any(ok))
    if c["named"] and ps:
        ps = {p["name"]: dict(ps) for p in c["props"]}
    given = pts.copy()
    with gen.Scratch() as tmp:
        solver = PropsSolver(gen.build(spec, tmp), given)
        res, field = solver.solve(dict(aero), copy.deepcopy(ps))
        check(np.array_equal(given, pts), "the points were altered")
        check(np.shape(field) == (len(pts), 4), "field of shape %s", np.shape(field))
        close("density", field[:, 0], np.full(len(pts), aero["rho"]), aero["rho"], 1e-12)
        close("velocity", field[ok, 1:], want[ok], size, 1e-6)
        free = ok & np.all([np.all(w == 0, axis=1) for b, s, n, w in solved], axis=0)
        close("velocity ahead of and outside of the slipstreams", field[free, 1:], np.tile(V * u, (np.sum(free), 1)),
              size, 1e-12)
        # one point at a time
        i = int(np.argmax(ok))
        one = PropsSolver(gen.build(spec, tmp), pts[i:i + 1].copy()).solve(dict(aero), copy.deepcopy(ps))[1]
        close("velocity at a point alone", one[0], field[i], size, 1e-9)
    # inside: faster along the slipstream, turning with the propeller
    for b, s, n, w in solved:
        inside = np.any(w != 0, axis=1)
        if np.any(inside):
            check(np.all(-(w[inside] @ b.fwd) > -1e-9 * size), "reference: slipstream slower than the flow")
    rec.nt(washed > 0)
    rec.tag("several slipstreams at a point", np.any(np.sum([np.any(w != 0, axis=1) for _, _, _, w in solved], axis=0) > 1))
    rec.tag("still air", V == 0)
    rec.tag("points in a slipstream", washed)
    rec.tag("points outside", int(np.sum(free)))


def _wings(c, rec):
    spec, aero, ctl, ps = c["plane"], c["aero"], c["ctl"], c["prop"]
    r = refmodel.solve(spec, aero, ctl, ps)
    require(r.ok)
    with gen.Scratch() as tmp:
        plane = gen.build(spec, tmp)
        mu = MU.MachUp(inputAirplane=plane)
        got = mu.solve(dict(aero), ctl and dict(ctl), copy.deepcopy(ps))
        forces_close("MachUp.solve", got, r.total, r.fs, r.ms, 1e-6)
        pts = np.array(LLGrid(gen.build(spec, tmp)).get_control_point_pos())
        close("control points", pts, r.wing.g.r, np.max(np.abs(pts)) + 1., 1e-9)
        props, field = PropsSolver(gen.build(spec, tmp), pts).solve(dict(aero), copy.deepcopy(ps))
        size = np.max(np.abs(r.local[:, 1:])) + 1e-9
        close("velocity at the control points", field[:, 1:], r.local[:, 1:], size, 1e-6)
        alone = LLModel(gen.build(dict(spec, props=[]), tmp)).solve(
            "linear", dict(aero, local_state=r.local.copy()), ctl and dict(ctl))
        for k in got:
            close("wings in the slipstream plus propellers: %s" % k, got[k], alone["total"][k] + r.prop[k],
                  r.fs if k[0] == "F" else r.ms, 1e-6)
    rec.nt(bool(np.any(r.washed)))
    rec.tag("rates", any(k.endswith("rate") for k in aero))
    rec.tag("wing partly in a slipstream", bool(np.any(r.washed) and not np.all(r.washed)))


SUBS = [Sub("cloud", cloud(), _cloud, 2100, 35000,
            "velocity at clouds of points around 1..3 propellers; non-trivial: a point inside a slipstream", shards=16),
        Sub("wings", refmodel.case(max_wings=2, max_props=2, max_grid=5, min_props=1, min_wings=1,
                                   modes=("J", "J", "none", "rps", "named", "mixed")), _wings, 1200, 20000,
            "wings behind propellers; non-trivial: a wing section inside a slipstream", shards=16)]
