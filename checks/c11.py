"""C11: results do not depend on what the model computed before."""
import copy

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ops, refprop
from vlib.runner import Sub
from vlib.util import check

from machup import LLGrid, LLModel, PropsSolver

PROPERTY = "C11"
ASSUMPTIONS = ["equality to 1e-9 of the magnitude of a result; calls that raise are compared by exception type"]


@st.composite
def case(draw):
    c = draw(ops.history())
    if draw(st.integers(0, 2)) == 0:        # a second airplane in the same program
        c["other"] = draw(ops.model(motors=False))
        c["other_state"] = draw(ops.states(c["other"]))
    return c


def _history(c, rec):
    raised = kinds = 0
    with gen.Scratch() as tmp:
        mu = ops.build(c["plane"], tmp)
        seen = set()
        states = ops.Caller(c["reuse"])
        other = c.get("other") and ops.build(c["other"], tmp)
        for i, o in enumerate(c["ops"]):
            if other:
                ops.apply(other, {"op": "solve", "omit": [], "file": False}, copy.deepcopy(c["other_state"]), tmp)
            got, text = ops.apply(mu, o, states(c["states"][o["state"]]), tmp)
            fresh = ops.build(c["plane"], tmp)
            want, wtext = ops.apply(fresh, o, copy.deepcopy(c["states"][o["state"]]), tmp)
            what = "call %d (%s) after %s" % (i, o["op"], [x["op"] for x in c["ops"][:i]])
            ops.same(what, got, want, 1e-9)
            ops.same(what + " file", text, wtext, 1e-9)
            raised += got[0] == "raised"
            if i:
                seen.add(o["op"])
            rec.tag(o["op"])
        kinds = len(seen)
    rec.tag("a call raised", raised > 0)
    rec.tag("same state objects", c["reuse"])
    rec.tag("with another model", "other" in c)
    rec.nt(kinds >= 2 or len(c["ops"]) >= 3 or len({x["op"] for x in c["ops"]}) == 1)


@st.composite
def search_case(draw):
    """The analyses that solve many times, one after the other."""
    plane = draw(ops.model(max_props=draw(st.sampled_from([0, 0, 0, 1])), motors=False, min_wings=1))
    sts = [draw(ops.states(plane))]
    for _ in range(draw(st.integers(1, 2))):
        sts.append(draw(ops.variant(plane, sts[0]) if draw(st.booleans()) else ops.states(plane)))
    main = draw(st.sampled_from(["stall_onset", "stall_onset", "find_aero_center", "find_aero_center", "target_lift", "pitch_trim"]))
    if plane["props"]:
        for s in sts:
            s[2] = draw(st.sampled_from([{"J": .3}, {"J": .6}, None]))
        main = draw(st.sampled_from(["target_lift", "pitch_trim"]))
    todo = []
    for i in range(len(sts)):
        name = main if draw(st.integers(0, 3)) else draw(st.sampled_from(["stall_onset", "target_lift", "solve"]))
        if plane["props"] and name == "stall_onset":
            name = "target_lift"
        if name == "stall_airspeed" and any(k.endswith("rate") for k in sts[i][0] or {}):
            name = "stall_onset"
        o = draw(ops.op(plane, 1, kinds=[name]))
        todo.append(dict(o, state=i, omit=draw(st.sampled_from([[], [], [], [0], [1], [2]]))))
    return {"plane": plane, "states": sts, "ops": todo, "reuse": draw(st.booleans())}


@st.composite
def solver_case(draw):
    plane = draw(ops.model(motors=True))
    calls = draw(st.integers(2, 6))
    sts = [draw(ops.states(plane))]
    while len(sts) < calls:
        sts.append(draw(ops.variant(plane, draw(st.sampled_from(sts))) if draw(st.booleans()) else ops.states(plane)))
    return {"plane": plane, "calls": [s + [draw(st.integers(0, 7))] for s in sts], "reuse": draw(st.integers(0, 2)) > 0}


def _field(a, n, what):
    """A given local flow, with or without a speed beside it."""
    a = dict(a or {"V_mag": 10., "rho": 1.})
    local = np.empty((n, 4))
    local[:, 0] = a["rho"]
    local[:, 1:] = a["V_mag"] * refprop.flow_dir(a)
    if what == 6:
        local *= 1. + 0.1 * np.cos(np.arange(4. * n)).reshape(n, 4)
    a["local_state"] = local
    if what == 7:
        del a["V_mag"]
    return a


def _solvers(c, rec):
    """The two solvers used directly."""
    import machup.geometry as geometry
    plane = c["plane"]
    with gen.Scratch() as tmp:
        def airplane():
            if plane["as_file"]:
                return geometry.Airplane(inputfile=gen.write_json(gen.to_json(plane, tmp), tmp))
            return gen.build(plane, tmp)

        def call(solver, kind, a, ctl, ps):
            try:
                if kind == "wings":
                    return "ok", solver.solve("linear", a, ctl)
                return "ok", solver.solve(a, ps)
            except Exception as e:
                return "raised", type(e).__name__
        pts = None
        makers = {}
        if plane["wings"]:
            pts = np.array(LLGrid(airplane()).get_control_point_pos())
            makers["wings"] = lambda: LLModel(airplane())
        if plane["props"]:
            makers["props"] = lambda: PropsSolver(airplane(), pts)
        for kind, make in makers.items():
            solver = make()
            states = ops.Caller(c["reuse"])
            for i, (a, ctl, ps, what) in enumerate(c["calls"]):
                if what == 0 and a:
                    a = {k: v for k, v in a.items() if k != "rho"}
                if what > 4 and kind == "wings":
                    a = _field(a, len(pts), what)
                    rec.tag("given field")
                got = call(solver, kind, *states((a, ctl, ps)))
                want = call(make(), kind, copy.deepcopy(a), copy.deepcopy(ctl), copy.deepcopy(ps))
                ops.same("%s call %d" % (kind, i), got, want, 1e-9)
    rec.nt(len(c["calls"]) >= 3)
    rec.tag("props", bool(plane["props"]))
    rec.tag("same state objects", c["reuse"])


SUBS = [Sub("history", case(), _history, 1100, 30000,
            "each call of a history against a freshly built model; non-trivial: three calls, one kind throughout, or two kinds after the first",
            shards=24),
        Sub("searches", search_case(), _history, 200, 4000,
            "two or three analyses that search, mostly of one kind, in different states; non-trivial: as history", shards=24),
        Sub("solvers", solver_case(), _solvers, 1500, 40000,
            "LLModel and PropsSolver sequences against fresh solvers; non-trivial: at least three calls", shards=24)]
