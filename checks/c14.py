"""C14: target-lift and trim answers."""
import copy
import json
import math
import os

import numpy as np
from hypothesis import strategies as st

from vlib import gen, refll, refmodel
from vlib.runner import Sub
from vlib.util import check, close, require

import machup.MU as MU

PROPERTY = "C14"
ASSUMPTIONS = ["target_lift is compared as found when the lift rises by at least half of the nominal slope over "
               "-15..15 degrees; pitch_trim when elevator and angle of attack act independently (well conditioned "
               "2x2 derivative matrix over the range)",
               "trim tolerances are given relative to the loads (the argument is an absolute force)"]


@st.composite
def lift_case(draw, max_props=1):
    c = draw(refmodel.case(min_wings=1, max_wings=2, max_props=max_props, max_grid=4))
    c["alpha"] = draw(gen.num(-8, 10, 0.1))
    c["start"] = draw(st.one_of(gen.num(-10, 12, 0.1), st.sampled_from([0., -0.2, 0.2, -0.1])))
    c["factor"] = draw(st.sampled_from([0., 0., 0., 0., 3., -20., 100., 1000.]))
    c["error"] = draw(st.sampled_from([None, None, 1e-6, 1e-9]))
    c["file"] = draw(st.booleans())
    c["omit"] = draw(st.integers(0, 7)) == 0
    return c


DEFAULT = {"V_mag": 10., "rho": 0.0023769}


def _lift(c, rec):
    spec, ctl, ps = c["plane"], c["ctl"], c["prop"]
    aero = dict(DEFAULT) if c["omit"] else dict(c["aero"])
    aero["alpha"] = c["alpha"]
    r = refmodel.solve(spec, aero, ctl, ps)
    require(r.ok)
    with gen.Scratch() as tmp:
        mu = MU.MachUp(inputAirplane=gen.build(spec, tmp))

        def lift(a):
            return mu.solve(dict(aero, alpha=a), ctl and dict(ctl), copy.deepcopy(ps))["FL"]
        at = [float(x) for x in range(-15, 16)]
        L = [lift(a) for a in at]
        slopes = [(y - x) / (q - p) for p, q, x, y in zip(at, at[1:], L, L[1:])]
        mean = (L[-1] - L[0]) / 30.
        regular = mean > 1e-3 * r.fs / 10. and min(slopes) > 0.5 * mean and max(slopes) < 2. * mean
        target = lift(c["alpha"]) + c["factor"] * max(abs(x) for x in L)
        start = dict(c["aero"])
        start.pop("alpha", None)
        if c["start"] != 0. or c["file"]:
            start["alpha"] = c["start"]
        if c["omit"]:
            start = None
        path = os.path.join(tmp, "lift.json") if c["file"] else None
        kw = {} if c["error"] is None else {"error": c["error"]}
        try:
            got = mu.target_lift(target, start, ctl and dict(ctl), copy.deepcopy(ps), path, **kw)
        except RuntimeError:
            got = None
            check(path is None, "target_lift raised although a file was requested")
        if path:
            check(os.path.exists(path), "no file")
            if got is not None:
                check(json.load(open(path)) == got, "the file does not hold the answer")
        answered = got is not None and "alpha" in got
        if got is not None and not answered:
            check(set(got) == {"error"} and path, "answer %r", got)
        check(not (answered and "error" in got), "answer %r", got)
        if answered:
            check(math.isfinite(got["alpha"]), "alpha is %r", got["alpha"])
            slope = abs(lift(got["alpha"] + .01) - lift(got["alpha"] - .01)) / .02
            close("lift at the found angle %r" % got["alpha"], lift(got["alpha"]), target,
                  10. * slope * (c["error"] or 1e-9) + 1e-8 * r.fs, 1.)
        if c["factor"] == 0. and regular:
            check(answered, "the lift at alpha=%g was not found from alpha=%g", c["alpha"], c["start"])
    rec.nt(regular and c["factor"] == 0.)
    rec.tag("unattainable target", c["factor"] != 0.)
    rec.tag("answered", answered)
    rec.tag("error entry", got is not None and not answered)
    rec.tag("default state", c["omit"])
    rec.tag("props", bool(spec["props"]))


@st.composite
def trim_case(draw):
    wing = draw(gen.wing("main", sides=("both",), min_grid=2, max_grid=4, vertical=False))
    tail = draw(gen.wing("tail", sides=("both",), min_grid=2, max_grid=3, vertical=False))
    wing["is_main"], tail["is_main"] = 1, 0
    wing["pos"] = [0., 0., 0.]
    tail["pos"] = [-round(wing["root_chord"] * draw(gen.num(1.5, 5, 0.25)), 3), 0., draw(gen.num(-0.5, 0.5, 0.05))]
    tail["semispan"] = round(max(0.3, wing["semispan"] * draw(gen.num(0.25, 0.6, 0.05))), 3)
    tail["root_chord"] = tail["tip_chord"] = round(wing["root_chord"] * draw(gen.num(0.4, 1., 0.1)), 3)
    el = draw(gen.control())
    el["mix"] = {"elevator": draw(st.sampled_from([1., 1., 1., 0.5, -1.]))}
    if draw(st.integers(0, 3)) > 0:
        el["span"] = [0., 1.]
    tail["control"] = el
    kind = draw(st.sampled_from(["elevator"] * 9 + ["none"]))
    if kind == "none":
        tail["control"] = None
        if wing["control"]:
            wing["control"]["mix"].pop("elevator", None)
    plane = {"name": "plane", "cg": [draw(gen.num(-1, 0.5, 0.05)), 0., draw(gen.num(-0.3, 0.3, 0.05))],
             "units": None, "lat_ref": 8., "long_ref": 1., "position": None, "wings": [wing, tail], "props": []}
    if draw(st.integers(0, 4)) == 0:
        p = draw(gen.prop("p0"))
        p["pos"] = [round(wing["root_chord"] + 0.613, 4), 0.013, 0.017]
        plane["props"].append(p)
    others = draw(st.one_of(st.just({}), st.just({}), gen.controls()))
    return {"plane": plane, "aero": draw(gen.aero(rates=draw(st.booleans()))), "ctl": others,
            "alpha": draw(gen.num(-4, 8, 0.1)), "de": draw(gen.num(-9, 9, 0.1)), "J": draw(gen.num(0.3, 0.7, 0.05)),
            "scale": draw(st.sampled_from([0.] * 9 + [50.])), "zero": draw(st.integers(0, 7)) == 0,
            "file": draw(st.booleans()), "kind": kind, "omit": draw(st.integers(0, 4)) == 0}


def _trim(c, rec):
    spec, ctl = c["plane"], dict(c["ctl"])
    ps = {"J": c["J"]} if spec["props"] else None
    aero = dict(DEFAULT) if c["omit"] else dict(c["aero"])
    known = dict(ctl, elevator=c["de"])
    r = refmodel.solve(spec, dict(aero, alpha=c["alpha"]), known, ps)
    require(r.ok)
    with gen.Scratch() as tmp:
        mu = MU.MachUp(inputAirplane=gen.build(spec, tmp))

        def loads(a, e):
            res = mu.solve(dict(aero, alpha=a), dict(ctl, elevator=e), ps and dict(ps))
            return res["FL"], res["MY"]

        def jac(a, e):
            (l1, m1), (l0, m0) = loads(a + .5, e), loads(a - .5, e)
            (l3, m3), (l2, m2) = loads(a, e + .5), loads(a, e - .5)
            return l1 - l0, l3 - l2, m1 - m0, m3 - m2
        L, m = loads(c["alpha"], c["de"])
        L, m = L + c["scale"] * r.fs, (0. if c["zero"] else m) + c["scale"] * r.ms
        dets = []
        for a, e in ((0., 0.), (c["alpha"], c["de"]), (c["alpha"], 0.), (0., c["de"])):
            la, le, ma, me = jac(a, e)
            dets.append((la * me - le * ma) / (1e-300 + abs(la * me) + abs(le * ma)))
        power = abs(me) > 1e-3 * r.ms
        regular = min(abs(d) for d in dets) > 0.2 and min(dets) * max(dets) > 0 and power and la > 0 and \
            c["kind"] == "elevator" and not c["zero"] and c["scale"] == 0.
        # deflections that stay below 11 degrees, where the surfaces act linearly
        mixed = max([abs(v) for w in spec["wings"] if w["control"] for v in w["control"]["mix"].values()] or [0.])
        total = sum(abs(v) for v in known.values()) * mixed
        regular = regular and total < 10.9
        if regular:
            # sections may have kinks (the drag at zero deflection): Newton steps must contract around the state
            goal, here = np.array([c["alpha"], c["de"]]), np.array(loads(c["alpha"], c["de"]))
            near = [(d * u, d * v) for d in (.02, .3, 2.) for u, v in ((1., 1.), (1., -1.), (-1., 1.), (-1., -1.))]
            for da, d in near + [(-c["alpha"], -c["de"])]:
                a, e = goal + (da, d)
                (l1, m1), (l0, m0), (l3, m3), (l2, m2) = (
                    loads(a + .25, e), loads(a - .25, e), loads(a, e + .25), loads(a, e - .25))
                try:
                    step = np.linalg.solve([[(l1 - l0) * 2., (l3 - l2) * 2.], [(m1 - m0) * 2., (m3 - m2) * 2.]],
                                           here - loads(a, e))
                except np.linalg.LinAlgError:
                    regular = False
                    break
                left = np.abs(np.array([a, e]) + step - goal).max()
                if left > 0.4 * max(abs(da), abs(d)) + 1e-9:
                    regular = False
                    break
        err = max(1e-9, 1e-10 * (r.fs + r.ms))
        path = os.path.join(tmp, "trim.json") if c["file"] else None
        start = None if c["omit"] else dict(aero)
        args = dict(aero_state=start, control_state=dict(ctl) if ctl or c["file"] else None, prop_state=ps and dict(ps), filename=path, error=err)
        try:
            got = mu.pitch_trim(L, m, **args)
        except RuntimeError:
            got = None
            check(path is None, "pitch_trim raised although a file was requested")
        except Exception as e:
            # a state in which the derivative matrix is singular
            check(type(e).__name__ == "LinAlgError" and not regular and c["kind"] == "elevator", "raised %r", e)
            got = None
            path = None
        answered = got is not None and "alpha" in got
        if path:
            check(json.load(open(path)) == got, "the file does not hold the answer")
        if got is not None and not answered:
            check(set(got) == {"error"} and path, "answer %r", got)
        if answered:
            check(set(got) == {"alpha", "elevator"}, "answer %r", got)
            l, mm = loads(got["alpha"], got["elevator"])
            close("lift in the trimmed state", l, L, 2 * err, 1.)
            close("pitching moment in the trimmed state", mm, m, 2 * err, 1.)
        if regular:
            check(answered, "the state alpha=%g, elevator=%g was not found", c["alpha"], c["de"])
        if c["kind"] == "none" and not (abs(loads(0., 0.)[0] - L) < err and abs(loads(0., 0.)[1] - m) < err):
            check(not answered, "trimmed without an elevator: %r", got)
        if c["zero"] and answered and c["scale"] == 0. and c["file"]:
            # the default target moment is zero
            args["filename"] = None
            again = mu.pitch_trim(L, **args)
            close("alpha with the default moment", again["alpha"], got["alpha"], 1., 1e-6)
    rec.nt(regular)
    rec.tag("answered", answered)
    rec.tag("no elevator", c["kind"] == "none")
    rec.tag("default states", c["omit"])
    rec.tag("props", bool(spec["props"]))


SUBS = [Sub("lift", lift_case(), _lift, 1000, 25000,
            "target_lift from arbitrary starts; non-trivial: a lift that a known angle of attack produces", shards=16),
        Sub("trim", trim_case(), _trim, 800, 20000,
            "pitch_trim; non-trivial: loads of a known state, elevator and angle of attack independent", shards=16)]
