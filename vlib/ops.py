"""Histories of public calls on one model."""
import copy
import json
import math
import os

import numpy as np
from hypothesis import strategies as st

from . import gen, refll
from .runner import Violation
from .util import check

import machup.MU as MU


def apart(plane):
    """No two wings in the same place (the equations would be singular)."""
    if not plane["wings"]:
        return True
    r = refll.solve(plane, {"V_mag": 10., "rho": 1., "alpha": 3.317, "beta": 2.113}, {})
    return r.ok and r.cond < 1e10


@st.composite
def model(draw, max_wings=2, max_props=2, motors=True, max_grid=3, min_wings=0):
    """A small airplane; one in four is described by a file (needed for motors)."""
    n = draw(st.integers(0, max_props))
    plane = draw(gen.airplane(min_wings=max(min_wings, 0 if n else 1), max_wings=max_wings, max_grid=max_grid).filter(apart))
    if draw(st.integers(0, 3)) == 0:        # a flat, symmetric airplane where that leaves the wings apart
        flat = copy.deepcopy(plane)
        for w in flat["wings"]:
            w.update(side="both", dihedral=0., pos=[w["pos"][0], 0., 0.])
        if apart(flat):
            plane = flat
    as_file = draw(st.integers(0, 3)) == 0
    name = draw(gen.style())
    for i in range(n):
        p = draw(gen.prop(name % ("p", i), with_motor=motors and as_file and draw(st.booleans())))
        if plane["wings"] and draw(st.booleans()):
            w = plane["wings"][0]
            p["pos"] = [round(w["pos"][0] + 0.813, 6), round(w["pos"][1] + 0.407, 6), round(w["pos"][2] + 0.111, 6)]
        if as_file:
            p["airfoils"] = p["airfoils"][:2] or [dict(draw(gen.prop_airfoil()), key="only")]
            for a, where in zip(p["airfoils"], ("root", "tip")):
                a.pop("span_position", None)
                if len(p["airfoils"]) == 2:
                    a["span_position"] = where
        plane["props"].append(p)
    plane["as_file"] = as_file
    return plane


@st.composite
def prop_state(draw, plane):
    if not plane["props"]:
        return draw(st.sampled_from([None, None, {"J": 0.4}]))

    def one():
        kind = draw(st.sampled_from(["J", "J", "rps", "power", "throttle", "none"]))
        if kind == "none":
            return None
        if kind == "J":
            return {"J": draw(gen.num(0.1, 1.2, 0.02))}
        if kind == "rps":
            return {"rot_per_sec": draw(gen.num(2, 150, 1))}
        if kind == "power":
            return {"brake_power": draw(gen.num(1, 2000, 1))}
        return {"electric_throttle": draw(gen.num(0.2, 1., 0.05))}
    if draw(st.integers(0, 2)) == 0:
        return {p["name"]: one() or {"J": 0.5} for p in plane["props"]}
    return one()


@st.composite
def states(draw, plane):
    aero = draw(st.one_of(gen.aero(), gen.aero(), gen.aero(), st.none()))
    ctl = draw(st.one_of(gen.controls(), st.none()))
    return [aero, ctl, draw(prop_state(plane))]


@st.composite
def variant(draw, plane, state):
    """The same states but for one entry: what a stale intermediate result survives longest."""
    aero, ctl, ps = copy.deepcopy(state)
    what = draw(st.sampled_from(["aero"] * 5 + ["ctl"] * 2 + (["prop"] * 2 if plane["props"] else [])))
    rates = [k for k in aero or {} if k.endswith("rate") and aero[k]]
    if what == "aero" and aero and rates and draw(st.integers(0, 1)):
        # as large as before: signs or axes exchanged
        for k in rates if draw(st.booleans()) else [draw(st.sampled_from(rates))]:
            aero[k] = -aero[k]
        if draw(st.integers(0, 3)) == 0:
            k, j = draw(st.permutations(["roll_rate", "pitch_rate", "yaw_rate"]))[:2]
            aero[k], aero[j] = aero.get(j, 0.), aero.get(k, 0.)
    elif what == "aero" and aero and aero.get("beta") and draw(st.integers(0, 4)) == 0:
        aero["beta"] = -aero["beta"]
    elif what == "aero" and aero:
        k = draw(st.sampled_from(["alpha", "alpha", "beta", "rho", "V_mag", "roll_rate", "pitch_rate", "yaw_rate"]))
        if k in aero and draw(st.integers(0, 3)) == 0 and k not in ("rho", "V_mag"):
            del aero[k]
        elif k in ("rho", "V_mag"):
            aero[k] = aero[k] * draw(st.sampled_from([2., 0.5, 1.01]))
        elif k.endswith("rate"):
            aero[k] = round(aero.get(k, 0.) + draw(gen.num(-0.5, 0.5, 0.05)), 6)
        else:
            aero[k] = round(aero.get(k, 0.) + draw(st.sampled_from([0.004, -0.02, 0.0005, 0.3, -5.])), 6)
    elif what == "ctl":
        ctl = dict(ctl or {})
        k = draw(st.sampled_from(["aileron", "elevator", "rudder", "flap"]))
        ctl[k] = round(ctl.get(k, 0.) + draw(st.sampled_from([0.01, -1., 5.])), 6)
    else:
        ps = draw(prop_state(plane))
    return [aero, ctl, ps]


HEAVY = ("find_aero_center", "stall_airspeed")


@st.composite
def op(draw, plane, pool, kinds=None):
    wings, props = bool(plane["wings"]), bool(plane["props"])
    names = ["solve", "solve", "solve", "distributions", "create_stl", "bad"]
    if wings:
        names += ["stability_derivatives", "control_derivatives", "damping_derivatives", "derivatives",
                  "target_lift", "pitch_trim", "stall_onset"]
        if not props and draw(st.integers(0, 2)) == 0:
            names += list(HEAVY)
    else:
        names += ["stall_onset", "derivatives"]
    name = draw(st.sampled_from(kinds or names))
    o = {"op": name, "state": draw(st.integers(0, pool - 1)),
         "omit": draw(st.sampled_from([[], [], [], [0], [1], [2], [0, 1, 2]])),
         "file": draw(st.integers(0, 3)) == 0}
    if name in ("target_lift", "pitch_trim"):
        o["L"] = draw(gen.num(-50, 300, 1))
        o["m"] = draw(gen.num(-20, 20, 1))
    if name == "stall_airspeed":
        o["L"] = draw(gen.num(1, 300, 1))
    if name == "bad":
        o["bad"] = draw(st.sampled_from(["no rho", "no V_mag", "J zero", "unknown prop state", "throttle"]))
    return o


@st.composite
def history(draw, min_ops=2, max_ops=6, **kw):
    plane = draw(model(**kw))
    pool = draw(st.integers(1, 4))
    sts = [draw(states(plane))]
    while len(sts) < pool:
        sts.append(draw(variant(plane, draw(st.sampled_from(sts))) if draw(st.booleans()) else states(plane)))
    todo = []
    for _ in range(draw(st.integers(min_ops, max_ops))):
        o = draw(op(plane, pool))
        rotating = any(k.endswith("rate") for k in sts[o["state"]][0] or {})
        # the slow analyses once per history; the search for an airspeed only where it converges
        if o["op"] in HEAVY and (o["op"] in [x["op"] for x in todo] or (o["op"] == "stall_airspeed" and rotating)):
            o["op"] = "solve"
        if o["op"] in ("pitch_trim", "stall_onset") and plane["props"] and \
                any(k in str(sts[o["state"]][2]) for k in ("brake_power", "electric_throttle")):
            o["op"] = "stability_derivatives" if plane["wings"] else "solve"
        todo.append(o)
    return {"plane": plane, "states": sts, "ops": todo, "reuse": draw(st.integers(0, 2)) > 0}


class Caller:
    """The states a caller gives: new objects for each call, or the same ones, changed in between."""

    def __init__(self, reuse):
        self.reuse = reuse
        self.own = {}

    def __call__(self, state):
        state = copy.deepcopy(list(state))
        return [self._update(i, x) for i, x in enumerate(state)] if self.reuse else state

    def _update(self, key, new):
        if isinstance(new, dict):
            old = self.own.setdefault(key, {})
            values = {k: self._update((key, k), v) for k, v in new.items()}
            old.clear()
            old.update(values)
            return old
        if isinstance(new, np.ndarray):
            old = self.own.setdefault((key, new.shape, str(new.dtype)), new)
            old[...] = new
            return old
        return new


def build(plane, tmp):
    if plane.get("as_file"):
        return MU.MachUp(gen.write_json(gen.to_json(plane, tmp), tmp))
    return MU.MachUp(inputAirplane=gen.build(plane, tmp))


def apply(mu, o, st_, tmp):
    """Runs one operation with the given state objects. Returns (outcome, file contents)."""
    a, c, p = [None if i in o["omit"] else x for i, x in enumerate(st_)]
    path = os.path.join(tmp, "out.json")
    if os.path.exists(path):
        os.remove(path)
    f = path if o["file"] else None
    kw = dict(aero_state=a, control_state=c, prop_state=p)
    name = o["op"]
    try:
        if name in ("stability_derivatives", "control_derivatives", "damping_derivatives"):
            r = getattr(mu, name)(**kw)
        elif name in ("solve", "distributions", "derivatives", "stall_onset", "find_aero_center"):
            r = getattr(mu, name)(filename=f, **kw)
        elif name == "target_lift":
            r = mu.target_lift(o["L"], filename=f, **kw)
        elif name == "pitch_trim":
            r = mu.pitch_trim(o["L"], o["m"], filename=f, error=1e-6, **kw)
        elif name == "stall_airspeed":
            r = mu.stall_airspeed(o["L"], filename=f, **kw)
        elif name == "create_stl":
            stl = os.path.join(tmp, "out.stl")
            mu.create_stl(stl)
            with open(stl, "rb") as fh:
                r = fh.read()[84:]
        elif name == "bad":
            bad = o["bad"]
            aero = dict(a or {"V_mag": 10., "rho": 1.})
            if bad == "no rho":
                aero.pop("rho")
            elif bad == "no V_mag":
                aero.pop("V_mag")
            ps = {"J zero": {"J": 0.}, "unknown prop state": {"speed": 3.},
                  "throttle": {"electric_throttle": 0.5}}.get(bad, p)
            r = mu.solve(aero, c, ps, f)
        out = ("ok", r)
    except Exception as e:      # compared, not judged
        out = ("raised", type(e).__name__)
    text = None
    if f and os.path.exists(path):
        with open(path) as fh:
            text = json.load(fh)
    return out, text


def _num(x):
    return isinstance(x, (int, float, np.floating, np.integer)) and not isinstance(x, bool)


def _scale(x):
    if isinstance(x, dict):
        return max([_scale(v) for v in x.values()] or [0.])
    if isinstance(x, (list, tuple)):
        return max([_scale(v) for v in x] or [0.])
    if isinstance(x, np.ndarray) and x.dtype.kind in "fi":
        return float(np.max(np.abs(np.where(np.isfinite(x), x, 0.)))) if x.size else 0.
    if _num(x) and math.isfinite(x):
        return abs(float(x))
    return 0.


def same(what, a, b, rtol, scale=None):
    """Deep equality up to rtol of the largest number beside it."""
    if scale is None:
        scale = 0.
    if type(a) is not type(b) and not (_num(a) and _num(b)):
        raise Violation("%s: %r, expected %r" % (what, a, b))
    if isinstance(a, dict):
        check(set(a) == set(b), "%s: keys %s, expected %s", what, sorted(map(str, a)), sorted(map(str, b)))
        s = max([_scale(v) for v in b.values() if _num(v)] or [0.])
        for k in a:
            same("%s[%s]" % (what, k), a[k], b[k], rtol, s)
    elif isinstance(a, (list, tuple)):
        check(len(a) == len(b), "%s: length %d, expected %d", what, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            same("%s[%d]" % (what, i), x, y, rtol, _scale(b))
    elif isinstance(a, np.ndarray):
        check(a.shape == b.shape, "%s: shape %s, expected %s", what, a.shape, b.shape)
        if a.dtype.kind in "fi":
            s = max(_scale(b), 1e-300)
            d = np.where(np.isnan(a) & np.isnan(b) | (a == b), 0., np.abs(a - b))
            check(np.all(d <= rtol * s), "%s differs by %.3g of its magnitude", what, np.max(d) / s)
        else:
            check(list(map(str, a.ravel())) == list(map(str, b.ravel())), "%s differs", what)
    elif _num(a):
        a, b = float(a), float(b)
        if not (a == b or (math.isnan(a) and math.isnan(b))):
            check(abs(a - b) <= rtol * max(abs(b), scale), "%s = %r, expected %r", what, a, b)
    else:
        check(a == b, "%s: %.80r, expected %.80r", what, a, b)


def snapshot(x):
    return copy.deepcopy(x)
