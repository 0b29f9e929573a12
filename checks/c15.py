"""C15: stall angle and stall airspeed."""
import copy
import json
import math
import os

import numpy as np
from hypothesis import strategies as st

from vlib import gen, refll, refmodel
from vlib.runner import Sub, Violation
from vlib.util import check, close, require

import machup.MU as MU

PROPERTY = "C15"
ASSUMPTIONS = ["a section is stalled when its reported section lift coefficient exceeds the section's maximum "
               "(interpolated between root and tip airfoil); cases within 1e-7 of a tie at some step are left out",
               "stall airspeed: no rotation rates and propellers at constant advance ratio, where the stall angle "
               "does not depend on speed; airspeeds between 0.3 and 2000"]


@st.composite
def case(draw, onset=True, **kw):
    c = draw(refmodel.case(min_wings=1, max_wings=3 if onset else 2, max_props=1, rates=onset, near=True,
                           modes=("J", "none", "named", "rps") if onset else ("J", "none"),
                           max_grid=4 if onset else 3, vertical=onset, **kw))
    limits = draw(st.sampled_from(["default"] * 3 + ["low"] * 8 + ["one"] * 2 + ["never"]))
    for i, w in enumerate(c["plane"]["wings"]):
        for k in ("airfoil_root", "airfoil_tip"):
            if not w[k]:
                continue
            if limits == "low" or (limits == "one" and i == 0):
                w[k]["CL_max"] = draw(gen.num(0.2, 1.2, 0.01))
            elif limits == "never":
                w[k]["CL_max"] = draw(gen.num(30, 60, 1))
    c["omit"] = draw(st.integers(0, 5)) == 0
    c["file"] = draw(st.booleans())
    if not onset:
        c["weight"] = draw(st.one_of(gen.num(0.2, 20, 0.1), gen.num(20, 5000, 5)))
        c["sign"] = draw(st.sampled_from([1, 1, 1, 1, 1, 1, 1, 1, -1]))
        c["V0"] = draw(gen.num(0.5, 100, 0.5))
        c["error"] = draw(st.sampled_from([None, None, 1e-6]))
    return c


def _scan(mu, spec, aero, ctl, ps, upto=90.):
    """First stalled step and what is stalled there."""
    g = refll.grid(spec)
    lim = refll.lerp(g, "CL_max")
    names = np.array(g.name)
    near = np.inf
    for k in range(int(round(upto * 10)) + 1):
        a = k * 0.1
        d = mu.distributions(dict(aero, alpha=a), ctl and dict(ctl), copy.deepcopy(ps))[0]
        over = d["section_CL"] - lim
        near = min(near, np.min(np.abs(over))) if np.all(np.isfinite(over)) else -1.
        if np.any(over > 0):
            where = [(names[i], 1. - g.t[i] if g.side[i] == "left" else g.t[i]) for i in np.flatnonzero(over > 0)]
            return k, where, near, g
    return None, None, near, g


def _steady(mu, spec, aero, ctl, ps, *steps):
    """Whether what is stalled at these steps is the same a hair below and above (no branch is crossed there)."""
    lim = refll.lerp(refll.grid(spec), "CL_max")
    for a in steps:
        over = [mu.distributions(dict(aero, alpha=a + e), ctl and dict(ctl), copy.deepcopy(ps))[0]["section_CL"] > lim
                for e in (-1e-9, 0., 1e-9)]
        if not (np.array_equal(over[0], over[1]) and np.array_equal(over[0], over[2])):
            return False
    return True


def _call(fn, path, *a, **kw):
    """The answer, or None when an error was reported."""
    try:
        got = fn(*a, filename=path, **kw)
    except RuntimeError:
        check(path is None, "raised although a file was requested")
        return None
    if path:
        check(os.path.exists(path), "no file")
        check(json.load(open(path)) == got, "the file does not hold the answer")
    if "error" in got:
        check(set(got) == {"error"} and path is not None, "answer %r", got)
        return None
    return got


DEFAULT = {"V_mag": 10., "rho": 0.0023769}


def _onset(c, rec):
    spec, ctl, ps = c["plane"], c["ctl"], c["prop"]
    aero = dict(DEFAULT) if c["omit"] else dict(c["aero"])
    aero.pop("alpha", None)
    g = refll.grid(spec)
    require(not g.tie)
    with gen.Scratch() as tmp:
        mu = MU.MachUp(inputAirplane=gen.build(spec, tmp))
        path = os.path.join(tmp, "stall.json") if c["file"] else None
        k, where, near, g = _scan(mu, spec, aero, ctl, ps)
        require(near > 1e-7)
        mu = MU.MachUp(inputAirplane=gen.build(spec, tmp))
        got = _call(mu.stall_onset, path, aero_state=None if c["omit"] else dict(c["aero"]),
                    control_state=ctl and dict(ctl), prop_state=copy.deepcopy(ps))
        found = [got["alpha"]] if got else []
        require(_steady(mu, spec, aero, ctl, ps, *([] if k is None else [k * 0.1]), *found))
        if k is None:
            check(got is None, "nothing stalls up to 90 degrees, but the answer is %r", got)
        else:
            check(got is not None, "stalls at %g degrees, but no stall was found", k * 0.1)
            check(set(got) == {"alpha", "lift", "stalled_wing", "span_location"}, "answer %r", sorted(got))
            close("stall angle", got["alpha"], k * 0.1, 1., 1e-6)
            check(any(n == got["stalled_wing"] and abs(x - got["span_location"]) < 1e-9 for n, x in where),
                  "%s at %r is not a stalled section; stalled are %r", got["stalled_wing"], got["span_location"],
                  where[:4])
            r = mu.solve(dict(aero, alpha=k * 0.1), ctl and dict(ctl), copy.deepcopy(ps))
            size = math.sqrt(r["FL"] ** 2 + r["FD"] ** 2 + r["FS"] ** 2) + 1e-9
            close("lift at stall", got["lift"], r["FL"], size, 1e-7)
            # the same judged by the independent model
            for j in (k - 1, k):
                s = refmodel.solve(spec, dict(aero, alpha=j * 0.1), ctl, ps)
                if j >= 0 and s.ok and s.wing:
                    over = s.wing.cl - refll.lerp(g, "CL_max")
                    if np.min(np.abs(over)) > 1e-5:
                        check(np.any(over > 0) == (j == k), "reference: stalled at %g is %r", j * .1, np.any(over > 0))
    rec.nt(k is not None and k > 0)
    rec.tag("never stalls", k is None)
    rec.tag("stalled at zero", k == 0)
    rec.tag("props", bool(spec["props"]))
    rec.tag("left wing", k is not None and got["stalled_wing"].startswith("left"))
    rec.tag("one of several", k is not None and len(spec["wings"]) > 1)
    rec.tag("file", c["file"])


def _decided(spec, aero, ctl, ps, upto):
    """Whether no step of the search is on a discontinuity, where rounding (and so the speed) decides what stalls."""
    for j in range(upto + 1):
        r = refmodel.solve(spec, dict(aero, alpha=j * 0.1), ctl, ps)
        if r.local is None or r.margin < 1e-5 or not (r.wing.ok and r.wing.cond < 1e7 and r.wing.sing > 1e-5):
            return False
    return True


def _speed(c, rec):
    try:
        _airspeed(c, rec)
    except Violation:
        spec, ctl, ps = c["plane"], c["ctl"], c["prop"]
        aero = dict(DEFAULT) if c["omit"] else dict(c["aero"], V_mag=c["V0"])
        with gen.Scratch() as tmp:
            k = _scan(MU.MachUp(inputAirplane=gen.build(spec, tmp)), spec, aero, ctl, ps)[0]
        require(_decided(spec, aero, ctl, ps, 900 if k is None else k))
        for _ in range(2):
            _airspeed(c, rec)
        raise


def _airspeed(c, rec):
    spec, ctl, ps = c["plane"], c["ctl"], c["prop"]
    aero = dict(DEFAULT) if c["omit"] else dict(c["aero"], V_mag=c["V0"])
    aero.pop("alpha", None)
    require(not refll.grid(spec).tie)
    with gen.Scratch() as tmp:
        mu = MU.MachUp(inputAirplane=gen.build(spec, tmp))
        k, where, near, g = _scan(mu, spec, aero, ctl, ps)
        require(near > 1e-6)
        can, V = False, 0.
        weight = c["weight"] * c["sign"]
        if k is not None:
            r = mu.solve(dict(aero, alpha=k * 0.1), ctl and dict(ctl), copy.deepcopy(ps))
            size = math.sqrt(r["FL"] ** 2 + r["FD"] ** 2 + r["FS"] ** 2)
            require(abs(r["FL"]) > 1e-3 * size)
            require(_steady(mu, spec, aero, ctl, ps, k * 0.1))
            can = r["FL"] * weight > 0
            V = aero["V_mag"] * math.sqrt(abs(weight / r["FL"]))
            require(0.3 < V < 2000 and abs(V / aero["V_mag"]) < 1e3)
        else:
            require(c["sign"] > 0)
        path = os.path.join(tmp, "speed.json") if c["file"] else None
        kw = {} if c["error"] is None else {"error": c["error"]}
        given = None if c["omit"] else dict(c["aero"], V_mag=c["V0"])
        got = _call(mu.stall_airspeed, path, weight, aero_state=given, control_state=ctl and dict(ctl),
                    prop_state=copy.deepcopy(ps), **kw)
        if not can:
            check(got is None, "the weight cannot be carried, but the answer is %r", got)
        else:
            check(got is not None, "%r carries the weight, but no airspeed was found", V)
            check(set(got) == {"alpha", "lift", "stalled_wing", "span_location", "airspeed"}, "answer %r", sorted(got))
            tol = 2. * (c["error"] or 1e-9) / V + 1e-8
            close("stall airspeed", got["airspeed"], V, V, tol)
            close("lift at stall", got["lift"], weight, abs(weight), 4 * tol)
            close("stall angle", got["alpha"], k * 0.1, 1., 1e-6)
            check(any(n == got["stalled_wing"] and abs(x - got["span_location"]) < 1e-9 for n, x in where),
                  "%s at %r is not a stalled section", got["stalled_wing"], got["span_location"])
            s = refmodel.solve(spec, dict(aero, alpha=got["alpha"], V_mag=got["airspeed"]), ctl, ps)
            if s.ok:
                close("reference lift at the stall speed", s.total["FL"], weight, s.fs, 1e-6 + 4 * tol)
    rec.nt(can)
    rec.tag("cannot carry", not can)
    rec.tag("props", bool(spec["props"]))
    rec.tag("file", c["file"])
    rec.tag("default state", c["omit"])


SUBS = [Sub("onset", case(), _onset, 400, 15000, "stall_onset; non-trivial: a stall angle above zero exists", shards=16),
        Sub("airspeed", case(onset=False), _speed, 130, 6000,
            "stall_airspeed; non-trivial: some airspeed carries the weight", shards=16)]
