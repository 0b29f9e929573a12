"""C13: derivatives are rates of change of the non-dimensional loads."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, refll, refmodel
from vlib.runner import Sub
from vlib.util import check, close, require

import machup.MU as MU

PROPERTY = "C13"
ASSUMPTIONS = ["rate of change: limit of central differences; tolerance three times the change between a step and half "
               "of it (steps 0.5 degrees, 0.25 degrees, 0.005 of the non-dimensional rate) plus round-off",
               "unique propulsive propeller states, well conditioned wings, no wing point on the edge of a slipstream",
               "non-dimensional rates: rate times reference length over twice the speed (lateral for roll and yaw, "
               "longitudinal for pitch)"]
LOADS = (("CL", "FL"), ("CD", "FD"), ("CS", "FS"), ("CX", "FX"), ("CY", "FY"), ("CZ", "FZ"),
         ("Cl", "MX"), ("Cm", "MY"), ("Cn", "MZ"))
DEFAULT = {"V_mag": 10., "rho": 0.0023769, "alpha": 0.}


@st.composite
def case(draw, max_props=0, **kw):
    c = draw(refmodel.case(min_wings=1, max_wings=3, min_props=max_props, max_props=max_props, max_grid=5, **kw))
    a = c["aero"]
    for k in ("roll_rate", "pitch_rate", "yaw_rate"):
        if draw(st.integers(0, 2)) == 0:
            a[k] = round(draw(gen.num(-0.2, 0.2, 0.01)) * a["V_mag"] / 10., 8)
    c["omit"] = draw(st.sampled_from(["", "", "", "", "aero"]))
    for w in c["plane"]["wings"]:
        if not w["control"] and draw(st.booleans()):
            w["control"] = draw(gen.control())
    return c


def _check(c, rec):
    spec, ctl, ps = c["plane"], c["ctl"], c["prop"]
    aero = None if c["omit"] == "aero" else c["aero"]
    at = aero or DEFAULT
    if aero is None and spec["props"]:
        ps = {"J": 0.5}
    r = refmodel.solve(spec, at, ctl, ps)
    require(r.ok)
    with gen.Scratch() as tmp:
        mu = MU.MachUp(inputAirplane=gen.build(spec, tmp))
        ref = MU.MachUp(inputAirplane=gen.build(spec, tmp))
    require(r.wing.g.area_ref > 0)
    DP = 0.5 * at["rho"] * at["V_mag"] ** 2 * r.wing.g.area_ref

    def get(name):
        return getattr(mu, name)(aero and dict(aero), ctl and dict(ctl), copy.deepcopy(ps))
    stab, cont, damp = get("stability_derivatives"), get("control_derivatives"), get("damping_derivatives")

    def at_offset(group, key, dx):
        a, k = dict(at), dict(ctl or {})
        (a if group == "aero" else k)[key] = (a if group == "aero" else k).get(key, 0.) + dx
        return ref.solve(a, k, copy.deepcopy(ps))

    def difference(group, key, h, per):
        f, b = at_offset(group, key, h), at_offset(group, key, -h)
        return {k: (f[k] - b[k]) / (2. * per) for _, k in LOADS}
    V = at["V_mag"]
    jobs = [(stab, "aero", "alpha", "a", 0.5, math.radians(0.5)), (stab, "aero", "beta", "b", 0.5, math.radians(0.5))]
    for key, s in (("aileron", "da"), ("elevator", "de"), ("rudder", "dr"), ("flap", "df")):
        jobs.append((cont, "ctl", key, s, 0.25, math.radians(0.25)))
    for key, s, ln in (("roll_rate", "pbar", spec["lat_ref"]), ("pitch_rate", "qbar", spec["long_ref"]),
                       ("yaw_rate", "rbar", spec["lat_ref"])):
        jobs.append((damp, "aero", key, s, 0.005 * 2 * V / ln, 0.005))
    keys = {id(stab): set(), id(cont): set(), id(damp): set()}
    scale_f, scale_m = r.fs / DP, r.ms / DP
    tight = 1e-5 if spec["props"] else 1e-7
    big = 0
    for table, group, key, suffix, h, per in jobs:
        d1, d2 = difference(group, key, h, per), difference(group, key, h / 2., per / 2.)
        for c_name, load in LOADS:
            name = "%s_%s" % (c_name, suffix)
            keys[id(table)].add(name)
            check(name in table, "derivative %s is missing", name)
            ln = {"Cl": spec["lat_ref"], "Cm": spec["long_ref"], "Cn": spec["lat_ref"]}.get(c_name, 1.)
            a, b = d1[load] / DP / ln, d2[load] / DP / ln
            scale = scale_f if load[0] == "F" else scale_m / ln
            lim = 3. * abs(a - b) + tight * scale
            check(abs(table[name] - b) <= lim, "%s = %r, but the loads change by %r (+-%.2g) per unit", name,
                  table[name], b, lim)
            big += abs(b) > 1e-3 * scale
    for t, what in ((stab, "stability"), (cont, "control"), (damp, "damping")):
        check(set(t) == keys[id(t)], "%s derivatives contain %s", what, sorted(set(t) ^ keys[id(t)]))
    if abs(stab["CL_a"]) > 1e-6 * scale_f:
        with gen.Scratch() as tmp:
            other = MU.MachUp(inputAirplane=gen.build(spec, tmp))
        d = other.derivatives(aero and dict(aero), ctl and dict(ctl), copy.deepcopy(ps))
        for nm, t in (("stability", stab), ("control", cont), ("damping", damp)):
            for k, v in t.items():
                close("derivatives() %s" % k, d[nm + "_derivatives"][k], v,
                      abs(v) + (scale_f if k[1] in "LDSXYZ" else scale_m), 1e-8)
        want = -stab["Cm_a"] / stab["CL_a"]
        close("static margin", d["stability_derivatives"]["static_margin"], want, abs(want) + 1e-6, 1e-6)
    rec.nt(big >= 10)
    rec.tag("at nonzero rates", any(k.endswith("rate") for k in at))
    rec.tag("control derivatives", any(w["control"] for w in spec["wings"]))
    rec.tag("default state", aero is None)
    rec.tag("props", bool(spec["props"]))


SUBS = [Sub("wings", case(), _check, 1800, 30000,
            "all 81 derivatives of wings; non-trivial: at least ten of them exceed 1e-3 of the load scale", shards=16),
        Sub("props", case(max_props=1, modes=("J", "rps", "none")), _check, 480, 8000,
            "the same with a propeller ahead of the wings; non-trivial: as wings", shards=16)]
