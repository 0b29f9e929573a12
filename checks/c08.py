"""C08: mirrored airplane, mirrored loads."""
import copy

from hypothesis import strategies as st

from vlib import gen, refmodel
from vlib.runner import Sub
from vlib.util import FK, KEYS, close, require

import machup.MU as MU

PROPERTY = "C08"
ASSUMPTIONS = ["unique propulsive propeller states, well conditioned wings, no wing point on the edge of a slipstream"]
FLIP = {"CCW": "CW", "CW": "CCW", "ccw": "cw", "cw": "ccw", 1: -1, -1: 1}
ODD = ("FY", "FS", "MX", "MZ")


def mirror(spec):
    s = copy.deepcopy(spec)
    s["cg"][1] *= -1.
    for w in s["wings"]:
        w["side"] = {"left": "right", "right": "left", "both": "both"}[w["side"]]
        w["pos"][1] *= -1.
    for p in s["props"]:
        p["pos"][1] *= -1.
        p["orient"][1] *= -1.
        p["rot_dir"] = FLIP[p["rot_dir"]]
    return s


def mirror_state(aero, ctl):
    a = dict(aero)
    for k in ("beta", "roll_rate", "yaw_rate"):
        if k in a:
            a[k] = -a[k]
    if ctl:
        ctl = dict(ctl)
        for k in ("aileron", "rudder"):
            if k in ctl:
                ctl[k] = -ctl[k]
    return a, ctl


def run(spec, aero, ctl, ps):
    with gen.Scratch() as tmp:
        mu = MU.MachUp(inputAirplane=gen.build(spec, tmp))
    return mu.solve(dict(aero), ctl and dict(ctl), copy.deepcopy(ps))


def _mirror(c, rec):
    spec, aero, ctl, ps = c["plane"], c["aero"], c["ctl"], c["prop"]
    # a wing on both sides with a lateral position is not its own mirror image, but both
    # root positions share it, so that mirroring is still negating it
    r = refmodel.solve(spec, aero, ctl, ps)
    require(r.ok)
    a = run(spec, aero, ctl, ps)
    m_aero, m_ctl = mirror_state(aero, ctl)
    b = run(mirror(spec), m_aero, m_ctl, ps)
    for k in KEYS:
        close("mirrored %s" % k, b[k], -a[k] if k in ODD else a[k], r.fs if k in FK else r.ms, 1e-7)
    rec.nt(abs(a["FY"]) > 1e-6 * r.fs and (abs(a["MX"]) + abs(a["MZ"])) > 1e-6 * r.ms)
    rec.tag("props", bool(spec["props"]))
    rec.tag("one-sided", any(w["side"] != "both" for w in spec["wings"]))
    rec.tag("control", bool(ctl) and any(w["control"] for w in spec["wings"]))
    rec.tag("in slipstream", bool(r.washed.any()))


@st.composite
def symmetric(draw):
    c = draw(refmodel.case(max_wings=3, max_props=1, max_grid=5))
    s = c["plane"]
    s["cg"][1] = 0.
    for w in s["wings"]:
        w["side"], w["pos"][1] = "both", 0.
        w["yoffset"] = w["yoffset"] or 0.05
    if s["props"]:
        p = s["props"][0]
        old, p["name"] = p["name"], "right"
        q = copy.deepcopy(p)
        q["name"] = "left"
        q["pos"][1] *= -1
        q["orient"][1] *= -1
        q["rot_dir"] = FLIP[q["rot_dir"]]
        s["props"].append(q)
        if c["prop"] and old in c["prop"]:
            c["prop"] = {"right": c["prop"][old], "left": c["prop"][old]}
    for k in ("beta", "roll_rate", "yaw_rate"):
        c["aero"].pop(k, None)
    for k in ("aileron", "rudder"):
        (c["ctl"] or {}).pop(k, None)
    return c


def _symmetric(c, rec):
    spec, aero, ctl, ps = c["plane"], c["aero"], c["ctl"], c["prop"]
    r = refmodel.solve(spec, aero, ctl, ps)
    require(r.ok)
    a = run(spec, aero, ctl, ps)
    for k in ODD:
        close("symmetric airplane, %s" % k, a[k], 0., r.fs if k in FK else r.ms, 1e-7)
    rec.nt(len(spec["wings"]) + len(spec["props"]) > 1)
    rec.tag("props", bool(spec["props"]))


SUBS = [Sub("mirror", refmodel.case(max_wings=3, max_props=2, max_grid=5), _mirror, 2100, 30000,
            "airplane against its mirror image; non-trivial: the loads are not symmetric", shards=8),
        Sub("symmetric", symmetric(), _symmetric, 1500, 20000,
            "symmetric airplane and flow have no lateral loads; non-trivial: more than one wing or propeller", shards=8)]
