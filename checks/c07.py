"""C07: loads follow dimensional analysis."""
import copy

from hypothesis import strategies as st

from vlib import gen, refmodel
from vlib.runner import Sub
from vlib.util import FK, KEYS, close, require

import machup.MU as MU

PROPERTY = "C07"
ASSUMPTIONS = ["non-dimensional rates (rate times length over speed) and advance ratios are kept when speed or size "
               "change", "unique propulsive propeller states, well conditioned wings, no wing point on the edge of a "
               "slipstream"]
RATES = ("roll_rate", "pitch_rate", "yaw_rate")


def scale_spec(spec, k):
    s = copy.deepcopy(spec)
    s["cg"] = [k * x for x in s["cg"]]
    s["lat_ref"] *= k
    s["long_ref"] *= k
    for w in s["wings"]:
        w["pos"] = [k * x for x in w["pos"]]
        for f in ("yoffset", "semispan", "root_chord", "tip_chord"):
            w[f] *= k
    for p in s["props"]:
        p["pos"] = [k * x for x in p["pos"]]
        p["diameter"] *= k
        p["hub"] *= k
        if p["pitch"]["type"] == "value":
            p["pitch"]["value"] *= k
        for f in ("root", "tip"):
            if f in p["chord"]:
                p["chord"][f] *= k
    return s


def scale_ps(ps, kn):
    ps = copy.deepcopy(ps)
    if ps:
        for d in [ps] + [v for v in ps.values() if isinstance(v, dict)]:
            if "rot_per_sec" in d:
                d["rot_per_sec"] *= kn
    return ps


def scale_aero(aero, k_rho, k_v, k_l):
    a = dict(aero, rho=aero["rho"] * k_rho, V_mag=aero["V_mag"] * k_v)
    for r in RATES:
        if r in a:
            a[r] *= k_v / k_l
    return a


@st.composite
def case(draw):
    c = draw(refmodel.case(max_wings=2, max_props=2, max_grid=5, prop_kw={"tables": True}))
    f = st.sampled_from([0.25, 0.5, 1., 2., 3.7, 8., 0.001, 0.03, 40., 1000.])
    c["k"] = [draw(f), draw(f), draw(f)]
    c["names"] = draw(st.booleans())
    c["ref"] = draw(st.booleans())
    return c


def run(spec, aero, ctl, ps):
    with gen.Scratch() as tmp:
        mu = MU.MachUp(inputAirplane=gen.build(spec, tmp))
    return mu.solve(dict(aero), ctl and dict(ctl), copy.deepcopy(ps))


def _scale(c, rec):
    spec, aero, ctl, ps = c["plane"], c["aero"], c["ctl"], c["prop"]
    r = refmodel.solve(spec, aero, ctl, ps)
    require(r.ok)
    base = run(spec, aero, ctl, ps)
    kr, kv, kl = c["k"]

    def compare(what, got, kf, km):
        for k in KEYS:
            f, s = (kf, r.fs) if k in FK else (km, r.ms)
            close("%s: %s" % (what, k), got[k] / f, base[k], s, 1e-7)
    compare("density x %g" % kr, run(spec, scale_aero(aero, kr, 1, 1), ctl, ps), kr, kr)
    compare("speed x %g" % kv, run(spec, scale_aero(aero, 1, kv, 1), ctl, scale_ps(ps, kv)), kv**2, kv**2)
    compare("size x %g" % kl, run(scale_spec(spec, kl), scale_aero(aero, 1, 1, kl), ctl, scale_ps(ps, 1. / kl)),
            kl**2, kl**3)
    q = kr * kv**2
    s = scale_spec(spec, kl)
    if c["names"]:
        s["name"] = "another name"
    if c["ref"]:
        s["lat_ref"], s["long_ref"] = 3.21, 0.77
    compare("all (%g, %g, %g)" % (kr, kv, kl), run(s, scale_aero(aero, kr, kv, kl), ctl, scale_ps(ps, kv / kl)),
            q * kl**2, q * kl**3)
    rec.nt(kr != 1 and kv != 1 and kl != 1 and (spec["props"] or any(k in aero for k in RATES) or len(spec["wings"]) > 1))
    rec.tag("props", bool(spec["props"]))
    rec.tag("in slipstream", bool(r.washed.any()))
    rec.tag("rotating", any(k in aero for k in RATES))


SUBS = [Sub("scale", case(), _scale, 1500, 25000,
            "density, speed, size and all together; non-trivial: all three factors differ from one and there are "
            "propellers, rates or several wings", shards=8)]
