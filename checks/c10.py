"""C10: rotation rates and local flow fields."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, refll, refprop
from vlib.runner import Sub
from vlib.util import check, close, forces_close, require

from machup import LLGrid, LLModel
import machup.MU as MU

PROPERTY = "C10"
ASSUMPTIONS = ["flow from ahead of every section, well conditioned lifting-line system",
               "given fields: local velocities within 25% of the freestream, densities within a factor of two"]
RATES = ("roll_rate", "pitch_rate", "yaw_rate")
WIND = ("FX", "FY", "FZ", "MX", "MY", "MZ")


@st.composite
def case(draw):
    plane = draw(gen.airplane(max_wings=3, max_grid=6))
    aero = draw(gen.aero(rates=False))
    for k in draw(st.lists(st.sampled_from(RATES), min_size=1, max_size=3, unique=True)):
        aero[k] = round(draw(gen.num(-0.3, 0.3, 0.01)) * aero["V_mag"] / 10., 8)
    return {"plane": plane, "aero": aero, "ctl": draw(st.one_of(st.none(), gen.controls())),
            "field": draw(st.integers(0, 2 ** 31)), "rough": draw(st.sampled_from([0., 0.02, 0.1, 0.25])),
            "drop": draw(st.lists(st.sampled_from(RATES), max_size=2, unique=True))}


def _plain(aero):
    return {k: v for k, v in aero.items() if k not in RATES}


def _solve(spec, aero, ctl, local=None):
    st_ = dict(aero)
    if local is not None:
        st_["local_state"] = local.copy()
    return LLModel(gen.build(spec)).solve("linear", st_, ctl and dict(ctl))


def _rates(c, rec):
    spec, aero, ctl = c["plane"], c["aero"], c["ctl"]
    ref = refll.solve(spec, aero, ctl)
    require(refll.benign(ref))
    n = ref.g.n
    a = _solve(spec, aero, ctl)
    pts = np.array(LLGrid(gen.build(spec)).get_control_point_pos())
    om = np.array([aero.get(k, 0.) for k in RATES])
    local = np.empty((n, 4))
    local[:, 0] = aero["rho"]
    local[:, 1:] = aero["V_mag"] * refprop.flow_dir(aero) - np.cross(om, pts - np.array(spec["cg"]))
    b = _solve(spec, _plain(aero), ctl, local)
    for part in ("inviscid", "viscous", "total"):
        forces_close("rates as local velocities, " + part, b[part], a[part], ref.fscale, ref.mscale, 1e-7)
        forces_close("rotating, " + part, a[part], getattr(ref, part), ref.fscale, ref.mscale, 1e-7)
    # part of the rates given as local flow, the rest as rates
    kept = {k: v for k, v in aero.items() if k not in c["drop"]}
    om2 = np.array([aero.get(k, 0.) if k in c["drop"] else 0. for k in RATES])
    local[:, 1:] = aero["V_mag"] * refprop.flow_dir(aero) - np.cross(om2, pts - np.array(spec["cg"]))
    d = _solve(spec, kept, ctl, local)
    forces_close("rates and local velocities together", d["total"], a["total"], ref.fscale, ref.mscale, 1e-7)
    # omitted rates are zero rates
    full = dict(aero, **{k: aero.get(k, 0.) for k in RATES})
    forces_close("omitted rates", _solve(spec, full, ctl)["total"], a["total"], ref.fscale, ref.mscale, 1e-9)
    mu = MU.MachUp(inputAirplane=gen.build(spec)).solve(dict(aero), ctl and dict(ctl))
    forces_close("MachUp.solve with rates", mu, ref.total, ref.fscale, ref.mscale, 1e-7)
    rec.nt(np.any(om != 0) and n > 1)
    rec.tag("all three rates", np.all(om != 0))
    rec.tag("cg away from the origin", any(spec["cg"]))


def _field(c, rec):
    spec, aero, ctl = c["plane"], c["aero"], c["ctl"]
    if c["field"] % 2:
        aero = _plain(aero)
    g = refll.grid(spec)
    rng = np.random.RandomState(c["field"] % (2 ** 31))
    V = aero["V_mag"]
    local = np.empty((g.n, 4))
    local[:, 0] = aero["rho"] * (1. + (rng.rand(g.n) if c["rough"] else 0.))
    local[:, 1:] = V * refprop.flow_dir(aero) + c["rough"] * V * (2 * rng.rand(g.n, 3) - 1)
    ref = refll.solve(spec, aero, ctl, local=local, g=g)
    require(refll.benign(ref))
    got = _solve(spec, aero, ctl, local)
    for part in ("inviscid", "viscous", "total"):
        forces_close("local field, " + part, got[part], getattr(ref, part), ref.fscale, ref.mscale, 1e-7)
    mu = MU.MachUp(inputAirplane=gen.build(spec)).solve(dict(aero, local_state=local.copy()), ctl and dict(ctl))
    forces_close("MachUp.solve with a local field", mu, ref.total, ref.fscale, ref.mscale, 1e-7)
    # density in the state is irrelevant when the field is given
    other = _solve(spec, dict(aero, rho=17.), ctl, local)
    forces_close("rho next to a local field", other["total"], got["total"], ref.fscale, ref.mscale, 1e-9)
    if c["rough"] == 0.:
        plain = _solve(spec, aero, ctl)
        forces_close("uniform field", got["total"], plain["total"], ref.fscale, ref.mscale, 1e-9)
    # without a speed the mean of the field is the direction of the wind
    mean = np.mean(local[:, 1:], axis=0)
    free = {k: v for k, v in aero.items() if k in RATES}
    as_state = dict(free, V_mag=float(np.linalg.norm(mean)), rho=1.,
                    alpha=math.degrees(math.atan(mean[2] / mean[0])),
                    beta=math.degrees(math.atan(mean[1] / mean[0])))
    ref2 = refll.solve(spec, as_state, ctl, local=local, g=g)
    require(refll.benign(ref2))
    got2 = _solve(spec, free, ctl, local)
    for part in ("inviscid", "viscous", "total"):
        forces_close("field without V_mag, " + part, got2[part], getattr(ref2, part), ref2.fscale, ref2.mscale, 1e-7)
    rec.nt(c["rough"] > 0 and g.n > 1)
    rec.tag("with rates", any(k in aero for k in RATES))
    rec.tag("uniform", c["rough"] == 0)


SUBS = [Sub("rates", case(), _rates, 2400, 40000,
            "rates against equivalent local velocities and the reference; non-trivial: rotating, several sections"),
        Sub("field", case(), _field, 2400, 40000,
            "random local fields against the reference; non-trivial: non uniform field, several sections")]
