"""C05: wing loads agree with an independent numerical lifting-line reference."""
import json
import os

import numpy as np
from hypothesis import strategies as st

from vlib import env, gen, refll
from vlib.runner import Sub
from vlib.util import KEYS, close, forces_close, require

from machup import LLModel
import machup.MU as MU

PROPERTY = "C05"
ASSUMPTIONS = [
    "domain: no control point on a bound or trailing vortex line, flow from ahead of every section, "
    "well conditioned system (stated filter benign())",
    "reference implements the same linearised method; its constants are validated against the Fortran MachUp "
    "numbers recorded in the repository's tests (selftest)",
]


@st.composite
def case(draw, **kw):
    return {"plane": draw(gen.airplane(**kw)), "aero": draw(gen.aero()),
            "ctl": draw(st.one_of(st.none(), gen.controls()))}


def _loads(c, rec):
    ref = refll.solve(c["plane"], c["aero"], c["ctl"])
    require(refll.benign(ref))
    plane = gen.build(c["plane"])
    model = LLModel(plane)
    got = model.solve("linear", dict(c["aero"]), dict(c["ctl"]) if c["ctl"] is not None else None)
    for part in ("inviscid", "viscous", "total"):
        forces_close(part, got[part], getattr(ref, part), ref.fscale, ref.mscale, 1e-7)
    g = ref.g
    rec.nt(g.n >= 2 and any(w["sweep"] or w["dihedral"] or w["mount"] or w["washout"]
                            for w in c["plane"]["wings"]))
    rec.tag("deflected", np.any(refll.deflections(g, c["ctl"])[0] != 0))
    rec.tag("beyond 11 deg", np.any(np.abs(refll.deflections(g, c["ctl"])[0]) > 11))
    rec.tag("rotating", any(k in c["aero"] for k in ("roll_rate", "pitch_rate", "yaw_rate")))
    rec.tag("several wings", len(c["plane"]["wings"]) > 1)
    rec.tag("connected", any(w["parent"] for w in c["plane"]["wings"]))
    rec.tag("vertical", any(abs(w["dihedral"]) > 60 for w in c["plane"]["wings"]))
    return ref


def _machup(c, rec):
    ref = refll.solve(c["plane"], c["aero"], c["ctl"])
    require(refll.benign(ref))
    mu = MU.MachUp(inputAirplane=gen.build(c["plane"]))
    ctl = dict(c["ctl"]) if c["ctl"] is not None else None
    forces_close("MachUp.solve", mu.solve(dict(c["aero"]), ctl), ref.total, ref.fscale, ref.mscale, 1e-7)
    wd, _ = mu.distributions(dict(c["aero"]), ctl)
    fs = np.max(np.linalg.norm(ref.forces, axis=1)) + 1e-9 * ref.fscale
    close("section forces", wd["forces_xyz"], ref.forces, fs, 1e-6)
    close("section alpha", wd["alpha"], ref.alpha, 1., 1e-7)
    close("section_CL", wd["section_CL"], ref.cl, 10., 1e-7)
    close("section_CD_parasitic", wd["section_CD_parasitic"], ref.cd, 1., 1e-7)
    close("section_Cm", wd["section_Cm"], ref.cm, 1., 1e-7)
    close("section_CL_ref", wd["section_CL_ref"], ref.cl * ref.g.c / c["plane"]["long_ref"],
          10 * np.max(ref.g.c) / c["plane"]["long_ref"], 1e-7)
    close("section_alpha_L0", wd["section_alpha_L0"], refll.lerp(ref.g, "alpha_L0"), 1., 1e-9)
    rec.nt(ref.g.n >= 2 and np.max(np.abs(ref.alpha)) > 1e-3)


def selftest():
    """The reference reproduces Fortran MachUp (numbers recorded in the repo's tests)."""
    spec = {"name": "p", "cg": [0., 0., 0.], "lat_ref": 8., "long_ref": 1., "position": None, "props": [],
            "wings": [dict(name="w", parent=None, side="both", pos=[0., 0., 0.], yoffset=0., semispan=4.,
                           sweep=0., dihedral=0., mount=0., washout=0., root_chord=1., tip_chord=1.,
                           grid=40, is_main=1, airfoil_root=dict(gen.DEFAULT_AF), airfoil_tip=None,
                           control=None)]}
    r = refll.solve(spec, {"V_mag": 10., "alpha": 5., "rho": 1.})
    assert refll.benign(r)
    # lift of a rectangular wing of aspect ratio 8: close to the closed form
    assert 25. < r.total["FL"] / 8. < 40.
    with open(os.path.join(env.VERIF, "data", "test_plane_v2.json")) as f:
        spec = gen.from_json(json.load(f))
    r = refll.solve(spec, {"V_mag": 10., "alpha": 5., "beta": 3., "rho": 1.25},
                    {"aileron": -4., "elevator": 2., "rudder": -2.})
    got = [r.inviscid[k] / (.5 * 1.25 * 100. * 430.33) for k in ("FX", "FY", "FZ")]
    fortran = (1.59681145902187e-2, -3.67421278805487e-2, -3.99215952806924e-1)
    assert np.allclose(got, fortran, rtol=0., atol=1e-12), got


SUBS = [
    Sub("loads", case(max_grid=8), _loads, 4800, 60000,
        "LLModel.solve against the reference; non-trivial: >=2 horseshoes and some sweep, dihedral, mounting "
        "angle or washout"),
    Sub("large", case(min_grid=10, max_grid=40, max_wings=2), _loads, 900, 9000,
        "as loads with 10..40 sections per segment"),
    Sub("machup", case(max_grid=6), _machup, 1200, 20000,
        "MachUp.solve and MachUp.distributions against the reference; non-trivial: >=2 horseshoes, some section "
        "at more than 1e-3 rad"),
]
