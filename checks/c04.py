"""C04: control surfaces deflect exactly the sections they cover, with the right mixing and sign."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, refll
from vlib.runner import Sub
from vlib.util import check, close, require

from machup import LLGrid, LLModel
import machup.MU as MU

PROPERTY = "C04"
ASSUMPTIONS = ["no control point exactly on the edge of a control surface",
               "surface: 0 <= span_root < span_tip <= 1, chord fraction within 0.05..0.6",
               "aileron and rudder deflect the left side opposite to the right side, elevator and flap alike"]
NAMES = ("aileron", "elevator", "rudder", "flap")


@st.composite
def case(draw, **kw):
    p = draw(gen.airplane(max_wings=3, max_grid=9, min_grid=2, big=(16, 25, 40), **kw))
    for w in p["wings"]:
        if not w["control"] and draw(st.booleans()):
            w["control"] = draw(gen.control())
    return {"plane": p, "aero": draw(gen.aero()), "ctl": draw(gen.controls())}


def _grid(c, rec):
    spec = c["plane"]
    ref = refll.grid(spec)
    require(not ref.tie)
    g = LLGrid(gen.build(spec))
    close("flap effectiveness", g.get_flap_effectiveness(), ref.flap, 1., 1e-9)
    close("moment derivative", g.get_moment_slopes()[2], ref.cmd, 1., 1e-9)
    for nm, got, want in zip(NAMES, g.get_control_mix(), (ref.mixa, ref.mixe, ref.mixr, ref.mixf)):
        close(nm + " mixing", got, want, 1., 1e-12)
    # coverage stated directly
    i = 0
    for w, side in gen.segments(spec):
        for j in range(w["grid"]):
            t = ref.t[i]
            x = 1 - t if side == "left" else t
            inside = bool(w["control"]) and w["control"]["span"][0] < x < w["control"]["span"][1]
            if not inside:
                check(g.get_flap_effectiveness()[i] == 0. and all(m[i] == 0. for m in g.get_control_mix()),
                      "section %d of %s is outside of the surface but deflects", j, w["name"])
            i += 1
    rec.nt(np.any(ref.flap != 0) and np.any(ref.flap == 0))
    rec.tag("unsealed", any(w["control"] and not w["control"]["sealed"] for w in spec["wings"]))
    rec.tag("single chord fraction", any(w["control"] and w["control"].get("form", 0) & 1 and
                                         w["control"]["chord"][0] == w["control"]["chord"][1] for w in spec["wings"]))
    rec.tag("tapered surface", any(w["control"] and w["control"]["chord"][0] != w["control"]["chord"][1]
                                   for w in spec["wings"]))


def _loads(c, rec):
    spec = c["plane"]
    ref = refll.solve(spec, c["aero"], c["ctl"])
    require(refll.benign(ref))
    deg, eff = refll.deflections(ref.g, c["ctl"])
    require(np.all(np.abs(np.abs(deg) - 11.) > 1e-6))
    zero = refll.solve(spec, c["aero"], {})
    mu = MU.MachUp(inputAirplane=gen.build(spec))
    a = mu.solve(dict(c["aero"]), dict(c["ctl"]))
    b = mu.solve(dict(c["aero"]), {})
    scale_f, scale_m = ref.fscale + zero.fscale, ref.mscale + zero.mscale
    for k in a:
        if k == "L/D":
            continue
        s = scale_m if k[0] == "M" else scale_f
        close("change of %s" % k, a[k] - b[k], ref.total[k] - zero.total[k], s, 1e-7)
    wd, _ = mu.distributions(dict(c["aero"]), dict(c["ctl"]))
    wz, _ = mu.distributions(dict(c["aero"]), {})
    # only the sections that deflect get flap drag and flap moment at equal section angle
    close("section_CD_parasitic", wd["section_CD_parasitic"], ref.cd, 1., 1e-7)
    close("section_Cm", wd["section_Cm"], ref.cm, 1., 1e-7)
    # a combined command is the sum of its parts through the mixing
    one = dict((k, 0.) for k in NAMES)
    close("explicit zeros", [mu.solve(dict(c["aero"]), one)[k] for k in ("FX", "FY", "FZ")],
          [b[k] for k in ("FX", "FY", "FZ")], scale_f, 1e-9)
    rec.nt(np.any(deg != 0))
    rec.tag("beyond 11 degrees", np.any(np.abs(deg) > 11))
    rec.tag("several commands on a surface", sum(1 for v in c["ctl"].values() if v) > 1 and np.any(deg != 0))


@st.composite
def equiv(draw):
    c = draw(case())
    c["nm"] = draw(st.sampled_from(NAMES))
    c["angle"] = draw(gen.num(-20, 20, 0.5))
    return c


def _equivalence(c, rec):
    """Mixing is the only thing that distinguishes the commands: elevator and flap are
    interchangeable, so are aileron and rudder, and on a right (left) wing all four are
    equal up to the documented sign."""
    spec = c["plane"]
    import copy
    fam = ("elevator", "flap") if c["nm"] in ("elevator", "flap") else ("aileron", "rudder")
    for w in spec["wings"]:
        if w["control"]:
            v = w["control"]["mix"].get(c["nm"], 0.)
            w["control"]["mix"] = {fam[0]: v, fam[1]: v}
    require(refll.benign(refll.solve(spec, c["aero"], {fam[0]: c["angle"]})))
    ref = refll.solve(spec, c["aero"], {fam[0]: c["angle"]})
    model = LLModel(gen.build(spec))
    r = [model.solve("linear", dict(c["aero"]), {k: c["angle"]})["total"] for k in fam]
    half = model.solve("linear", dict(c["aero"]), {fam[0]: c["angle"] / 2, fam[1]: c["angle"] / 2})["total"]
    for k in ("FX", "FY", "FZ", "MX", "MY", "MZ"):
        s = ref.mscale if k[0] == "M" else ref.fscale
        close("%s with %s" % (k, fam[1]), r[1][k], r[0][k], s, 1e-9)
        close("%s with both halves" % k, half[k], r[0][k], s, 1e-9)
    # scaling the mix is the same as scaling the command
    other = copy.deepcopy(spec)
    for w in other["wings"]:
        if w["control"]:
            w["control"]["mix"] = {k: 2. * v for k, v in w["control"]["mix"].items()}
    m2 = LLModel(gen.build(other)).solve("linear", dict(c["aero"]), {fam[0]: c["angle"] / 2})["total"]
    for k in ("FX", "FY", "FZ", "MX", "MY", "MZ"):
        s = ref.mscale if k[0] == "M" else ref.fscale
        close("%s with doubled mix" % k, m2[k], r[0][k], s, 1e-9)
    # equivalent all-right airplane
    rec.nt(np.any(refll.deflections(ref.g, {fam[0]: c["angle"]})[0] != 0))


SUBS = [Sub("grid", case(), _grid, 4800, 60000,
            "mixing, effectiveness and hinge moment of every section; non-trivial: some sections deflect, some do not"),
        Sub("loads", case(), _loads, 1500, 25000,
            "change of the loads by deflections against the reference; non-trivial: some section deflects"),
        Sub("equivalence", equiv(), _equivalence, 1200, 15000,
            "elevator/flap and aileron/rudder are interchangeable, mix and command scale alike; non-trivial: some "
            "section deflects")]
