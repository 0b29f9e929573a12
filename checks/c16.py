"""C16: aerodynamic centre."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, refll, refmodel
from vlib.runner import Sub
from vlib.util import check, close, require

import machup.MU as MU

PROPERTY = "C16"
ASSUMPTIONS = ["oracle: Phillips' published relation for the general aerodynamic centre, with the lift, drag and moment "
               "models fitted by least squares to loads computed from -10 to 10 degrees; compared within 3e-5 of a chord "
               "plus ten times the change the oracle itself shows with steps of half a degree",
               "constancy of the moment is judged on conventional airplanes (aspect ratio above 4, tail out of the "
               "wing's wake) where those models fit; threshold 15% of what it is a chord away",
               "wings with dihedral up to 40 degrees, a positive reference area"]


def published(al, loads, q, ao):
    """Location relative to the reference point of the moments, in length units; condition of the fits."""
    r = np.radians(al)
    ca, sa = np.cos(r), np.sin(r)
    CN, CA = -loads[:, 1] / q, -loads[:, 0] / q
    Cm = loads[:, 2] / q          # per unit of reference length
    CL, CD = CN * ca - CA * sa, CA * ca + CN * sa

    def fit(cols, y):
        A = np.stack(cols, 1)
        size = np.linalg.norm(A, axis=0)
        x = np.linalg.lstsq(A / size, y, rcond=None)[0] / size
        return x, np.linalg.cond(A / size), np.sqrt(np.mean((A @ x - y) ** 2))
    (k1, k2), n1, e1 = fit([sa, ca], CL)
    (d0, d1, d2), n2, e2 = fit([np.ones_like(CL), CL, CL * CL], CD)
    (m0, mn, ma), n3, e3 = fit([np.sin(2 * r), CN, CA], Cm)
    zero_lift = math.atan(-k2 / k1)
    ao = math.radians(ao)
    den = 2. * k1 + 3. * d0 - 2. * d2 * k1 * k1
    x = (4. + 2. * d0 / k1 + (12. * ao * ao - 4.) * d2 * k1) / den * m0 + mn
    z = -(4. * zero_lift + 4. * d1 + 12. * ao * d2 * k1) / den * m0 - ma
    # rounding of the normal equations is amplified by the squared conditions
    bad = max(n1, n2, n3)
    amp = bad ** 2 * (1. + 4. * abs(m0) * (1. + abs(d0 / k1) + abs(d2 * k1)) / abs(den)) + 1e-300
    rel = (e1 / np.ptp(CL), e2 / max(np.ptp(CD), 1e-4), e3 / np.ptp(CL))
    return np.array([x, z]), amp, rel, abs(den) / (abs(2. * k1) + abs(3. * d0) + abs(2. * d2 * k1 * k1))


def _loads(mu, aero, ctl, ps, al):
    return np.array([[r["FX"], r["FZ"], r["MY"]] for r in
                     (mu.solve(dict(aero, alpha=a), ctl and dict(ctl), copy.deepcopy(ps)) for a in al)])


def _chord(spec, g):
    return g.area_ref / sum(w["semispan"] * (2 if w["side"] == "both" else 1) for w in spec["wings"] if w["is_main"])


@st.composite
def case(draw):
    if draw(st.booleans()):
        c = draw(conventional())
        c.update(ctl=None, prop=None, omit=False)
        c["aero"]["beta"] = draw(gen.maybe(gen.num(-8, 8, .5), 0.))
        if draw(st.booleans()):
            w = c["plane"]["wings"][-1]
            w["control"] = draw(gen.control())
            c["ctl"] = draw(gen.controls(big=False))
        return c
    c = draw(refmodel.case(min_wings=1, max_wings=2, max_props=1, max_grid=3, vertical=False,
                           modes=("J", "none", "rps")))
    c["omit"] = draw(st.integers(0, 15)) == 0
    return c


def _published(c, rec):
    spec, ctl, ps = c["plane"], c["ctl"], c["prop"]
    aero = {"V_mag": 10., "rho": 0.0023769} if c["omit"] else c["aero"]
    g = refll.grid(spec)
    require(g.area_ref > 0 and not g.tie)
    chord = _chord(spec, g)
    with gen.Scratch() as tmp:
        mu = MU.MachUp(inputAirplane=gen.build(spec, tmp))
        # ranges centred like that of 0.05 degree steps
        al, coarse = np.arange(-9.9, 10., .25), np.arange(-9.775, 10., .5)
        loads = _loads(mu, aero, ctl, ps, al)
        require(np.all(np.isfinite(loads)))
        q = .5 * aero["rho"] * aero["V_mag"] ** 2 * g.area_ref
        require(np.ptp(loads[:, 1]) > 1e-3 * q)
        ao = aero.get("alpha", 0.)
        want, amp, rel, den = published(al, loads, q, ao)
        half = published(coarse, _loads(mu, aero, ctl, ps, coarse), q, ao)[0]
        require(den > 0.02 and amp < 1e9 and np.all(np.isfinite(want)))
        got = mu.find_aero_center(None if c["omit"] else dict(aero), ctl and dict(ctl), copy.deepcopy(ps))
    check(np.shape(got) == (3,), "answer %r", got)
    close("y of the aerodynamic centre", got[1], 0., chord, 1e-12)
    want = want + np.array([spec["cg"][0], spec["cg"][2]])
    tol = 3e-5 * chord + 10. * np.max(np.abs(want - half - [spec["cg"][0], spec["cg"][2]])) + 1e-13 * amp * chord
    require(tol < 0.3 * chord)
    close("x of the aerodynamic centre", got[0], want[0], 1., tol)
    close("z of the aerodynamic centre", got[2], want[1], 1., tol)
    rec.nt(tol < 2e-3 * chord)
    rec.tag("tight", tol < 1e-4 * chord)
    rec.tag("props", bool(spec["props"]))
    rec.tag("default state", c["omit"])
    rec.tag("several wings", len(spec["wings"]) > 1)


@st.composite
def conventional(draw):
    w = draw(gen.wing("main", sides=("both",), min_grid=3, max_grid=6, vertical=False, controls=False))
    w["pos"], w["is_main"] = [draw(gen.num(-1, 1, .1)), 0., draw(gen.num(-.3, .3, .1))], 1
    w["yoffset"] = 0.
    w["semispan"] = draw(gen.num(2, 8, .25))
    w["root_chord"] = round(w["semispan"] * draw(gen.num(.12, .45, .01)), 4)
    w["tip_chord"] = round(w["root_chord"] * draw(gen.num(.4, 1., .05)), 4)
    w["dihedral"] = draw(gen.num(-8, 12, 1))
    w["sweep"] = draw(gen.num(-20, 30, 1))
    wings = [w]
    if draw(st.booleans()):
        t = draw(gen.wing("tail", sides=("both",), min_grid=2, max_grid=4, vertical=False, controls=False))
        t["pos"] = [round(w["pos"][0] - w["root_chord"] * draw(gen.num(2., 5., .25)), 4), 0.,
                    round(w["pos"][2] - w["semispan"] * draw(gen.num(.35, .6, .05)), 4)]
        t["yoffset"], t["is_main"] = 0., 0
        t["dihedral"], t["sweep"] = draw(gen.num(-5, 10, 1)), draw(gen.num(-10, 25, 1))
        t["semispan"] = round(w["semispan"] * draw(gen.num(.2, .45, .05)), 4)
        t["root_chord"] = t["tip_chord"] = round(w["root_chord"] * draw(gen.num(.4, .8, .05)), 4)
        wings.append(t)
    plane = {"name": "plane", "cg": [draw(gen.num(-1, 1, .05)), 0., draw(gen.num(-.3, .3, .05))], "units": None,
             "lat_ref": 8., "long_ref": draw(gen.num(.3, 3, .1)), "position": None, "wings": wings, "props": []}
    return {"plane": plane, "aero": dict(draw(gen.aero(rates=False, beta=False)), alpha=draw(gen.num(-4, 8, .5))),
            "move": [draw(gen.num(-3, 3, .1)) for _ in range(3)], "cg": [draw(gen.num(-3, 3, .1)), 0., draw(gen.num(-1, 1, .1))],
            "long": draw(gen.num(.2, 5, .1)), "scale": draw(st.sampled_from([1., .5, 3., .3048])),
            "V": draw(gen.num(2, 100, 1)), "rho": draw(st.sampled_from([.0023769, 1.225, 2.])),
            "what": draw(st.sampled_from(["cg", "move", "scale", "speed", "long", "all"]))}


def _constancy(c, rec):
    spec, aero = c["plane"], c["aero"]
    mu = MU.MachUp(inputAirplane=gen.build(spec))
    ac = np.array(mu.find_aero_center(dict(aero)))
    al = np.arange(-10., 10.1, 1.)
    loads = _loads(mu, aero, None, None, al)
    require(np.all(np.isfinite(loads)))
    g = refll.grid(spec)
    chord = _chord(spec, g)
    _, _, rel, _ = published(al, loads, .5 * aero["rho"] * aero["V_mag"] ** 2 * g.area_ref, aero["alpha"])
    require(rel[0] < .01 and rel[1] < .02 and rel[2] < .01 * chord)
    d = np.array(spec["cg"]) - ac

    def slope(dx, dz):
        # moment about the point (ac + (dx, 0, dz)): M + (cg - point) x F
        x, z = d[0] - dx, d[2] - dz
        return np.polyfit(al, loads[:, 2] + z * loads[:, 0] - x * loads[:, 1], 1)[0]
    here = abs(slope(0., 0.))
    away = abs(slope(chord, 0.) - slope(-chord, 0.)) / 2.
    check(here < 0.15 * away, "the moment about the reported point changes by %.3g per degree, a chord away by %.3g", here, away)
    rec.nt()
    rec.tag("with tail", len(spec["wings"]) > 1)
    rec.tag("within a twentieth of a chord", here < 0.05 * away)


def _invariant(c, rec):
    spec, aero = c["plane"], c["aero"]
    a = np.array(MU.MachUp(inputAirplane=gen.build(spec)).find_aero_center(dict(aero)))
    other, aero2 = copy.deepcopy(spec), dict(aero)
    what, want = c["what"], a.copy()
    if what in ("cg", "all"):
        other["cg"] = list(c["cg"])
    if what in ("long", "all"):
        other["long_ref"] = c["long"]
        other["lat_ref"] = 2. * c["long"]
    if what in ("speed", "all"):
        aero2.update(V_mag=c["V"], rho=c["rho"])
    if what in ("scale", "all"):
        s = c["scale"]
        for w in other["wings"]:
            for k in ("semispan", "root_chord", "tip_chord", "yoffset"):
                w[k] *= s
            w["pos"] = [x * s for x in w["pos"]]
        other["cg"] = [x * s for x in other["cg"]]
        want *= s
    if what in ("move", "all"):
        m = np.array(c["move"])
        for w in other["wings"]:
            w["pos"] = list(np.array(w["pos"]) + m)
        other["cg"] = list(np.array(other["cg"]) + m) if what == "move" else other["cg"]
        want += [m[0], 0., m[2]]
    b = np.array(MU.MachUp(inputAirplane=gen.build(other)).find_aero_center(aero2))
    require(np.all(np.isfinite(a)))
    g = refll.grid(spec)
    chord = _chord(spec, g) * (c["scale"] if what in ("scale", "all") else 1.)
    size = chord + np.max(np.abs(other["cg"])) + np.max(np.abs(want)) + max(abs(x) for w in other["wings"] for x in w["pos"])
    close("x (%s)" % what, b[0], want[0], size, 1e-6)
    close("z (%s)" % what, b[2], want[2], size, 1e-6)
    rec.nt()
    rec.tag(what)


SUBS = [Sub("published", case(), _published, 360, 12000,
            "find_aero_center against the published relation; non-trivial: oracle certain to 0.2% of a chord", shards=16),
        Sub("constancy", conventional(), _constancy, 160, 6000,
            "moment about the answer over -10..10 degrees; non-trivial: every case", shards=8),
        Sub("invariant", conventional(), _invariant, 200, 6000,
            "two airplanes related by CG, translation, scale, speed, density, reference length; every case", shards=8)]
