"""C18: propeller sections, operating point and loads."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, refmodel, refprop
from vlib.runner import Sub
from vlib.util import KEYS, check, close, forces_close, require

from machup import PropModel, PropsSolver
import machup.MU as MU

PROPERTY = "C18"
ASSUMPTIONS = ["operating points at which Goldstein's condition has exactly one solution at every radial node (scan of 200 "
               "points) between zero induced angle and zero lift",
               "no section within 1e-6 rad of the steps of the section model (zero, stall angles)",
               "at zero airspeed and zero advance ratio the rotation rate is given",
               "tolerances: 1e-7 in angles and section coefficients, 1e-6 of the load scale"]


@st.composite
def case(draw):
    p = draw(gen.prop("p", tables=True))
    aero = draw(gen.aero())
    how = draw(st.sampled_from(["J"] * 8 + ["wide", "wide", "rps", "rps", "none", "static", "static", "zero J"]))
    J = draw(gen.num(.02, 1., .02))
    ps = {"J": {"J": J}, "wide": {"J": draw(gen.num(.8, 3., .05))}, "rps": {"rot_per_sec": draw(gen.num(2, 200, 1))},
          "none": None, "static": {"J": 0., "rot_per_sec": draw(gen.num(2, 200, 1))},
          "zero J": {"J": 0., "rot_per_sec": draw(gen.num(2, 200, 1))}}[how]
    if how == "static":
        aero["V_mag"] = 0.
    if how == "rps":
        aero["V_mag"] = round(J * ps["rot_per_sec"] * p["diameter"], 6)
    return {"prop": p, "aero": aero, "ps": ps, "how": how,
            "cg": [draw(gen.num(-3, 3, .1)) for _ in range(3)], "named": draw(st.booleans())}


def _plane(c):
    return {"name": "plane", "cg": c["cg"], "units": None, "lat_ref": 1., "long_ref": 1., "position": None,
            "wings": [], "props": [c["prop"]]}


def _loads(c, rec):
    spec, p, aero = _plane(c), c["prop"], c["aero"]
    b = refprop.Blade(p)
    require(np.all(np.isfinite(b.beta)) and np.all(b.c > 0))
    if c["how"] in ("static", "zero J"):
        J, n = 0., c["ps"]["rot_per_sec"]
    else:
        J, n = refmodel.operating_point(p, aero, c["ps"])
    s = b.solve(J, windmill=True)
    require(s is not None and s.margin > 1e-6)
    u = refprop.flow_dir(aero)
    T, l, F, M = b.loads(s, n, aero["rho"], u, np.array(c["cg"]))
    want = dict(refmodel.pack(F, M, u), Thrust=T, Torque=l)
    q4 = aero["rho"] * n * n * b.d ** 4
    fs = q4 * (s.scale + abs(s.CN))
    ms = q4 * (s.scale + abs(s.CN) + abs(s.Cn)) * (b.d + np.linalg.norm(b.pos - np.array(c["cg"])))
    ps = c["ps"]
    if c["named"] and ps:
        ps = {"p": dict(ps), "q": {"J": 7.}}
    with gen.Scratch() as tmp:
        plane = gen.build(spec, tmp)
        got = PropsSolver(plane, None).solve(dict(aero), ps and dict(ps))
        check(got[1] is None, "a velocity field without points")
        res = got[0]["total"]
        check(set(res) == set(KEYS) | {"Thrust", "Torque"}, "results %s", sorted(res))
        forces_close("PropsSolver", res, want, fs, ms, 1e-6)
        close("Thrust", res["Thrust"], T, fs, 1e-6)
        close("Torque", res["Torque"], l, q4 * (s.scale + abs(s.Cl)) * b.d, 1e-6)
        mu = MU.MachUp(inputAirplane=plane)
        forces_close("MachUp.solve", mu.solve(dict(aero), None, ps and dict(ps)), want, fs, ms, 1e-6)
        wd, d = mu.distributions(dict(aero), None, ps and dict(ps))
        check(wd == {}, "wing distributions of a model without wings")
    check(list(d["name"]) == ["p"] * p["nodes"], "names")
    for k, v, tol in (("radial_position", b.r, 1e-9), ("chord", b.c, 1e-7), ("pitch", np.degrees(b.beta), 1e-7),
                      ("advance_angle", np.degrees(s.einf), 1e-7), ("induced_angle", np.degrees(s.ei), 1e-7),
                      ("alpha", np.degrees(s.alpha), 1e-7), ("section_CL", s.cl, 1e-6), ("section_CD", s.cd, 1e-6)):
        close(k, d[k], v, max(np.max(np.abs(v)), 1.), tol)
    for k, v in zip(("Vi", "Vi_x", "Vi_t"), b.induced_velocity(s, n)):
        close(k, d[k], v, np.max(np.abs(v)) + 1e-6 * n * b.d, 1e-6)
    top = b.beta - s.einf
    rec.nt(np.any(s.cl > 0.05))
    rec.tag("windmilling sections", np.any(top < 0))
    rec.tag("stalled sections", np.any((s.alpha > b.up) | (s.alpha < b.dn)))
    rec.tag("static", aero["V_mag"] == 0)
    rec.tag("oblique flow", abs(u @ b.fwd) < 1 - 1e-9)
    rec.tag("tables", "table" in p["pitch"] or "table" in p["chord"])
    rec.tag("several airfoils", len(p["airfoils"]) > 1)


@st.composite
def section_case(draw):
    p = draw(gen.prop("p", tables=True, tilt=False))
    return {"prop": p, "alpha": [draw(gen.num(-1.2, 1.3, .001)) for _ in range(draw(st.integers(1, 6)))],
            "ramp": [draw(gen.num(-1.2, 0., .01)), draw(gen.num(0., 1.3, .01))], "cg": [0., 0., 0.]}


def _section(c, rec):
    b = refprop.Blade(c["prop"])
    require(np.all(np.isfinite(b.beta)) and np.all(b.c > 0))
    with gen.Scratch() as tmp:
        plane = gen.build(_plane(c), tmp)
        pm = PropModel(list(plane.get_props())[0], plane.get_cg_location(), plane.get_units())
        n = len(b.z)
        seen = 0
        for al in [np.full(n, float(a)) for a in c["alpha"]] + [np.linspace(c["ramp"][0], c["ramp"][1], n)]:
            # away from the steps of the model, including those the slope's difference quotient may meet
            edges = np.array([np.abs(al), np.abs(al - b.up), np.abs(al - b.dn), np.abs(al - b.shift),
                              np.abs(-al - b.shift)] +
                             [np.abs(s * al - b.shift - np.radians(2.)) for s in (1, -1)])
            ok = np.min(edges, axis=0) > 1.1e-3
            cl, cla, cd = pm.get_coefficients_alpha(al.copy())
            wl, wd, wa = b.cl(al), b.cd(al), b.cla_fd(al)
            close("CL", np.where(ok, cl, 0.), np.where(ok, wl, 0.), np.maximum(1., np.abs(wl)), 1e-9)
            close("CD", np.where(ok, cd, 0.), np.where(ok, wd, 0.), np.maximum(1., np.abs(wd)), 1e-9)
            close("CL slope", np.where(ok, cla, 0.), np.where(ok, wa, 0.), np.maximum(10., np.abs(wl) + np.abs(wa)), 1e-8)
            seen += int(np.sum(ok))
        # exactly zero angle: no lift (where the section model has no step there), zero-lift drag
        near = (np.abs(b.shift) < np.radians(1.9)) & (b.up > 1e-6) & (b.dn < -1e-6)
        junk = [np.full(n, 7.7) for _ in range(40)]     # what uninitialised memory would hold
        del junk
        cl, _, cd = pm.get_coefficients_alpha(np.zeros(n))
        close("CL at zero angle", np.where(near, cl, 0.), np.zeros(n), 1., 1e-9)
        close("CD at zero angle", np.where(near, cd, 0.), np.where(near, b.c0, 0.), 1., 1e-9)
        rec.nt(seen > n)
        rec.tag("delayed stall", np.any(b.shift > .01))


SUBS = [Sub("loads", case(), _loads, 4800, 80000,
            "one propeller at one operating point; non-trivial: some section lifts", shards=16),
        Sub("section", section_case(), _section, 1200, 20000,
            "section model at given angles; non-trivial: more than one node's worth of comparisons", shards=8)]
