"""C02: the lifting-line grid tiles every wing exactly."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, refll
from vlib.runner import Sub
from vlib.util import check, close

from machup import LLGrid
import machup.MU as MU

PROPERTY = "C02"
ASSUMPTIONS = ["sweep is strictly between -90 and 90 degrees, spans and root chords are positive, tip chords may be zero"]


@st.composite
def case(draw):
    return {"plane": draw(gen.airplane(max_wings=4, max_grid=12, big=(20, 40, 80), controls=False)),
            "cosine": draw(st.sampled_from([True, True, False]))}


def _grid(c, rec):
    spec = c["plane"]
    plane = gen.build(spec)
    g = LLGrid(plane, c["cosine"])
    ref = refll.grid(spec, c["cosine"])
    scale = 1. + np.max(np.abs(np.vstack([ref.r1, ref.r2])))
    check(list(g.get_wing_names()) == ref.name, "segment names %s, expected %s", list(g.get_wing_names()), ref.name)
    close("control points", g.get_control_point_pos(), ref.r, scale, 1e-10)
    r1, r2 = g.get_corner_point_pos()
    close("left corners", r1, ref.r1, scale, 1e-10)
    close("right corners", r2, ref.r2, scale, 1e-10)
    close("spacing", g.get_cp_spacing(), ref.t, 1., 1e-12)
    close("chord", g.get_chord_length(), ref.c, ref.c, 1e-10)
    c1, c2 = g.get_chord_lengths()
    close("left chord", c1, ref.c1, ref.c1 + ref.c2, 1e-10)
    close("right chord", c2, ref.c2, ref.c1 + ref.c2, 1e-10)
    dS, ic2 = g.get_section_areas(), g.get_integral_chord2()
    amax = max(np.max(ref.dS), 1e-30)
    close("section areas", dS, ref.dS, amax, 1e-9)
    close("integral of chord squared", ic2, ref.ic2, max(np.max(ref.ic2), 1e-30), 1e-8)
    close("twist", g.get_twist(), ref.twist, 10., 1e-10)
    close("sweep", g.get_sweep(), ref.sweep, 90., 1e-12)
    close("dihedral", g.get_dihedral(), ref.dihedral, 90., 1e-12)
    ua, un, us = g.get_unit_axial_vectors(), g.get_unit_normal_vectors(), g.get_unit_spanwise_vectors()
    close("normal vectors", un, ref.un, 1., 1e-10)
    close("axial vectors", ua, ref.ua, 1., 1e-10)
    close("spanwise vectors", us, ref.us, 1., 1e-10)
    close("reference area", g.get_reference_area(), ref.area_ref, max(ref.area_ref, amax), 1e-9)
    close("Sw", MU.MachUp(inputAirplane=plane).Sw, ref.area_ref, max(ref.area_ref, amax), 1e-9)
    close("cg", g.get_cg_location(), spec["cg"], 1., 1e-12)
    # section properties: linear between the two ends of the segment
    L = {k: refll.lerp(ref, k) for k in ref.prm}
    lo = {k: v[0] for k, v in ref.prm.items()}
    hi = {k: v[1] for k, v in ref.prm.items()}
    cd = ("CD0", "CD0_L", "CD0_L2")
    for what, got, want in [
            ("lift slope", g.get_lift_slopes(), L["CL_alpha"]),
            ("left lift slope", g.get_left_lift_slopes(), lo["CL_alpha"]),
            ("right lift slope", g.get_right_lift_slopes(), hi["CL_alpha"]),
            ("max lift", g.get_max_lifts(), L["CL_max"]),
            ("zero lift alpha", g.get_zero_lift_alpha(), L["alpha_L0"]),
            ("left zero lift alpha", g.get_left_zero_lift_alpha(), lo["alpha_L0"]),
            ("right zero lift alpha", g.get_right_zero_lift_alpha(), hi["alpha_L0"]),
            ("moment slope", g.get_moment_slopes()[0], L["Cm_alpha"]),
            ("zero lift moment", g.get_moment_slopes()[1], L["Cm_L0"]),
            ("left moment slope", g.get_left_moment_slopes(), lo["Cm_alpha"]),
            ("right moment slope", g.get_right_moment_slopes(), hi["Cm_alpha"]),
            ("left zero lift moment", g.get_left_zero_lift_moments(), lo["Cm_L0"]),
            ("right zero lift moment", g.get_right_zero_lift_moments(), hi["Cm_L0"]),
            ("drag", np.array(g.get_drag_coefficients()), np.array([L[k] for k in cd])),
            ("left drag", np.array(g.get_left_drag_coeff()), np.array([lo[k] for k in cd])),
            ("right drag", np.array(g.get_right_drag_coeff()), np.array([hi[k] for k in cd]))]:
        close(what, got, want, 1., 1e-10)
    # tiling, stated without the reference grid
    i = 0
    area = 0.
    for w, side in gen.segments(spec):
        s = slice(i, i + w["grid"])
        i += w["grid"]
        check(np.allclose(r2[s][:-1], r1[s][1:], atol=1e-9 * scale), "sections of %s do not join", w["name"])
        a = w["semispan"] * (w["root_chord"] + w["tip_chord"]) / 2.
        close("area of " + w["name"], np.sum(dS[s]), a, a, 1e-9)
        area += a * (1 if w["is_main"] else 0)
    check(i == len(dS), "grid has %d sections, expected %d", len(dS), i)
    close("reference area", g.get_reference_area(), area, max(area, amax), 1e-9)
    close("|axial|", np.linalg.norm(ua, axis=1), np.ones(i), 1., 1e-9)
    close("|normal|", np.linalg.norm(un, axis=1), np.ones(i), 1., 1e-9)
    close("axial.normal", np.einsum("ij,ij->i", ua, un), np.zeros(i), 1., 1e-9)
    rec.nt(i >= 3 and any(w["tip_chord"] != w["root_chord"] or w["washout"] for w in spec["wings"])
           and any(w["side"] != "right" for w in spec["wings"]))
    rec.tag("linear spacing", not c["cosine"])
    rec.tag("non-main wing", any(not w["is_main"] for w in spec["wings"]))
    rec.tag("two airfoils", any(w["airfoil_tip"] for w in spec["wings"]))


SUBS = [Sub("grid", case(), _grid, 4800, 100000,
            "every LLGrid getter against the reference grid plus tiling identities; non-trivial: at least 3 sections, "
            "taper or washout, and a left segment")]
