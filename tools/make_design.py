"""Rewrites the per-property part of DESIGN.md from the checks themselves."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from vlib import env
import importlib
T={}
for l in open(os.path.join(here, 'properties.jsonl')):
    p=json.loads(l); T[p['id']]=p['title']
HOW={
'C01':"Airplanes of 1-3 wings (chains of attachments, both/left/right sides, offsets, y offsets, verticals) are built by calls or written to a file; `get_wingsegments()`, `get_position`, section counts and the grid's outermost corner points are compared with a geometry model written from the documented convention (tip = root + span turned by sweep and dihedral). Tests sample two wings.",
'C02':"Every public `LLGrid` getter against the reference grid, plus identities that need no reference: corners of neighbours coincide, first/last corners are the segment's ends, areas sum to the trapezoid, axes are orthonormal, section properties are convex combinations.",
'C03':"Differential: the same specification is written as input file (random wing IDs, optional entries left out, any unit spelling) and built by calls; all loads, distributions, reference lengths, centre of gravity and propellers must agree; the file must be unchanged. `shipped`: the repository's own example and test files, with numbers changed at random, against the reference model.",
'C04':"Reference for coverage, mixing, effectiveness (Phillips' thin-airfoil flap theory with hinge and 11 degree corrections), moment and drag; metamorphic relations that need no reference (elevator against flap, aileron against rudder, command times mix). Surfaces given in all documented argument forms.",
'C05':"Differential against `vlib/refll.py` (written from Phillips' equations in a different formulation: vectorised influence tensor, own grid), whose numbers equal Fortran MachUp's; inviscid, viscous and total loads and all section distributions.",
'C06':"Identities between the numbers of one call: inviscid + viscous = total, wings + propellers = model, wind-axis components, L/D, sum of section forces, sums over propellers; each propeller also solved alone. Differential against the reference model for wings behind propellers.",
'C07':"Metamorphic: factors for density, speed and size applied separately and together, with rates, propeller rotation and dimensions scaled accordingly; every load must scale by the exact power.",
'C08':"Metamorphic: the specification is mirrored (sides, y, heading, rotation direction, sideslip, roll, yaw, aileron, rudder); loads must mirror. Symmetric airplanes must have no lateral loads.",
'C09':"Metamorphic: translate everything; translate only the centre of gravity; compare loads, and moment against force times arm.",
'C10':"Rates against the equivalent local velocity field, given fields against the reference, uniform field against the plain state, missing speed against the mean of the field.",
'C11':"Stateful: histories of 2-6 public calls (all analyses, with and without states, with files, with invalid arguments, with the same or new state objects, with a second model in between) on one model; each result is compared with that of the same call on a fresh model. `solvers`: the same for `LLModel` and `PropsSolver` used directly.",
'C12':"Stateful: deep snapshots of every argument (dictionaries, arrays, nested propeller states) before and after each call, failing ones included; every result returned earlier is snapshotted and compared at the end; some results are overwritten by the test on purpose and must not influence the model.",
'C13':"All 81 stability, control and damping derivatives against central differences of `solve` on a second model, with the error of the difference quotient estimated by halving the step; static margin and combined dictionary.",
'C14':"Round trip: targets are produced from a known state by `solve`, so a solution exists; the answer is solved again and must give the target. Unattainable targets must end in an error. A watchdog decides termination.",
'C15':"Oracle: scan of section lift coefficients over tenths of a degree from `distributions`, compared with the maximum lift of the section; lift and location at the answer; the stall airspeed solved again must carry the weight. Models without stall must report an error in finite time.",
'C16':"Oracle: Phillips' published relation for the general aerodynamic centre applied to loads computed with the public interface; constancy of the moment on conventional airplanes; metamorphic invariances.",
'C17':"Round trip: call with a file name into a directory that may already hold an older, longer file; parse the file independently (JSON, fixed-width table) and compare with the returned values exactly (tables: 12 digits); no file may appear without a file name.",
'C18':"Differential against `vlib/refprop.py`: bracketing root search over a scan of 200 induced angles per node, only unique solutions count; thrust, torque, normal force and yawing couple integrals, stall delay, post-stall section model, pitch and chord from ratio, value and table, radial airfoil blends of 1-3 airfoils.",
'C19':"Metamorphic: advance ratio, rotation rate, power (and named or common state) that correspond must give equal loads; motor: torque balance evaluated from the reported result with an independent motor model, in both unit systems; termination.",
'C20':"Differential against the reference slipstream at clouds of points (ahead, behind, inside, outside, on the axis, near the wall), for 1-3 propellers, and wing loads in it.",
'C21':"Metamorphic, no reference: rotation of propeller and flow together, translation, reflection, reversal of rotation, different spellings of direction; all regimes (windmilling, stall).",
'C22':"The binary STL is parsed; strips are matched with segments and blades; every outline is compared with an independently constructed one; facet normals point outwards; mirrored model gives mirrored surface. All files in a scratch directory.",
'C23':"Metamorphic: any subset of states, entries, dimensions left out against the documented default spelled out.",
'C24':"A grammar of invalid requests, each applied to a random valid model; the call must raise (or report an error entry); afterwards the model must answer a valid request as a fresh one.",
'C25':"Metamorphic: splitting wings into sides, order of wings and propellers, names, absolute positions for attachments, file instead of calls, separate propeller models, a far propeller.",
'C26':"Prandtl's lifting-line equation solved by a sine series with collocation (analytical oracle, no vortex sheet discretisation): lift, induced drag and roll damping of straight tapered twisted wings with different root and tip airfoils; second-order convergence between 20, 40 and 80 sections.",
}
out = []
for pid in sorted(T):
    m = importlib.import_module("checks." + pid.lower())
    out.append("### %s %s\n\n%s\n" % (pid, T[pid], HOW[pid]))
    out.append("Bounds: " + "; ".join(m.ASSUMPTIONS) + ".\n")
    for s in m.SUBS:
        out.append("* `%s` (%d / %d cases): %s." % (s.name, s.quick, s.thorough, s.rule))
    out.append("")
path = os.path.join(here, "DESIGN.md")
text = open(path).read()
a, b = text.index("<!-- properties -->"), text.index("<!-- end of properties -->")
with open(path, "w") as f:
    f.write(text[:a] + "<!-- properties -->\n" + "\n".join(out) + text[b:])
