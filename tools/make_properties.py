"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json
import os

G, LLG, LLM, MU = "machup/geometry.py", "machup/llgrid.py", "machup/llmodel.py", "machup/MU.py"
PM, PS, STL, H = "machup/propmodel.py", "machup/propssolver.py", "machup/outputstl.py", "machup/helpers.py"

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (pid, len(title))
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})


prop("C01", "Every wing segment sits where its attachments and dimensions put it",
     "For every airplane, each wing segment's root and tip are at the parent's tip of the same side (or the airplane's "
     "position) plus the connection offset, the spanwise y offset and the span turned by sweep and dihedral; left and "
     "right segments mirror each other, through any chain of attachments, for wings built by calls or read from a "
     "file. Segment names, sides and section counts, and the outermost points of the analysis grid, agree with it.",
     ["inputs", "configurations"],
     "every airplane of 1..5 wings: any sides, offsets, spans, sweep, dihedral, attachment chains, airplane positions, "
     "input file IDs in any order",
     "the tests look at two fixed wings and one fixed airplane; chains, offsets and sides combine freely",
     [G], [("segment placement", "geometry.py WingSegment.get_position"),
           ("attachment", "geometry.py Airplane.add_wing, Wing.connect_to, _map_wing_connections")],
     ["Airplane.get_wingsegments", "Wing.get_position", "LLGrid.get_corner_point_pos"])

prop("C02", "The lifting-line grid tiles each wing exactly with the right properties",
     "For every airplane, each wing segment is divided into its number of sections, clustered by the cosine rule (or "
     "evenly on request), that join without gaps from tip to tip, each with the chord, twist, sweep, dihedral, planform "
     "area, integral of chord squared, orthonormal section axes and linearly interpolated airfoil properties of its "
     "span location. Areas add up to the planform area of each wing and the reference area is that of the wings marked "
     "as main.",
     ["inputs", "configurations"],
     "every airplane of 1..4 wings with any taper, washout, mounting angle, airfoils at root and tip, section counts "
     "and both spacings",
     "the tests compare one grid of one wing; left wings, several wings, taper, twist and blends are not reached",
     [LLG, G], [("grid", "llgrid.py LLGrid._calc_*"), ("interpolation", "llgrid.py _linear_interpolation")],
     ["every LLGrid getter", "MachUp.Sw"])

prop("C03", "An input file and the programmatic interface describe the same airplane",
     "For every airplane that can be written as an input file, building it from the file and building it by calls "
     "gives the same centre of gravity, reference lengths, wings, propellers, loads and distributions, whatever the "
     "numbering of the wings and whether optional entries are present. Reading a file does not modify it.",
     ["inputs", "configurations"],
     "every airplane of 0..3 wings and 0..2 propellers with control surfaces, 1 or 2 airfoils, optional entries "
     "present or absent, any wing IDs",
     "the tests use a handful of fixed files; agreement is over every file",
     [G], [("file reader", "geometry.py Airplane._buildfrominputfile, _add_wing_from_inputfile, "
            "_add_prop_from_inputfile")],
     ["MachUp(file) against MachUp(inputAirplane=...)"])

prop("C04", "Control surfaces deflect exactly the sections they cover, with the right sign",
     "For every control surface and every combination of aileron, elevator, rudder and flap commands, exactly the "
     "sections between the surface's span limits (measured from the wing root) deflect, by the sum of the commands "
     "times their mixing, elevator and flap alike on both sides, aileron and rudder opposite on the left side. The "
     "effectiveness, hinge, sealing, pitching-moment and drag effects follow the local flap chord fraction and the "
     "deflection, including reduced effectiveness beyond 11 degrees, and a wing without a surface does not react.",
     ["inputs", "configurations"],
     "every span/chord extent, mix, sealing and command within 30 degrees, on 1..3 wings of any side",
     "tests hold two control surfaces and one command each",
     [LLG, LLM, G], [("coverage", "llgrid.py _calc_control_surface_properties / flap effectiveness"),
                     ("deflection", "llmodel.py _process_control_state, _compute_deflection_efficiency"),
                     ("mixing", "geometry.py ControlSurface.get_control_mix")],
     ["LLGrid.get_flap_effectiveness, get_control_mix, get_moment_slopes", "LLModel.solve", "MachUp.distributions"])

prop("C05", "Wing forces and moments equal an independent lifting-line solution",
     "For every airplane of wings, flow state (angle of attack, sideslip, rotation rates, density, speed) and control "
     "deflection, the inviscid, viscous and total forces and moments and the section distributions equal those of the "
     "numerical lifting-line method (one horseshoe vortex per section trailing along the freestream, linearised "
     "closure, section drag and moment models) computed independently.",
     ["inputs", "configurations"],
     "every airplane of 1..3 wings with 1..40 sections per segment, |alpha|,|beta| within 14 degrees, rates, "
     "deflections; well conditioned, no vortex line through a control point",
     "the tests compare a few fixed planes with recorded numbers and most of them fail to start today",
     [LLM, LLG], [("influence", "llmodel.py _calc_induced_velocities"), ("system", "llmodel.py _setup_linear_matrices"),
                  ("loads", "llmodel.py _compute_forces, _compute_moments")],
     ["LLModel.solve", "MachUp.solve", "MachUp.distributions"])

prop("C06", "Reported totals are the consistent sum of their parts",
     "For every model and state, total loads are the sum of inviscid and viscous loads and of wing and propeller loads, "
     "lift, drag and side force are the components of the body-axis force along the wind axes, lift-to-drag is their "
     "ratio, section forces add up to the inviscid wing force, and the propeller total sums thrust, torque, forces and "
     "moments of every propeller. Wings behind propellers see exactly the velocities and density the propellers report.",
     ["inputs", "configurations"],
     "every airplane of 0..3 wings and 0..2 propellers, every flow, control and propeller state",
     "no test checks a sum over generated configurations; the parts are computed in three modules",
     [MU, LLM, PS], [("combination", "MU.py MachUp.solve"), ("wind axes", "llmodel.py/propssolver.py _rotate_aero_forces"),
                     ("propeller sum", "propssolver.py _calc_forces")],
     ["MachUp.solve and its results file", "LLModel.solve", "PropsSolver.solve", "MachUp.distributions"])

prop("C07", "Loads scale with density, speed squared and size as dimensional analysis demands",
     "For every model and state, loads are proportional to density, to the square of the speed (at equal angles, "
     "non-dimensional rates and advance ratio), and to the square (forces) and cube (moments) of a uniform geometric "
     "scale, for wings, propellers and their interaction. Names and reference lengths do not change dimensional loads.",
     ["inputs", "configurations"],
     "every airplane of wings and propellers, state, density, speed and length factor",
     "scaling relates two runs; no test relates runs",
     [LLM, PM, MU], [("dynamic pressure", "llmodel.py _compute_forces"), ("propeller dimensional loads",
                     "propmodel.py _calc_forces, _set_prop_state")],
     ["MachUp.solve"])

prop("C08", "A mirrored airplane in mirrored flow has mirrored loads",
     "For every airplane, exchanging left and right (wing sides, y positions, propeller heading and rotation direction) "
     "and the signs of sideslip, roll and yaw rate, aileron and rudder leaves FX, FZ, FL, FD and MY unchanged and "
     "reverses FY, FS, MX and MZ; a symmetric airplane in symmetric flow has no side force, roll or yaw.",
     ["inputs", "configurations"],
     "every airplane of 1..3 wings and 0..2 propellers, symmetric or not, every state and deflection",
     "the relation is between two whole runs over all asymmetric configurations; tests use symmetric ones",
     [LLG, LLM, PM, PS, G], [("left/right conventions", "llgrid.py, geometry.py"), ("swirl direction",
                              "propmodel.py _find_propwash_velocities")],
     ["MachUp.solve"])

prop("C09", "Moving everything changes nothing; moving only the CG transfers moments",
     "For every model and state, translating all root wings, propellers and the centre of gravity together, or placing "
     "the airplane elsewhere with its CG, leaves all loads unchanged. Moving only the centre of gravity by d without "
     "rotation leaves the forces unchanged and changes the moment by the force times that arm, for wings and "
     "propellers alike.",
     ["inputs", "configurations"],
     "every airplane of wings and propellers, translation and CG displacement",
     "the relation is between runs with different origins, which no test compares",
     [LLM, PM, LLG, G], [("moment arms", "llmodel.py _compute_moments; propmodel.py _calc_forces"),
                         ("cg", "geometry.py Airplane.cg_location")],
     ["MachUp.solve"])

prop("C10", "Rotation rates and given local flow act as the equivalent local velocities",
     "For every wing model, rotation rates act exactly as adding the velocity of each section's rotation about the "
     "centre of gravity to the flow there, and a given field of local densities and velocities is used section by "
     "section; a uniform given field equals the plain state, and without a speed the mean of the field sets the "
     "direction of the wind.",
     ["inputs", "configurations"],
     "every airplane of wings, every triple of rates, every local density/velocity field around a freestream",
     "one fixed local state is tested; the equivalence quantifies over fields and rates",
     [LLM], [("local state", "llmodel.py _process_aero_state"), ("rotation", "llmodel.py _superimpose_rotation")],
     ["LLModel.solve", "MachUp.solve"])

prop("C11", "Results do not depend on what the model computed before",
     "For every sequence of analyses on one model (solve, distributions, derivatives, trim, target lift, stall, "
     "aerodynamic centre, STL output, with any states, including calls that fail), each call returns what a freshly "
     "built model returns for the same arguments.",
     ["histories", "inputs"],
     "every sequence of up to 8 public calls with arbitrary states on airplanes with wings and propellers",
     "histories: each test builds a model and makes one call",
     [LLM, PM, PS, MU], [("state reset", "llmodel.py _process_aero_state, _process_control_state"),
                         ("propeller start values", "propmodel.py _find_ei, _set_prop_state")],
     ["every public MachUp method", "LLModel.solve", "PropsSolver.solve"])

prop("C12", "Callers' dictionaries and earlier results are never altered",
     "For every public analysis call, the flow, control and propeller state dictionaries, arrays and geometry inputs "
     "given by the caller are unchanged afterwards, also when the call raises, and results returned earlier (dictionaries "
     "and arrays) keep their values whatever is computed later; altering a result does not affect the model.",
     ["histories", "inputs"],
     "every sequence of public calls with shared state dictionaries, on airplanes with wings and propellers",
     "aliasing shows only over call sequences with shared arguments; tests build fresh literals",
     [MU, LLM, PS, G], [("copies of states", "MU.py every analysis"), ("fresh results", "llmodel.py solve, propssolver.py solve")],
     ["every public MachUp method", "LLModel.solve", "PropsSolver.solve", "Airplane.add_wing/add_prop"])

prop("C13", "Derivatives are the actual rates of change of the non-dimensional loads",
     "For every model and state, each stability, control and damping derivative is the rate of change of the matching "
     "force or moment coefficient (dynamic pressure times reference area, lateral or longitudinal length) with angle of "
     "attack, sideslip, deflection (per radian) or non-dimensional rate, with the other inputs held at the given state. "
     "The static margin is minus the ratio of pitching-moment to lift slope, and the combined analysis returns the same "
     "numbers as the separate ones.",
     ["inputs", "configurations"],
     "every airplane with wings, with or without propellers, every state, control and reference length; all "
     "derivatives of all nine loads",
     "one test compares recorded numbers of one plane; 81 derivatives at every state are not reached",
     [MU], [("differences", "MU.py stability_derivatives, damping_derivatives, control_derivatives, derivatives")],
     ["MachUp.derivatives and the three separate methods"])

prop("C14", "Target-lift and trim answers achieve what was asked, or say they cannot",
     "For every model, state and target, the angle of attack from target_lift gives the requested lift when solved "
     "with, and the angle and elevator from pitch_trim give the requested lift and pitching moment; targets that some "
     "moderate state attains are found. Otherwise the call terminates with an error (or an error entry in the result "
     "when a file is requested), never with a wrong answer.",
     ["inputs", "configurations"],
     "every airplane with wings, with or without elevator and propellers, every start state, target and tolerance",
     "tests use one target each; achieving the target is a statement about every target and start",
     [MU], [("secant iteration", "MU.py target_lift"), ("newton iteration", "MU.py pitch_trim, _lift_slope, _moment_slope")],
     ["MachUp.target_lift", "MachUp.pitch_trim", "MachUp.solve"])

prop("C15", "Stall analysis finds the first stalled angle and the speed carrying the weight",
     "For every model and state, the stall angle is the first tenth of a degree from zero at which some section exceeds "
     "its maximum lift coefficient, and the reported lift, wing and span location are those of that state; the stall "
     "airspeed is the speed at which the lift at stall equals the weight. A model that cannot stall, or a weight that "
     "cannot be carried, is reported as an error in finite time.",
     ["inputs", "configurations"],
     "every airplane with wings, with or without propellers, every state, deflection, section maximum lift and weight",
     "no test runs stall analysis",
     [MU, LLM], [("stall search", "MU.py stall_onset, stall_airspeed"), ("stalled section", "llmodel.py _find_stall_location")],
     ["MachUp.stall_onset", "MachUp.stall_airspeed", "MachUp.distributions"])

prop("C16", "The aerodynamic centre is the point about which pitching moment stays constant",
     "For every airplane with wings, the reported aerodynamic centre is the one Phillips' general relation gives for the "
     "lift, drag and pitching-moment curves the model itself computes between -10 and 10 degrees, taken at the given angle "
     "of attack. On conventional airplanes the pitching moment about it hardly changes with angle of attack, compared with "
     "its change about points a chord away. "
     "The point does not depend on where the centre of gravity is, moves with the airplane, scales with it, and is "
     "independent of speed, density and reference length.",
     ["inputs", "configurations"],
     "every symmetric airplane of 1..2 wings (sweep, dihedral, taper, twist, tail), CG, scale, speed, density and "
     "state",
     "no test runs the analysis; it is a relation between a whole sweep of runs",
     [MU], [("general aerodynamic centre fit", "MU.py find_aero_center")],
     ["MachUp.find_aero_center", "MachUp.solve"])

prop("C17", "Result files hold exactly what the call returned",
     "For every analysis given a filename, the file is complete when the call returns, replaces any earlier content, and "
     "read back gives the numbers the same call returns (distributions to 12 digits, angles in degrees, one row per "
     "section under matching columns), also when states are omitted; without a filename no file is written.",
     ["inputs", "configurations"],
     "every public analysis with a filename, every model with wings and/or propellers, every omission of states, "
     "json and text distributions",
     "no test writes a file",
     [MU], [("file output", "MU.py every method with filename, distributions")],
     ["files written by solve, distributions, derivatives, target_lift, pitch_trim, stall_*, find_aero_center"])

prop("C18", "Propeller loads equal an independent blade-element vortex solution",
     "For every propeller and propulsive operating point, the induced angle, section coefficients, thrust, torque, "
     "off-axis forces and moments equal those of blade-element theory closed by Goldstein's vortex condition, with "
     "stall delay, post-stall section model, pitch and chord distributions and radial airfoil blends, computed "
     "independently.",
     ["inputs", "configurations"],
     "every blade count, diameter, hub, pitch and chord definition (including tables), 0..3 airfoils, node count, "
     "orientation, position, rotation direction, advance ratio with a unique propulsive solution, alpha, beta, density",
     "the tests only check a few initialisation values and do not compute loads",
     [PM, PS], [("induced angle", "propmodel.py _find_ei, _ei_function"), ("coefficients", "propmodel.py _find_coefficients"),
                ("sections", "propmodel.py _calc_coefficients, _calc_pitch, _calc_chord, _calc_stall_delay"),
                ("loads", "propmodel.py _calc_forces")],
     ["PropsSolver.solve", "PropModel getters", "MachUp.solve", "MachUp.distributions"])

prop("C19", "All ways of giving a propeller's operating state are equivalent",
     "For every propeller, prescribing the advance ratio, the rotation rate, the brake power or the throttle of a "
     "motor that correspond to the same operation gives the same loads; the found rotation rate absorbs exactly the "
     "given power, or balances the motor's torque, in both unit systems, and one state applies to every propeller "
     "unless given by propeller name.",
     ["inputs", "configurations"],
     "every propeller, motor and battery, throttle, power, both unit systems, single and per-propeller states",
     "no test uses power or motors; equivalence relates different runs",
     [PM, PS], [("operating state", "propmodel.py _set_prop_state"), ("rate search", "propmodel.py _find_rot_rate*"),
                ("motor", "propmodel.py _electric_motor_torque, _calc_motor")],
     ["PropsSolver.solve", "MachUp.solve", "MachUp.distributions"])

prop("C20", "Wings in a slipstream see its momentum-conserving axial and swirl velocity",
     "For every propeller and wing point, the velocity the wing sees is the freestream plus, inside the contracting "
     "slipstream behind the disk, the developed axial velocity along the axis and the swirl about it in the sense of "
     "the propeller's rotation, and exactly the freestream ahead of the disk and outside; several propellers superpose. "
     "Wing loads are those in this velocity field.",
     ["inputs", "configurations"],
     "every propeller placement, orientation, rotation direction and operating point, every wing or cloud of points",
     "no test computes a slipstream",
     [PM, PS, MU], [("slipstream", "propmodel.py _find_propwash_velocities, _stone_slipstream"),
                    ("superposition", "propssolver.py solve, _initialize_velocity_field")],
     ["PropsSolver.solve velocity array", "MachUp.solve"])

prop("C21", "Propeller loads turn with the propeller and the flow",
     "For every propeller, the thrust, torque and off-axis load magnitudes depend only on the angle between its axis and "
     "the flow, its loads turn with the axis, and the moment is that of the force at its position plus its own couple. "
     "Reversing the rotation direction reverses torque, swirl and yawing couple and nothing else.",
     ["inputs", "configurations"],
     "every elevation and heading, flow direction, position, and all accepted spellings of the rotation direction",
     "the tests check the orientation of a single propeller",
     [PM, G], [("orientation", "propmodel.py _calc_orientation, _set_aero_state, _calc_forces"),
               ("rotation direction", "geometry.py Prop.get_rot_dir")],
     ["PropsSolver.solve"])

prop("C22", "STL output is the geometry that is analysed",
     "For every model, the STL file is readable, finite and consists of exactly the wing segments and propeller blades of "
     "the model, each a strip of facets facing outwards between the airfoil outlines of its sections: NACA four-digit "
     "outlines blended as the section data are, at the local chord, twist and dihedral at each wing control point, and at "
     "the chord line pitch, number, diameter, position, orientation and rotation direction of each propeller's blades. A "
     "mirrored airplane gives the mirrored surface; earlier solutions do not matter.",
     ["inputs", "configurations"],
     "every airplane of wings and/or propellers, airfoil names and section counts",
     "no test creates an STL",
     [STL, MU], [("surface", "outputstl.py create_from_grid, plotNACA")],
     ["MachUp.create_stl"])

prop("C23", "Omitted states and dimensions mean their documented defaults",
     "For every public call, leaving out the flow, control or propeller state, or single entries of them, gives the "
     "same result as giving the documented default (zero angles, rates and deflections, speed 10, sea-level density in "
     "English units, density 1 for a lifting-line model used directly, advance ratio 0.5), and wings, airfoils, control "
     "surfaces and propellers built without an optional argument equal those built with its default. Reference lengths "
     "that are not given follow from the wings: area over length for the one from the other, or twice the longest "
     "segment's span and the mean chord based on it.",
     ["inputs", "configurations"],
     "every subset of omitted arguments of every public analysis and builder, on generated airplanes",
     "tests cover one omission (a wing without airfoil)",
     [MU, LLM, PM, G], [("default states", "MU.py every method, llmodel.py _process_*_state, propmodel.py _set_*_state"),
                        ("default dimensions", "geometry.py")],
     ["every public MachUp method", "LLModel.solve", "PropsSolver.solve", "Airplane/Wing/Prop builders"])

prop("C24", "Invalid requests are rejected instead of being answered",
     "For every request outside of the documented forms (unknown side, units, location, solver type, pitch or chord "
     "type, local state without density, missing input file, several blade airfoils without a position, motor without "
     "units, zero advance ratio without a rotation rate, stall or derivatives without wings, trim without an elevator), "
     "the call raises, or reports an error entry when a file is requested, and never returns numbers; the model "
     "remains usable afterwards.",
     ["inputs", "configurations"],
     "every kind of invalid request listed, with generated surrounding airplane, value and position in the request",
     "tests cover no invalid request",
     [G, LLM, PM, MU], [("checks", "geometry.py _check_units, add_wing, get_position; llmodel.py solve; propmodel.py; MU.py")],
     ["constructors and analyses raising"])

prop("C25", "Results depend on the parts of the airplane, not on how they are listed",
     "For every airplane, a wing on both sides equals a left and a right wing; the order in which wings, attached "
     "wings or propellers are added, their names, dividing a propeller set into separate models, adding a propeller "
     "far from the wings, and attaching a wing or giving its absolute position do not change the loads (a propeller's "
     "load simply adds).",
     ["inputs", "configurations"],
     "every airplane of 1..3 wings and 0..3 propellers, permutation, split and re-attachment",
     "tests use one composition; the relation is between descriptions of one airplane",
     [G, LLG, LLM, PS], [("segment order", "geometry.py get_wingsegments"), ("per propeller state", "propssolver.py")],
     ["MachUp.solve", "MachUp.distributions"])

prop("C26", "Wing lift and induced drag agree with classical lifting-line theory",
     "For every straight, unswept, untwisted or twisted, tapered isolated wing in symmetric flow, the lift and induced "
     "drag converge with the number of sections to Prandtl's series solution for the same section lift slope and twist, "
     "and induced drag is never negative.",
     ["inputs", "configurations"],
     "every aspect ratio from 4 to 20, taper, twist, section slope, angle of attack within 6 degrees",
     "a closed-form theory over a continuum of wings; the tests hold recorded numbers of a few",
     [LLM, LLG], [("lifting line", "llmodel.py _setup_linear_matrices, _compute_forces")],
     ["LLModel.solve", "MachUp.distributions"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
