"""C21: propeller loads and slipstreams turn with the propeller and the flow."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, refmodel, refprop
from vlib.runner import Sub
from vlib.util import check, close, require

from machup import PropsSolver
import machup.MU as MU

PROPERTY = "C21"
ASSUMPTIONS = ["flow from ahead of the airplane (angles below 75 degrees), propeller axes in any direction",
               "points at least 1e-6 radii from a boundary of a slipstream (disk plane, tube wall), where the field jumps",
               "the relations hold in every operating regime (windmilling and stalled blades included): no reference solution "
               "is involved",
               "body moments are compared about the propeller or with the arm to the centre of gravity; tolerance 1e-6 of "
               "rho n^2 D^4 (the angle between axis and flow is found from its cosine)"]


def rotation(axis, deg):
    a = np.array(axis, float)
    a /= np.linalg.norm(a)
    t = math.radians(deg)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + math.sin(t) * K + (1 - math.cos(t)) * K @ K


def axis_of(orient):
    th, ga = (math.radians(x) for x in orient)
    return np.array([math.cos(th) * math.cos(ga), math.cos(th) * math.sin(ga), -math.sin(th)])


def orient_of(f):
    """Elevation and heading, in degrees, of a direction."""
    return [math.degrees(math.asin(max(-1., min(1., -f[2])))), math.degrees(math.atan2(f[1], f[0]))]


def angles_of(u):
    """Angle of attack and sideslip, in degrees, of a flow direction."""
    return math.degrees(math.atan2(-u[2], -u[0])), math.degrees(math.atan2(-u[1], -u[0]))


@st.composite
def case(draw):
    p = draw(gen.prop("p", tables=True))
    p["orient"] = draw(st.one_of(
        st.tuples(gen.num(-12, 12, .5), gen.num(-12, 12, .5)),
        st.tuples(gen.num(-89, 89, 1), gen.num(-180, 180, 1)),
        st.sampled_from([(0., 0.), (90., 0.), (0., 90.), (0., 180.), (-90., 0.)])))
    p["orient"] = list(p["orient"])
    aero = draw(gen.aero(rates=False))
    if draw(st.integers(0, 3)) == 0:
        aero["alpha"], aero["beta"] = draw(gen.num(-60, 60, 1)), draw(gen.num(-60, 60, 1))
    kind = draw(st.sampled_from(["J", "J", "J", "none", "rps", "static", "power"]))
    ps = {"J": {"J": draw(gen.num(.05, 2., .02))}, "none": None, "rps": {"rot_per_sec": draw(gen.num(2, 150, 1))},
          "static": {"J": 0., "rot_per_sec": draw(gen.num(2, 150, 1))},
          "power": {"brake_power": draw(gen.num(1, 2000, 1))}}[kind]
    if kind == "static" and draw(st.booleans()):
        aero["V_mag"] = 0.
    return {"prop": p, "aero": aero, "ps": ps,
            "about_flow": draw(gen.num(-180, 180, 1)),
            "axis": draw(st.sampled_from([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, -1, 1], [0, 1, -2]])),
            "turn": draw(gen.num(-40, 40, 1)),
            "cg": [draw(gen.num(-3, 3, .1)) for _ in range(3)],
            "pos": [draw(gen.num(-4, 4, .1)) for _ in range(3)],
            "spelling": draw(st.integers(0, 9)),
            "at": [[draw(gen.num(-3, 8, .05)), draw(gen.num(0, 1.3, .01)), draw(st.integers(0, 359))]
                   for _ in range(draw(st.integers(0, 12)))]}


SPELL = {1: ["CCW", "ccw", 1, 1.], -1: ["CW", "cw", -1, -1., 0, 0.]}


def run(p, aero, ps, cg, pts, tmp, whole=False):
    spec = {"name": "x", "cg": list(cg), "units": None, "lat_ref": 1., "long_ref": 1., "position": None, "wings": [],
            "props": [p]}
    if whole:
        res = MU.MachUp(inputAirplane=gen.build(spec, tmp)).solve(dict(aero), None, copy.deepcopy(ps))
        field = None
    else:
        res, field = PropsSolver(gen.build(spec, tmp), None if pts is None else np.array(pts)).solve(
            dict(aero), copy.deepcopy(ps))
        res = res["total"]
    F = np.array([res[k] for k in ("FX", "FY", "FZ")])
    M = np.array([res[k] for k in ("MX", "MY", "MZ")])
    W = np.array([res[k] for k in ("FL", "FD", "FS")])
    if whole:
        return F, M, W
    vel = field[:, 1:] - aero["V_mag"] * refprop.flow_dir(aero) if field is not None else None
    return F, M, W, res["Thrust"], res["Torque"], vel


def _check(c, rec):
    p, aero, ps, cg = c["prop"], c["aero"], c["ps"], np.array(c["cg"])
    pos, V, R = np.array(p["pos"], float), c["aero"]["V_mag"], c["prop"]["diameter"] / 2.
    fwd, u = axis_of(p["orient"]), refprop.flow_dir(aero)
    # off-axis loads have no direction when the flow comes from straight behind
    require(fwd @ u < math.cos(math.radians(1.)))
    pts = []
    e1 = np.cross(fwd, [.3, .5, .8])
    e1 /= np.linalg.norm(e1)
    e2 = np.cross(fwd, e1)
    for x, r, deg in c["at"]:
        a = math.radians(deg)
        # distances that keep away from the disk plane and the rim
        pts.append(pos - (x + .0123) * R * fwd + (r + .00057) * R * (math.cos(a) * e1 + math.sin(a) * e2))
    pts = np.array(pts) if pts else None
    with gen.Scratch() as tmp:
        try:
            F, M, W, T, Q, vel = run(p, aero, ps, pos, pts, tmp)
        except RuntimeError:
            require(ps and "brake_power" in ps)     # no rate absorbs that power
            rec.tag("no rate absorbs the power")
            ps = c["ps"] = {"J": .6}
            V = aero["V_mag"]
            F, M, W, T, Q, vel = run(p, aero, ps, pos, pts, tmp)
        if ps and "brake_power" in ps:
            require(Q != 0)
            n = abs(ps["brake_power"] / (2 * math.pi * Q))
        else:
            n = refmodel.operating_point(p, aero, ps)[1]
        q4 = aero["rho"] * n * n * p["diameter"] ** 4
        fs = q4 + np.linalg.norm(F)
        ms = fs * p["diameter"] + np.linalg.norm(M)
        check(np.all(np.isfinite(np.concatenate([F, M, [T, Q]]))), "loads %s %s", F, M)
        vs = None
        if vel is not None:
            check(np.all(np.isfinite(vel)), "velocities %s", vel)
            vs = np.max(np.abs(vel)) + V + 1e-9
            # points whose velocity jumps under a tiny displacement are on a boundary (hub and edge streamlines)
            eps = 1e-6 * R
            ok = np.ones(len(pts), bool)
            for dirn in (e1, e2, -e1, -e2):
                other = run(p, aero, ps, pos, pts + eps * dirn, tmp)[5]
                ok &= np.linalg.norm(other - vel, axis=1) <= 1e-3 * vs
        own = M.copy()
        axial, across = own @ fwd, own - (own @ fwd) * fwd
        close("torque about the axis", axial, Q, ms, 1e-9)
        close("thrust along the axis", F @ fwd, T, fs, 1e-9)
        # off-axis loads lie in the plane of the axis and the flow
        close("off-axis force across the plane of axis and flow", F @ np.cross(fwd, u), 0., fs, 1e-7)
        close("off-axis couple across the plane of axis and flow", own @ np.cross(fwd, u), 0., ms, 1e-7)
        close("wind-axis loads", np.sort(np.abs([W[1], math.hypot(W[0], W[2])])),
              np.sort(np.abs([F @ u, np.linalg.norm(F - (F @ u) * u)])), fs, 1e-8)

        # the centre of gravity
        F2, M2, W2, T2, Q2, v2 = run(p, aero, ps, cg, pts, tmp)
        close("force with another centre of gravity", F2, F, fs, 1e-12)
        arm = pos - cg
        big = ms + fs * np.linalg.norm(arm)
        close("moment about the centre of gravity", M2, np.cross(arm, F) + own, big, 1e-10)
        close("torque with another centre of gravity", Q2, Q, ms, 1e-12)
        Fm, Mm, Wm = run(p, aero, ps, cg, None, tmp, True)
        close("MachUp.solve force", Fm, F, fs, 1e-10)
        close("MachUp.solve moment", Mm, M2, big, 1e-10)
        close("MachUp.solve wind-axis loads", Wm, W, fs, 1e-10)

        # moved
        d = np.array(c["pos"]) - pos
        moved = dict(p, pos=[float(x) for x in c["pos"]])
        F2, M2, W2, T2, Q2, v2 = run(moved, aero, ps, cg + d, None if pts is None else pts + d, tmp)
        close("force of the moved propeller", F2, F, fs, 1e-12)
        close("moment of the moved propeller", M2, np.cross(arm, F) + own, big, 1e-9)
        if pts is not None:
            close("slipstream of the moved propeller", v2[ok], vel[ok], vs, 1e-6)

        # turned about the flow, and turned together with the flow
        for what, Rm in (("propeller turned about the flow", rotation(u, c["about_flow"])),
                         ("propeller and flow turned", rotation(c["axis"], c["turn"]))):
            u2 = Rm @ u
            aero2 = dict(aero)
            if what != "propeller turned about the flow":
                if -u2[0] < .25:
                    continue
                aero2["alpha"], aero2["beta"] = angles_of(u2)
            turned = dict(p, orient=orient_of(Rm @ fwd))
            F2, M2, W2, T2, Q2, v2 = run(turned, aero2, ps, pos, None if pts is None else pos + (pts - pos) @ Rm.T, tmp)
            close("%s: force" % what, F2, Rm @ F, fs, 1e-6)
            close("%s: moment" % what, M2, Rm @ M, ms, 1e-6)
            close("%s: thrust" % what, T2, T, fs, 1e-10)
            close("%s: torque" % what, Q2, Q, ms, 1e-10)
            if pts is not None:
                close("%s: slipstream" % what, v2[ok], vel[ok] @ Rm.T, vs, 1e-5)

        # turning the other way
        s = refprop.rot_sign(p["rot_dir"])
        F2, M2, W2, T2, Q2, v2 = run(dict(p, rot_dir=SPELL[int(-s)][c["spelling"] % len(SPELL[int(-s)])]), aero, ps, pos, pts, tmp)
        close("reversed: force", F2, F, fs, 1e-12)
        close("reversed: thrust", T2, T, fs, 1e-12)
        close("reversed: torque", Q2, -Q, ms, 1e-12)
        close("reversed: couple", M2, -M, ms, 1e-12)
        if pts is not None:
            along, swirl = np.outer(vel @ fwd, fwd), vel - np.outer(vel @ fwd, fwd)
            close("reversed: slipstream", v2[ok], (along - swirl)[ok], vs, 1e-9)
            # the swirl is about the axis
            rad = pts - pos - np.outer((pts - pos) @ fwd, fwd)
            close("radial velocity", np.einsum("ij,ij->i", swirl[ok], rad[ok]), 0. * rad[ok, 0], vs * R, 1e-9)
        # another spelling of the same direction
        F2, M2, W2, T2, Q2, v2 = run(dict(p, rot_dir=SPELL[int(s)][c["spelling"] % len(SPELL[int(s)])]), aero, ps, pos, pts, tmp)
        close("respelled: force", F2, F, fs, 1e-12)
        close("respelled: moment", M2, M, ms, 1e-12)
        # the mirror image turns the other way
        S = np.diag([1., -1., 1.])
        image = dict(p, pos=[p["pos"][0], -p["pos"][1], p["pos"][2]], orient=[p["orient"][0], -p["orient"][1]],
                     rot_dir=SPELL[int(-s)][0])
        aero2 = dict(aero)
        if "beta" in aero:
            aero2["beta"] = -aero["beta"]
        F2, M2, W2, T2, Q2, v2 = run(image, aero2, ps, S @ pos, None if pts is None else pts @ S, tmp)
        close("mirror image: force", F2, S @ F, fs, 1e-6)
        close("mirror image: moment", M2, -(S @ M), ms, 1e-6)
        if pts is not None:
            close("mirror image: slipstream", v2[ok], vel[ok] @ S, vs, 1e-5)
    ang = math.degrees(math.acos(max(-1., min(1., -(fwd @ u)))))
    rec.nt(ang > .5 and np.linalg.norm(across) > 1e-6 * ms)
    rec.tag("axis beyond 30 degrees", ang > 30)
    rec.tag("axis and flow aligned", ang < 1e-3)
    rec.tag("points in the slipstream", pts is not None and bool(np.any(vel != 0)))
    rec.tag("still air", V == 0)
    rec.tag("negative thrust", T < 0)


@st.composite
def installed(draw):
    c = draw(refmodel.case(min_wings=1, max_wings=2, min_props=1, max_props=2, max_grid=3))
    c["spelling"] = [draw(st.integers(0, 9)) for _ in c["plane"]["props"]]
    c["add"] = [draw(st.sampled_from([0, 0, 360, -360])) for _ in c["plane"]["props"]]
    return c


def _installed(c, rec):
    """Spellings of direction and orientation do not matter to a complete model, by interface or file."""
    spec = c["plane"]
    for p in spec["props"]:
        p["airfoils"] = p["airfoils"][:2] or [dict(gen.DEFAULT_AF, key="NACA2412")]
        for a, where in zip(p["airfoils"], ("root", "tip")):
            a.pop("span_position", None)
            if len(p["airfoils"]) == 2:
                a["span_position"] = where
    other = copy.deepcopy(spec)
    for p, k, a in zip(other["props"], c["spelling"], c["add"]):
        s = int(refprop.rot_sign(p["rot_dir"]))
        p["rot_dir"] = SPELL[s][k % len(SPELL[s])]
        p["orient"][1] += a
    r = refmodel.solve(spec, c["aero"], c["ctl"], c["prop"])
    require(r.ok)
    with gen.Scratch() as tmp:
        a = MU.MachUp(inputAirplane=gen.build(spec, tmp)).solve(dict(c["aero"]), c["ctl"], copy.deepcopy(c["prop"]))
        for what, mu in (("interface", MU.MachUp(inputAirplane=gen.build(other, tmp))),
                         ("file", MU.MachUp(gen.write_json(gen.to_json(other, tmp), tmp)))):
            b = mu.solve(dict(c["aero"]), c["ctl"], copy.deepcopy(c["prop"]))
            for k in a:
                close("respelled in the %s: %s" % (what, k), b[k], a[k], r.fs if k[0] == "F" else r.ms, 1e-7)
    rec.nt(any(type(p["rot_dir"]) is not type(q["rot_dir"]) or p["rot_dir"] != q["rot_dir"]
               for p, q in zip(spec["props"], other["props"])))


SUBS = [Sub("turn", case(), _check, 2100, 35000,
            "one propeller and its slipstream under rotation, translation, reflection and reversal; non-trivial: axis inclined "
            "to the flow and an off-axis couple", shards=16),
        Sub("installed", installed(), _installed, 600, 8000,
            "respelled direction and heading on complete models; non-trivial: some spelling differs", shards=8)]
