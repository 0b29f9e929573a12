"""C19: ways of prescribing the propellers' operation."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, refmodel, refprop
from vlib.runner import Sub
from vlib.util import KEYS, check, close, forces_close, require

from machup import PropsSolver
import machup.MU as MU

PROPERTY = "C19"
ASSUMPTIONS = ["power and throttle may have several corresponding rotation rates; the one found must satisfy the balance, "
               "and must be the expected one only where absorbed power rises with the rate over a factor of 64",
               "the found rate is read from the reported induced velocity and angles (distributions)",
               "motor model: torque 7.0432 Gr/Kv (I - Io) ft lbf, I from the back EMF and the resistances, speed-control "
               "efficiency 1 - 0.079 (1 - throttle), 1 ft lbf = 1.3558179483314 N m"]


@st.composite
def case(draw):
    c = draw(refmodel.case(min_props=1, max_props=3, max_wings=1, max_grid=3, modes=("none",), rates=False))
    if draw(st.integers(0, 14)) == 0:
        c["aero"]["V_mag"] = 0.
    c["at"] = [draw(gen.num(.15, .8, .01)) for _ in c["plane"]["props"]]
    c["n0"] = [draw(gen.num(3, 150, 1)) for _ in c["plane"]["props"]]
    c["mode"] = [draw(st.sampled_from(["J", "rot_per_sec", "brake_power", "brake_power"])) for _ in c["plane"]["props"]]
    c["common"] = draw(st.booleans())
    c["extra"] = draw(st.booleans())
    c["mixed"] = draw(st.booleans())        # the first propeller's state is given for all but the others
    return c


def _rate(d, name, p):
    """Rotation rate from the reported section data."""
    at = np.flatnonzero(d["name"] == name)
    ei, einf = np.radians(d["induced_angle"][at]), np.radians(d["advance_angle"][at])
    i = np.argmax(np.abs(np.sin(ei) / np.cos(einf)) * d["radial_position"][at])
    r = d["radial_position"][at][i]
    return d["Vi"][at][i] * np.cos(einf[i]) / (2 * math.pi * r * np.sin(ei[i]))


def _one(p, aero, ps, tmp):
    """Loads of a propeller alone."""
    spec = {"name": "x", "cg": [0., 0., 0.], "units": None, "lat_ref": 1., "long_ref": 1., "position": None, "wings": [],
            "props": [p]}
    return PropsSolver(gen.build(spec, tmp), None).solve(dict(aero), dict(ps))[0]["total"]


def _absorbed(p, res):
    return -refprop.rot_sign(p["rot_dir"]) * res["Torque"]


def _rising(p, aero, n, P):
    """Absorbed power crosses P just once, at n."""
    b = refprop.Blade(p)
    V = aero["V_mag"]
    for m in n * 2. ** np.linspace(-3, 3, 25):
        if abs(m / n - 1) < 1e-6:
            continue
        J = V / (m * b.d)
        s = b.solve(J, windmill=True)
        if s is None:
            if m > n:
                return False
            continue
        if (aero["rho"] * m ** 3 * b.d ** 5 * s.CP > P) != (m > n):
            return False
    return True


def _modes(c, rec):
    spec, aero = c["plane"], c["aero"]
    still = aero["V_mag"] == 0.
    if still:
        spec["wings"] = []
    names = [p["name"] for p in spec["props"]]
    base, want, got = {}, {}, {}
    with gen.Scratch() as tmp:
        powered = []
        for p, J, n0, mode in zip(spec["props"], c["at"], c["n0"], c["mode"]):
            n = n0 if still else aero["V_mag"] / (J * p["diameter"])
            b = refprop.Blade(p)
            s = b.solve(0. if still else J)
            require(s is not None and s.margin > 1e-6 and s.CP > 1e-4)
            base[p["name"]] = {"J": 0., "rot_per_sec": n} if still else {"J": J}
            if mode == "J":
                got[p["name"]] = dict(base[p["name"]])
            elif mode == "rot_per_sec":
                got[p["name"]] = {"rot_per_sec": n}
            else:
                alone = _one(p, aero, base[p["name"]], tmp)
                P = 2 * math.pi * n * _absorbed(p, alone)
                close("power of the propeller", P, aero["rho"] * n ** 3 * b.d ** 5 * s.CP, abs(P), 1e-6)
                got[p["name"]] = {"brake_power": P}
                powered.append((p, n, P))
            want[p["name"]] = s
        if len(names) == 1 and c["common"]:
            base, got = base[names[0]], got[names[0]]
        elif c["mixed"]:
            base, got = (dict({n: x[n] for n in names[1:]}, **x[names[0]]) for x in (base, got))
        elif c["extra"]:
            got["unused"] = {"J": .3}
        mu = MU.MachUp(inputAirplane=gen.build(spec, tmp))
        full = dict(aero)
        a = mu.solve(dict(full), c["ctl"], copy.deepcopy(base))
        da = mu.distributions(dict(full), c["ctl"], copy.deepcopy(base))[1]
        mu2 = MU.MachUp(inputAirplane=gen.build(spec, tmp))
        b = mu2.solve(dict(full), c["ctl"], copy.deepcopy(got))
        db = mu2.distributions(dict(full), c["ctl"], copy.deepcopy(got))[1]
        same = True
        for p, n, P in powered:
            m = _rate(db, p["name"], p)
            alone = _one(p, aero, {"rot_per_sec": m}, tmp)
            close("power absorbed at the found rate %r" % m, 2 * math.pi * m * _absorbed(p, alone), P, abs(P), 1e-6)
            rising = _rising(p, aero, n, P)
            if rising:
                close("rate absorbing the power %r" % P, m, n, n, 1e-6)
            same &= rising
            rec.tag("rising power", rising)
        if same:
            size = refmodel.solve(spec, aero, c["ctl"], base) if not still else None
            if size is not None:
                require(size.ok)
                fs, ms = size.fs, size.ms
            else:
                fs = max(abs(a[k]) for k in KEYS[:6])
                ms = fs * 10. + max(abs(a[k]) for k in KEYS[6:])
            forces_close("modes %s against advance ratios" % c["mode"], b, a, fs, ms, 1e-5)
            for k in ("alpha", "induced_angle", "advance_angle", "section_CL", "Vi"):
                close("%s for modes %s" % (k, c["mode"]), db[k], da[k], np.max(np.abs(da[k])) + 1e-9, 1e-5)
    rec.nt(any(m != "J" for m in c["mode"]))
    rec.tag("power", bool(powered))
    rec.tag("still air", still)
    rec.tag("wings", bool(spec["wings"]))
    rec.tag("several propellers", len(names) > 1)
    rec.tag("common state with exceptions", len(names) > 1 and c["mixed"])


@st.composite
def motor_case(draw):
    n = draw(st.integers(1, 2))
    name = draw(gen.style())
    props = [draw(gen.prop(name % ("p", i), with_motor=True)) for i in range(n)]
    for p in props:
        if draw(st.booleans()):      # sizes that suit the motor
            p["diameter"] = draw(gen.num(.3, 1.5, .05))
            p["hub"] = round(.12 * p["diameter"], 6)
            p["pitch"] = {"type": "ratio", "value": draw(gen.num(.4, 1., .05))}
            p["chord"] = {"type": "default"}
        p["airfoils"] = p["airfoils"][:2]
        if not p["airfoils"]:
            p["airfoils"] = [dict(draw(gen.prop_airfoil()), key="only")]
        for a, where in zip(p["airfoils"], ("root", "tip")):
            a.pop("span_position", None)
            if len(p["airfoils"]) == 2:
                a["span_position"] = where
    units = draw(st.sampled_from(["English", "SI"]))
    aero = draw(gen.aero(rates=False))
    aero["V_mag"] = draw(st.one_of(gen.num(1, 60, .5), st.just(0.)))
    aero["rho"] = draw(st.sampled_from([.0023769, .002])) if units == "English" else draw(st.sampled_from([1.225, 1.]))
    return {"plane": {"name": "m", "cg": [0., 0., 0.], "units": units, "lat_ref": 1., "long_ref": 1., "position": None,
                      "wings": [], "props": props},
            "aero": aero, "throttle": [draw(gen.num(.1, 1., .05)) for _ in props], "named": draw(st.booleans())}


def _torque(m, throttle, n, units):
    esc = 1. - .079 * (1. - throttle)
    amps = (esc * throttle * m["battery_voltage"] - m["gear_reduction"] / m["motor_kv"] * 60. * n) / (
        esc * throttle * m["battery_resistance"] + m["speed_control_resistance"] + m["motor_resistance"])
    ft = 7.0432 * m["gear_reduction"] / m["motor_kv"] * (amps - m["motor_no_load_current"])
    return ft if units == "English" else ft * 1.3558179483314


def _motor(c, rec):
    spec, aero = c["plane"], c["aero"]
    units = spec["units"]
    named = c["named"] or len(spec["props"]) > 1
    thr = dict(zip([p["name"] for p in spec["props"]], c["throttle"]))
    if len(spec["props"]) > 1 and not c["named"]:
        thr = dict.fromkeys(thr, c["throttle"][0])
        named = False
    ps = {k: {"electric_throttle": v} for k, v in thr.items()} if named else {"electric_throttle": c["throttle"][0]}
    with gen.Scratch() as tmp:
        for p in spec["props"]:
            require(np.all(refprop.Blade(p).c > 0))
        # does the motor's torque exceed the propeller's at some rate, and fall short at another?
        both = True
        for p in spec["props"]:
            signs = set()
            for k in range(-6, 7):
                n = 15. * 2. ** k
                x = _one(p, aero, {"rot_per_sec": n}, tmp)
                signs.add(np.sign(_absorbed(p, x) - _torque(p["motor"], thr[p["name"]], n, units)))
            both &= {-1., 1.} <= signs
        mu = MU.MachUp(gen.write_json(gen.to_json(spec, tmp), tmp))
        try:
            got = mu.solve(dict(aero), None, copy.deepcopy(ps))
            d = mu.distributions(dict(aero), None, copy.deepcopy(ps))[1]
        except RuntimeError as e:
            check(not both, "motor and propeller can be in balance, but: %s", e)
            rec.tag("no balance")
            return
        total = dict.fromkeys(KEYS, 0.)
        size = 0.
        for p in spec["props"]:
            n = _rate(d, p["name"], p)
            alone = _one(p, aero, {"rot_per_sec": n}, tmp)
            m = p["motor"]
            stall = abs(_torque(m, thr[p["name"]], 0., units)) + abs(_torque(m, thr[p["name"]], 2 * n, units))
            close("torque of %s at %r rev/s" % (p["name"], n), _absorbed(p, alone), _torque(m, thr[p["name"]], n, units),
                  stall + abs(alone["Torque"]), 1e-6)
            for k in KEYS:
                total[k] += alone[k]
            size += max(abs(alone[k]) for k in KEYS) * (10. + np.linalg.norm(p["pos"]))
        forces_close("throttle against found rates", got, total, size, size, 1e-5)
    rec.nt(both)
    rec.tag("SI", units == "SI")
    rec.tag("two propellers", len(spec["props"]) == 2)
    rec.tag("still air", aero["V_mag"] == 0.)


SUBS = [Sub("modes", case(), _modes, 500, 25000,
            "the same operation by advance ratio, rate or power, singly and by name; non-trivial: some mode other than J",
            shards=16),
        Sub("motor", motor_case(), _motor, 300, 15000,
            "throttle; non-trivial: a balance of torques exists between 0.2 and 960 rev/s", shards=16)]
