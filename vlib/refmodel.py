"""Independent reference for a complete model: propellers (refprop), their
slipstream over the wings, and the wings (refll) in that flow."""
import numpy as np
from hypothesis import strategies as st

from . import gen, refll, refprop
from .util import FK, KEYS, MK


@st.composite
def case(draw, max_wings=2, max_props=2, max_grid=5, min_wings=0, min_props=0, rates=True, near=True,
         modes=("J", "J", "none", "rps", "named"), aero_kw=None, prop_kw=None, **kw):
    """An airplane with wings and propellers, a flow, deflections and a propeller state."""
    n = draw(st.integers(min_props, max_props))
    if n == 0 and min_wings == 0:
        min_wings = 1
    kw.setdefault("big", (9, 17))
    plane = draw(gen.airplane(min_wings=min_wings, max_wings=max_wings, max_grid=max_grid, **kw))
    name = draw(gen.style())
    for i in range(n):
        p = draw(gen.prop(name % ("p", i), **(prop_kw or {})))
        if near and plane["wings"] and draw(st.integers(0, 3)) > 0:
            w = draw(st.sampled_from(plane["wings"]))
            if w["parent"] is None:
                s = {"left": -1., "right": 1.}.get(w["side"]) or draw(st.sampled_from([-1., 1.]))
                f = draw(gen.num(0, 0.9, 0.05))
                # just ahead of the wing
                p["pos"] = [round(w["pos"][0] + draw(gen.num(0.3, 2.5, 0.1)) + 0.013, 6),
                            round(w["pos"][1] + s * (w["yoffset"] + f * w["semispan"]) + 0.007, 6),
                            round(w["pos"][2] + draw(gen.num(-0.4, 0.4, 0.05)) + 0.011, 6)]
        plane["props"].append(p)
    aero = draw(gen.aero(rates=rates, **(aero_kw or {})))
    mode = draw(st.sampled_from(list(modes))) if n else "none"

    def one(p):
        J = draw(gen.num(0.1, 0.9, 0.02))
        if mode == "rps" or (mode in ("named", "mixed") and draw(st.booleans())):
            return {"rot_per_sec": round(aero["V_mag"] / (J * p["diameter"]), 6)}
        return {"J": J}
    if mode == "none":
        ps = None
    elif mode == "mixed":        # one state for all propellers but the last
        ps = dict(one(plane["props"][0]), **{p["name"]: one(p) for p in plane["props"][1:][-1:]})
    elif mode == "named":
        ps = {p["name"]: one(p) for p in plane["props"]}
    else:
        ps = one(plane["props"][0])
    return {"plane": plane, "aero": aero, "ctl": draw(st.one_of(st.none(), gen.controls())), "prop": ps}


def operating_point(p, aero, ps):
    """(J, revolutions per second) the state prescribes for propeller p."""
    V = aero["V_mag"]
    s = (ps or {}).get(p["name"], ps)
    if not s:
        return 0.5, V / (0.5 * p["diameter"])
    if "J" in s:
        if s["J"] == 0 or V == 0:
            return s["J"], s["rot_per_sec"]
        return s["J"], V / (s["J"] * p["diameter"])
    n = s["rot_per_sec"]
    return V / (n * p["diameter"]), n


class Result:
    pass


def zero():
    return {k: 0. for k in KEYS}


def pack(F, M, u):
    Lh = np.cross(u, [0., 1., 0.])
    Lh /= np.linalg.norm(Lh)
    Sh = np.cross(Lh, u)
    return {"FL": float(F @ Lh), "FD": float(F @ u), "FS": float(F @ Sh), "FX": F[0], "FY": F[1], "FZ": F[2],
            "MX": M[0], "MY": M[1], "MZ": M[2]}


def solve(spec, aero, ctl=None, ps=None, points=None):
    """Loads of the whole model; .ok tells whether the case is in the domain where
    the solution is unique and not on a discontinuity."""
    r = Result()
    r.ok, r.wing, r.local, r.margin = False, None, None, 1.
    u = refprop.flow_dir(aero)
    V, rho = aero["V_mag"], aero["rho"]
    cg = np.array(spec["cg"], float)
    g = refll.grid(spec) if spec["wings"] else None
    pts = g.r if g is not None and points is None else points
    F, M, T, l = np.zeros(3), np.zeros(3), 0., 0.
    r.fs, r.ms = 1e-300, 1e-300
    r.blades = []
    local = None
    if pts is not None:
        local = np.empty((len(pts), 4))
        local[:, 0], local[:, 1:] = rho, V * u
    r.washed = np.zeros(0 if pts is None else len(pts), bool)
    for p in spec["props"]:
        b = refprop.Blade(p)
        J, n = operating_point(p, aero, ps)
        s = b.solve(J)
        if s is None or s.margin < 1e-6:
            return r
        t, tq, f, m = b.loads(s, n, rho, u, cg)
        F, M, T, l = F + f, M + m, T + t, l + tq
        q4 = rho * n * n * b.d**4
        r.fs += q4 * (s.scale + abs(s.CN))
        r.ms += q4 * (s.scale + abs(s.CN)) * (b.d + np.linalg.norm(b.pos - cg))
        r.blades.append((b, s, J, n))
        if pts is not None:
            w, margin = b.wash(s, n, V, pts)
            r.margin = min(r.margin, margin)
            r.washed |= np.any(w != 0, axis=1)
            local[:, 1:] += w
    r.prop = dict(pack(F, M, u), Thrust=T, Torque=l)
    r.total = dict((k, r.prop[k]) for k in KEYS)
    r.local = local
    if r.margin < 1e-5:
        return r
    if g is not None:
        r.wing = refll.solve(spec, aero, ctl, local=local if spec["props"] else None, g=g)
        if not refll.benign(r.wing):
            return r
        r.total = {k: r.total[k] + r.wing.total[k] for k in KEYS}
        r.fs += r.wing.fscale
        r.ms += r.wing.mscale
    r.u = u
    r.ok = True
    return r
