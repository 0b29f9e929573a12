"""Independent reference for the wing side of MachUp.

Written from the published numerical lifting-line method (Phillips & Snyder
2000; Phillips, Mechanics of Flight, ch. 1.9) and the documented geometry
conventions, from the plain specification dictionaries of gen.py. It shares no
code with machup."""
import math

import numpy as np

from .gen import DEFAULT_AF, segments

D2R = math.pi / 180.


def tips(spec):
    """{(wing name, side): (left point, right point)} of every segment."""
    by = {w["name"]: w for w in spec["wings"]}
    base = np.array(spec["position"] if spec.get("position") is not None else [0., 0., 0.], float)

    def root(w, side):
        o = base if w["parent"] is None else tip(by[w["parent"]], side)
        sgn = -1. if side == "left" else 1.
        return o + np.array([w["pos"][0], w["pos"][1] + sgn * w["yoffset"], w["pos"][2]])

    def tip(w, side):
        sgn = -1. if side == "left" else 1.
        b = w["semispan"]
        return root(w, side) + np.array([-b * math.tan(w["sweep"] * D2R),
                                         sgn * b * math.cos(w["dihedral"] * D2R),
                                         -b * math.sin(w["dihedral"] * D2R)])
    out = {}
    for w, s in segments(spec):
        r, t = root(w, s), tip(w, s)
        out[(w["name"], s)] = (t, r) if s == "left" else (r, t)
    return out


def airfoils(w):
    root = w["airfoil_root"] or DEFAULT_AF
    return root, (w["airfoil_tip"] or root)


def flap(cf, sealed):
    th = math.acos(2. * cf - 1.)
    ideal = 1. - (th - math.sin(th)) / math.pi
    hinge = 3.9598 * math.atan((cf + 0.006527) * 89.2574 + 4.898015) - 5.18786
    if not sealed:
        hinge *= 0.8
    return ideal * hinge, (math.sin(2. * th) - 2. * math.sin(th)) / 4.


class Grid:
    pass


def grid(spec, cosine=True):
    g = Grid()
    rows = {k: [] for k in ("name", "side", "t", "t1", "t2", "r", "r1", "r2", "c", "c1", "c2", "dS",
                            "twist", "dihedral", "sweep", "un", "ua", "us", "flap", "cmd",
                            "mixa", "mixe", "mixr", "mixf", "wing", "ic2")}
    prm = {k: ([], []) for k in ("CL_alpha", "alpha_L0", "Cm_alpha", "Cm_L0", "CD0", "CD0_L",
                                 "CD0_L2", "CL_max")}
    tp = tips(spec)
    g.area_ref = 0.
    g.tie = False
    for w, side in segments(spec):
        left, right = tp[(w["name"], side)]
        n = w["grid"]
        root, tip = airfoils(w)
        a_left, a_right = (tip, root) if side == "left" else (root, tip)
        area = w["semispan"] * (w["root_chord"] + w["tip_chord"]) / 2.
        if w["is_main"]:
            g.area_ref += area
        dih, c = w["dihedral"] * D2R, w["control"]
        sgn = -1. if side == "left" else 1.
        for k in range(1, n + 1):
            if cosine:
                t = .5 * (1 - math.cos(math.pi * (k - .5) / n))
                t1 = .5 * (1 - math.cos(math.pi * (k - 1.) / n))
                t2 = .5 * (1 - math.cos(math.pi * k / n))
            else:
                t, t1, t2 = (k - .5) / n, (k - 1.) / n, k / float(n)

            def out(x):      # distance from the root, 0..1
                return 1. - x if side == "left" else x

            def chord(x):
                return w["root_chord"] + (w["tip_chord"] - w["root_chord"]) * out(x)
            twist = w["mount"] - w["washout"] * out(t)
            tw = twist * D2R
            rows["name"].append("%s_%s" % (side, w["name"]))
            rows["side"].append(side)
            rows["wing"].append(w["name"])
            rows["t"].append(t)
            rows["t1"].append(t1)
            rows["t2"].append(t2)
            rows["r"].append(left + t * (right - left))
            rows["r1"].append(left + t1 * (right - left))
            rows["r2"].append(left + t2 * (right - left))
            rows["c"].append(chord(t))
            rows["c1"].append(chord(t1))
            rows["c2"].append(chord(t2))
            # planform area of the strip: span (without sweep) times mean chord
            strip = w["semispan"] * (t2 - t1)
            rows["dS"].append(strip * (chord(t1) + chord(t2)) / 2.)
            rows["ic2"].append(strip * (chord(t1)**2 + chord(t1)*chord(t2) + chord(t2)**2) / 3.)
            rows["twist"].append(twist)
            rows["dihedral"].append(w["dihedral"])
            rows["sweep"].append(w["sweep"])
            # body frame: x forward, y right, z down. Nose-up rotation by the
            # twist about the span axis, then the panel is rotated by dihedral
            un = np.array([-math.sin(tw), -sgn * math.sin(dih) * math.cos(tw), -math.cos(dih) * math.cos(tw)])
            ua = np.array([-math.cos(tw), sgn * math.sin(dih) * math.sin(tw), math.cos(dih) * math.sin(tw)])
            rows["un"].append(un)
            rows["ua"].append(ua)
            rows["us"].append(np.cross(ua, un))
            fe = cmd = 0.
            mix = [0., 0., 0., 0.]
            if c and min(abs(out(t) - c["span"][0]), abs(out(t) - c["span"][1])) < 1e-9:
                g.tie = True        # control point exactly on the edge of the surface
            if c and c["span"][0] < out(t) < c["span"][1]:
                f = (out(t) - c["span"][0]) / (c["span"][1] - c["span"][0])
                cf = c["chord"][0] + f * (c["chord"][1] - c["chord"][0])
                fe, cmd = flap(cf, c["sealed"])
                m = c["mix"]
                mix = [sgn * m.get("aileron", 0.), m.get("elevator", 0.), sgn * m.get("rudder", 0.),
                       m.get("flap", 0.)]
            rows["flap"].append(fe)
            rows["cmd"].append(cmd)
            for key, v in zip(("mixa", "mixe", "mixr", "mixf"), mix):
                rows[key].append(v)
            for key, (lo, hi) in prm.items():
                lo.append(a_left[key])
                hi.append(a_right[key])
    for k, v in rows.items():
        setattr(g, k, np.array(v) if k not in ("name", "side", "wing") else v)
    g.prm = {k: (np.array(a), np.array(b)) for k, (a, b) in prm.items()}
    g.n = len(g.t)
    g.cg = np.array(spec["cg"], float)
    return g


def lerp(g, key):
    a, b = g.prm[key]
    return a + g.t * (b - a)


def freestream(aero):
    a, b = aero.get("alpha", 0.) * D2R, aero.get("beta", 0.) * D2R
    # alpha = atan(w/u), beta = atan(v/u): direction (1, tan b, tan a)
    d = np.array([1., math.tan(b), math.tan(a)])
    return -aero["V_mag"] * d / np.linalg.norm(d)


def deflections(g, ctl):
    ctl = ctl or {}
    deg = (ctl.get("aileron", 0.) * g.mixa + ctl.get("elevator", 0.) * g.mixe +
           ctl.get("rudder", 0.) * g.mixr + ctl.get("flap", 0.) * g.mixf)
    eff = np.where(np.abs(deg) > 11., 1.09589743589744 - 8.71794871794872e-3 * np.abs(deg), 1.)
    return deg, eff


def influence(g, u):
    """Velocity induced at control point i by unit horseshoe j."""
    n = g.n
    scale = max(1e-9, np.max(np.linalg.norm(g.r2 - g.r1, axis=1)))
    a = g.r[:, None, :] - g.r1[None, :, :]
    b = g.r[:, None, :] - g.r2[None, :, :]
    na, nb = np.linalg.norm(a, axis=2), np.linalg.norm(b, axis=2)
    fa, fb = na * (na - a @ u), nb * (nb - b @ u)
    d = np.cross(u, b) / fb[:, :, None] - np.cross(u, a) / fa[:, :, None]
    den = na * nb * (na * nb + np.einsum("ijk,ijk->ij", a, b))
    i = np.arange(n)
    den[i, i] = np.inf
    d = (d + np.cross(a, b) * ((na + nb) / den)[:, :, None]) / (4. * math.pi)
    rel = [np.min(fa / (scale * np.maximum(na, scale))), np.min(fb / (scale * np.maximum(nb, scale)))]
    if n > 1:
        rel.append(np.min(den / (na * nb * scale * scale)))
    worst = min(rel) if np.all(np.isfinite(rel)) else -1.
    return d, float(worst)


class Result:
    pass


def solve(spec, aero, ctl=None, local=None, g=None):
    g = g or grid(spec)
    res = Result()
    res.g = g
    vinf = freestream(aero)
    u = vinf / np.linalg.norm(vinf)
    if local is None:
        v = np.tile(vinf, (g.n, 1))
        rho = np.full(g.n, float(aero["rho"]))
    else:
        v, rho = np.array(local)[:, 1:].copy(), np.array(local)[:, 0].copy()
    om = np.array([aero.get(k, 0.) for k in ("roll_rate", "pitch_rate", "yaw_rate")])
    v = v - np.cross(np.tile(om, (g.n, 1)), g.r - g.cg)
    V = np.linalg.norm(v, axis=1)
    deg, eff = deflections(g, ctl)
    dflap = g.flap * eff * deg * D2R
    D, res.sing = influence(g, u)
    dl = g.r2 - g.r1
    vn, va = np.einsum("ij,ij->i", v, g.un), np.einsum("ij,ij->i", v, g.ua)
    res.forward = float(np.min(va / V))
    al = np.arctan(vn / va)

    def section(fn):
        lo, hi = fn(0), fn(1)
        return lo + g.t * (hi - lo)

    P = g.prm
    cl = section(lambda s: P["CL_alpha"][s] * (al + dflap - P["alpha_L0"][s]))
    cla = lerp(g, "CL_alpha")
    A = -(V * g.dS * cla)[:, None] * np.einsum("ijk,ik->ij", D, g.un)
    i = np.arange(g.n)
    A[i, i] += 2. * np.linalg.norm(np.cross(v, dl), axis=1)
    B = V * V * g.dS * cl
    res.ok = bool(np.all(np.isfinite(A)) and np.all(np.isfinite(B)) and res.sing > 0)
    if not res.ok:
        return res
    try:
        res.cond = np.linalg.cond(A / np.max(np.abs(A), axis=1)[:, None])
        gam = np.linalg.solve(A, B)
    except np.linalg.LinAlgError:
        res.ok = False
        return res
    vi = v + np.einsum("ijk,j->ik", D, gam)
    F = (rho * gam)[:, None] * np.cross(vi, dl)
    alpha = np.arctan2(np.einsum("ij,ij->i", vi, g.un), np.einsum("ij,ij->i", vi, g.ua))
    scl = section(lambda s: P["CL_alpha"][s] * (alpha - P["alpha_L0"][s]))
    scd = section(lambda s: P["CD0"][s] + P["CD0_L"][s] * scl + P["CD0_L2"][s] * scl * scl) \
        + 0.002 * np.abs(deg)
    scm = section(lambda s: P["Cm_L0"][s] + P["Cm_alpha"][s] * (alpha - P["alpha_L0"][s])) \
        + deg * D2R * g.cmd
    q = .5 * rho * V * V
    vmag = np.linalg.norm(vi, axis=1)
    Fp = (q * scd * g.dS / vmag)[:, None] * vi
    arm = g.r - g.cg
    M = np.cross(arm, F) - (q * scm * g.ic2)[:, None] * g.us
    Mp = np.cross(arm, Fp)
    res.vi_forward = float(np.min(np.einsum("ij,ij->i", vi, g.ua) / vmag))
    res.gamma, res.alpha, res.cl, res.cd, res.cm = gam, alpha, scl, scd, scm
    res.forces, res.fp, res.vi, res.u, res.v = F, Fp, vi, u, v
    Lhat = np.cross(u, [0., 1., 0.])
    Lhat /= np.linalg.norm(Lhat)
    Shat = np.cross(Lhat, u)

    def pack(f, m):
        f, m = f.sum(axis=0), m.sum(axis=0)
        return {"FL": float(f @ Lhat), "FD": float(f @ u), "FS": float(f @ Shat),
                "FX": f[0], "FY": f[1], "FZ": f[2], "MX": m[0], "MY": m[1], "MZ": m[2]}
    res.inviscid, res.viscous, res.total = pack(F, M), pack(Fp, Mp), pack(F + Fp, M + Mp)
    res.fscale = float(np.sum(np.linalg.norm(F, axis=1)) + np.sum(np.linalg.norm(Fp, axis=1)) +
                       np.sum(q * g.dS) * 1e-3) or 1e-300
    res.mscale = float(np.sum(np.linalg.norm(M, axis=1)) + np.sum(np.linalg.norm(Mp, axis=1)) +
                       np.sum(np.linalg.norm(arm, axis=1) * np.linalg.norm(F, axis=1)) +
                       np.sum(q * g.ic2) * 1e-3) or 1e-300
    return res


def benign(res, cond=1e7, sing=1e-5):
    """The case is numerically well posed (no vortex through a control point,
    flow from ahead)."""
    return (res.ok and not res.g.tie and res.cond < cond and res.sing > sing and res.forward > 0.2 and res.vi_forward > 0.05
            and np.all(np.isfinite(res.forces)))
