"""Independent reference for isolated propellers and their slipstream.

Blade-element theory closed with Goldstein's vortex condition (Phillips,
Mechanics of Flight ch. 2), Corrigan stall delay, Viterna post-stall section
data, Stone's slipstream; written against the plain specification
dictionaries of gen.py. It shares no code with machup."""
import math

import numpy as np
from scipy.integrate import simpson as _simpson
from scipy.interpolate import CubicSpline

from .gen import DEFAULT_AF

PI = math.pi


def rot_sign(v):
    return {"CCW": 1., "ccw": 1., 1: 1., "CW": -1., "cw": -1., -1: -1., 0: -1.}[v]


def flow_dir(aero):
    a, b = math.radians(aero.get("alpha", 0.)), math.radians(aero.get("beta", 0.))
    v = np.array([1., math.tan(b), math.tan(a)])
    return -v / np.linalg.norm(v)


def simpson(y, x):
    return float(_simpson(y, x=x))


class Blade:
    def __init__(self, p):
        self.p = p
        self.d = p["diameter"]
        self.k = p["blades"]
        n = p["nodes"]
        z0 = p["hub"] / self.d
        self.z = z0 + (0.999 - z0) * np.arange(n) / (n - 1.)
        self.r = self.z * self.d / 2.
        self._sections()
        self._pitch()
        self._chord()
        self._stall()
        th, ga = (math.radians(x) for x in p["orient"])
        self.fwd = np.array([math.cos(th) * math.cos(ga), math.cos(th) * math.sin(ga), -math.sin(th)])
        self.pos = np.array(p["pos"], float)
        self.rot = rot_sign(p["rot_dir"])

    def _sections(self):
        afs = self.p["airfoils"] or [DEFAULT_AF]
        keys = ("alpha_L0", "CL_alpha", "CL_max", "CD0", "CD0_L", "CD0_L2")
        if len(afs) == 1:
            v = {k: np.full(len(self.z), float(afs[0][k])) for k in keys}
        else:
            pos = {"root": self.z[0], "tip": self.z[-1]}
            at = sorted((pos.get(a["span_position"], a["span_position"]), i) for i, a in enumerate(afs))
            x = np.array([t[0] for t in at])
            v = {k: np.interp(self.z, x, [afs[t[1]][k] for t in at]) for k in keys}
        self.aL0, self.cla, self.clm, self.c0, self.c1, self.c2 = (v[k] for k in keys)

    def _pitch(self):
        info = self.p["pitch"]
        z = self.z
        if info["type"] == "from_file":
            t = np.array(info["table"])
            chord_angle = np.radians(CubicSpline(t[:, 0], t[:, 1])(z))
        else:
            lam = {"default": 0.5, "ratio": info.get("value"),
                   "value": (info.get("value") or 0.) / self.d}[info["type"]] * np.ones_like(z)
            chord_angle = np.arctan(lam / (PI * z))
        # the zero-lift line is at the chord-line angle minus the zero lift angle
        self.beta = chord_angle - self.aL0 + math.radians(info.get("pitch_increment") or 0.)

    def _chord(self):
        info = self.p["chord"]
        z = self.z
        if info["type"] == "default":
            c = 0.075 * self.d * np.sqrt(1 - z * z)
        elif info["type"] == "linear":
            tip = info.get("tip", info["root"])
            c = info["root"] + (tip - info["root"]) * (z - z[0]) / (z[-1] - z[0])
        elif info["type"] == "elliptical":
            c = info["root"] * np.sqrt(1 - z * z)
        else:
            t = np.array(info["table"])
            c = CubicSpline(t[:, 0], t[:, 1])(z) * self.d / 2.
        self.c = c
        self.sol = self.k * c / self.d

    def _stall(self):
        ast = self.clm / self.cla
        cr = self.c / self.r
        self.shift = ast * ((0.1517 / cr)**(1 / 1.084) * cr / 0.136 - 1.)
        self.ast, self.astn = ast, ast + 1.5 * self.aL0
        self.clmn = self.astn * self.cla
        self.up, self.dn = ast + self.shift, -ast + self.shift
        CDM = 1.11 + 0.18
        self.CDM = CDM

        def a2(a, clm):
            return (clm - CDM * np.sin(a) * np.cos(a)) * np.sin(a) / np.cos(a)**2
        self.a2p, self.a2n = a2(ast, self.clm), a2(self.astn, self.clmn)

        def polar(cl):
            return self.c0 + self.c1 * cl + self.c2 * cl * cl
        self.b2p = (polar(self.up * self.cla) - CDM * np.sin(self.up)**2) / np.cos(self.up)
        self.b2n = (polar(self.dn * self.cla) - CDM * np.sin(self.dn)**2) / np.cos(self.dn)

    def cl(self, al):
        out = np.zeros_like(al)
        for sgn, a2, ast in ((1., self.a2p, self.ast), (-1., self.a2n, self.astn)):
            x = sgn * al - self.shift
            with np.errstate(all="ignore"):
                vit = self.CDM / 2 * np.sin(2 * x) + a2 * np.cos(x)**2 / np.sin(x)
                w = .5 + .5 * np.tanh(np.degrees(x - ast))
                blend = np.where(x < math.radians(2.), self.cla * x, (1 - w) * self.cla * x + w * vit)
            out = np.where(sgn * al > 0, sgn * (blend + self.cla * self.shift), out)
        return out

    def cd(self, al):
        c = self.cl(al)
        out = self.c0 + self.c1 * c + self.c2 * c * c
        out = np.where(al > self.up, self.CDM * np.sin(al)**2 + self.b2p * np.cos(al), out)
        return np.where(al < self.dn, self.CDM * np.sin(al)**2 + self.b2n * np.cos(al), out)

    def cla_fd(self, al):
        return (self.cl(al + 0.001) - self.cl(al - 0.001)) / 0.002

    def residual(self, ei, einf):
        f = np.arccos(np.exp(-self.k * (1 - self.z) / (2 * math.sin(self.beta[-1]))))
        return self.sol / (8 * self.z) * self.cl(self.beta - einf - ei) - f * np.tan(ei) * np.sin(einf + ei)

    def induced(self, J, windmill=False):
        """Induced angle; None when some node has no unique solution (or the blade
        is not everywhere below its aerodynamic pitch: windmilling)."""
        einf = np.arctan2(J, PI * self.z)
        top = self.beta - einf
        if windmill and np.any(np.abs(top) <= 1e-4):
            return None, einf
        if (not windmill and np.any(top <= 1e-4)) or np.any(np.abs(top) > 1.2) or self.beta[-1] <= 0:
            return None, einf
        m = 200
        f = np.linspace(0., 1., m + 1)
        vals = np.array([self.residual(x * top, einf) for x in f])
        sg = np.sign(vals)
        changes = np.sum(np.abs(np.diff(sg, axis=0)) > 0, axis=0)
        if np.any(changes != 1):
            return None, einf
        j = np.argmax(np.abs(np.diff(sg, axis=0)) > 0, axis=0)
        lo, hi = f[j] * top, f[j + 1] * top
        ylo = self.residual(lo, einf)
        for _ in range(70):
            mid = .5 * (lo + hi)
            y = self.residual(mid, einf)
            left = np.sign(y) == np.sign(ylo)
            lo, hi = np.where(left, mid, lo), np.where(left, hi, mid)
        return .5 * (lo + hi), einf

    def solve(self, J, windmill=False):
        """Non-dimensional operating point (None outside of the unique propulsive range)."""
        ei, einf = self.induced(J, windmill)
        if ei is None:
            return None
        s = State()
        s.J, s.ei, s.einf = J, ei, einf
        s.alpha = self.beta - einf - ei
        s.margin = np.min(np.abs(np.concatenate([s.alpha, s.alpha - self.up, s.alpha - self.dn])))
        s.cl, s.cd = self.cl(s.alpha), self.cd(s.alpha)
        cla = self.cla_fd(s.alpha)
        z, w = self.z, self.sol
        e = ei + einf
        rel = (np.cos(ei) / np.cos(einf))**2        # (V_b / (omega r))^2
        L, D = s.cl * np.cos(e) - s.cd * np.sin(e), s.cd * np.cos(e) + s.cl * np.sin(e)
        t = np.tan(einf)
        s.CT = PI**2 / 4 * simpson(z**2 * w * rel * L, z)
        s.Cl = PI**2 / 8 * simpson(z**3 * w * rel * D, z)
        s.CN = PI**2 / 8 * simpson(z**2 * w * np.cos(ei)**2 * (
            2 * t * D - t * t * (s.cl * np.cos(e) - (cla + s.cd) * np.sin(e))), z)
        s.Cn = PI**2 / 16 * simpson(z**3 * w * np.cos(ei)**2 * (
            2 * t * L + t * t * ((cla + s.cd) * np.cos(e) + s.cl * np.sin(e))), z)
        s.CP = 2 * PI * s.Cl
        s.scale = PI**2 / 4 * simpson(z**2 * w * rel * (np.abs(s.cl) + np.abs(s.cd)), z)
        return s

    def loads(self, s, n, rho, u, cg):
        """Thrust, torque about the axis and body-fixed force and moment."""
        q4, q5 = rho * n * n * self.d**4, rho * n * n * self.d**5
        T, l = q4 * s.CT, -self.rot * q5 * s.Cl
        into = -u                      # direction the propeller moves through the air
        c = float(np.clip(into @ self.fwd, -1., 1.))
        ang = math.atan2(np.linalg.norm(np.cross(into, self.fwd)), c)
        side = c * self.fwd - into     # from the flight direction towards the axis, in the disk plane
        m = np.linalg.norm(side)
        side = side / m if m > 0 else side
        # the disk-plane force acts along the transverse component of the air's motion
        F = T * self.fwd + q4 * s.CN * ang * side
        M = np.cross(self.pos - cg, F) + self.rot * q5 * s.Cn * ang * side + l * self.fwd
        return T, l, F, M

    def induced_velocity(self, s, n):
        vi = 2 * PI * n * self.r * np.sin(s.ei) / np.cos(s.einf)
        return vi, vi * np.cos(s.ei + s.einf), vi * np.sin(s.ei + s.einf)

    def wash(self, s, n, V, points):
        """Velocity induced at points; second value: distance of the closest point
        to a boundary of the slipstream (relative to the radius)."""
        vi, vx, vt = self.induced_velocity(s, n)
        R, r = self.d / 2., self.r
        out = np.zeros((len(points), 3))
        margin = np.inf
        for i, q in enumerate(np.asarray(points, float)):
            x = -(q - self.pos) @ self.fwd
            radial = q - self.pos + x * self.fwd
            rad = np.linalg.norm(radial)
            margin = min(margin, max(abs(x) / R, 0. if rad <= R * (1 + 1e-6) else 1.),
                         max(abs(rad - R) / R, 0. if x >= -1e-6 * R else 1.))
            if x <= 0 or rad > R:
                continue
            kd = 1. + x / math.sqrt(x * x + R * R)
            rp = np.empty_like(r)
            rp[0] = r[0]
            for j in range(1, len(r)):
                v2 = vx[j] + vx[j - 1]
                rp[j] = math.sqrt(rp[j - 1]**2 + (r[j]**2 - r[j - 1]**2) * (2 * V + v2) / (2 * V + kd * v2))
            margin = min(margin, abs(rad - rp[0]) / R, abs(rad - rp[-1]) / R)
            if rad < rp[0] or rad > rp[-1]:
                continue
            axial, swirl = kd * vx, 2. * vt * r / rp
            m = int(len(r) / 10)
            swirl[:m] = swirl[m] / rp[m] * rp[:m]
            a, t = np.interp(rad, rp, axial), np.interp(rad, rp, swirl)
            out[i] = -a * self.fwd
            if rad > 0:
                out[i] += self.rot * t * np.cross(self.fwd, radial / rad)
        return out, margin


class State:
    pass


def jmax(b):
    """Advance ratio above which some section windmills."""
    return float(np.min(np.tan(b.beta) * PI * b.z))
