"""C26: straight isolated wings agree with Prandtl's lifting-line series."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.runner import Sub
from vlib.util import check, close, require

from machup import LLModel
import machup.MU as MU

PROPERTY = "C26"
ASSUMPTIONS = ["aspect ratio 4..20, taper ratio 0.3..1.5, section angles of attack below 12 degrees; the series is linear in the "
               "angles, so the tolerance includes the square of the largest angle; sections clustered by the cosine rule"]
N = 40


class Prandtl:
    """Series solution of the lifting-line equation (Fourier sine series, collocation)."""

    def __init__(self, w, alpha, roll=0., m=48):
        b = 2 * w["semispan"]
        n = np.arange(1, 2 * m)
        th = np.pi * n / (2 * m)
        y = -np.cos(th)                 # left tip to right tip, in semispans
        s = np.abs(y)
        c = w["root_chord"] + s * (w["tip_chord"] - w["root_chord"])
        a = w["airfoil_root"]
        t = w["airfoil_tip"] or a
        al = np.radians(alpha + w["mount"] - s * w["washout"]) + roll * y
        # the coefficients of the two airfoils are blended along the span
        cla = (1 - s) * a["CL_alpha"] + s * t["CL_alpha"]
        self.angle = sum(x * q["CL_alpha"] * (al - q["alpha_L0"]) for x, q in ((1 - s, a), (s, t))) / cla
        M = np.sin(np.outer(th, n)) * (4 * b / (cla * c)[:, None] + n / np.sin(th)[:, None])
        A = np.linalg.solve(M, self.angle)
        self.area = b * (w["root_chord"] + w["tip_chord"]) / 2
        self.ar = b * b / self.area
        self.CL = math.pi * self.ar * A[0]
        self.CDi = math.pi * self.ar * float(n @ (A * A))
        self.Cl = math.pi * self.ar * A[1] / 4       # A2 > 0: the left wing lifts more
        
        big = np.max(np.abs(self.angle))
        self.big = big
        slope = np.linalg.solve(M, np.ones(len(n)))[0]
        self.CL1 = math.pi * self.ar * slope * big           # lift of the largest angle everywhere
        self.CD1 = self.CL1 ** 2 / (math.pi * self.ar)


@st.composite
def case(draw):
    ar = draw(gen.num(4, 20, .5))
    lam = draw(gen.num(.3, 1.5, .05))
    semi = draw(st.sampled_from([4., 1., 10., .5]))
    root = round(4 * semi / ar / (1 + lam), 6)
    def af():
        return dict(draw(gen.airfoil()), CL_alpha=draw(gen.num(4.5, 7., .1)), alpha_L0=draw(gen.num(-.07, .03, .01)))
    a = af()
    w = dict(name="w", parent=None, side="both", pos=[draw(gen.num(-1, 1, .5)), 0., 0.], yoffset=0., semispan=semi, sweep=0.,
             dihedral=0., mount=draw(gen.num(-2, 2, .5)), washout=draw(gen.num(-4, 4, .5)), root_chord=root,
             tip_chord=round(root * lam, 6), grid=1, is_main=1, airfoil_root=a,
             airfoil_tip=draw(st.one_of(st.none(), st.builds(af))), control=None)
    return {"w": w, "alpha": draw(gen.num(-6, 6, .5)), "V": draw(st.sampled_from([10., 1., 80.])),
            "rho": draw(st.sampled_from([1., .0023769])), "roll": draw(gen.mostly(gen.num(-.06, .06, .01), 0.))}


def _loads(c, n, roll=0.):
    w = dict(c["w"], grid=n)
    spec = {"name": "p", "cg": [0.] * 3, "lat_ref": 8., "long_ref": 1., "position": None, "props": [], "wings": [w], "units": "SI"}
    model = LLModel(gen.build(spec))
    r = model.solve("linear", {"V_mag": c["V"], "alpha": c["alpha"], "rho": c["rho"],
                               "roll_rate": roll * c["V"] / w["semispan"]})["inviscid"]
    d = .5 * c["rho"] * c["V"] ** 2 * w["semispan"] * (w["root_chord"] + w["tip_chord"])
    return r["FL"] / d, r["FD"] / d, r["FS"] / d, r["MX"] / d / (2 * w["semispan"]), r["MZ"] / d / (2 * w["semispan"])


def _check(c, rec):
    p = Prandtl(c["w"], c["alpha"])
    big = p.big
    require(.001 < big < math.radians(12))
    tol = .0025 + .4 * big ** 2
    seen = {n: _loads(c, n) for n in (N // 2, N, 2 * N)}
    CL, CDi, CS, Cl, Cn = seen[2 * N]
    close("lift coefficient", CL, p.CL, p.CL1, tol)
    close("induced drag coefficient", CDi, p.CDi, p.CD1, 2 * tol)
    for i, (what, s) in enumerate((("lift", p.CL1), ("induced drag", p.CD1))):
        close("%s with %d and %d sections" % (what, N, 2 * N), seen[N][i], seen[2 * N][i], s, 1e-3)
        close("%s with %d and %d sections" % (what, N // 2, 2 * N), seen[N // 2][i], seen[2 * N][i], s, 4e-3)
    for n in seen:
        check(seen[n][1] >= -1e-9 * p.CD1, "induced drag coefficient %g with %d sections", seen[n][1], n)
        close("side force, roll and yaw of the symmetric wing", seen[n][2:], (0., 0., 0.), p.CL1, 1e-9)
    if c["roll"]:
        q = Prandtl(c["w"], c["alpha"], c["roll"])
        require(q.big < math.radians(12))
        big = max(q.big, abs(math.radians(c["alpha"])))
        close("rolling moment coefficient of the rolling wing", _loads(c, 2 * N, c["roll"])[3], q.Cl, q.CL1 / 4, .0025 + .4 * big ** 2)
        close("lift coefficient of the rolling wing", _loads(c, 2 * N, c["roll"])[0], q.CL, q.CL1, .0025 + .4 * big ** 2)
        rec.tag("rolling")
    w = c["w"]
    rec.nt(big > .02 and (w["washout"] or w["tip_chord"] != w["root_chord"] or w["airfoil_tip"]))
    rec.tag("twisted", bool(w["washout"]))
    rec.tag("tapered", w["tip_chord"] != w["root_chord"])
    rec.tag("two sections", bool(w["airfoil_tip"]))


SUBS = [Sub("series", case(), _check, 4800, 40000,
            "lift, induced drag and roll damping at 20, 40 and 80 sections a side against the series; non-trivial: section "
            "angles above 0.02 rad and taper, twist or two airfoils", shards=16)]
