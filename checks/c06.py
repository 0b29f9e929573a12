"""C06: reported totals are the consistent sum of their parts."""
import copy
import json
import math
import os

import numpy as np

from vlib import gen, refll, refmodel, refprop
from vlib.runner import Sub
from vlib.util import KEYS, FK, MK, check, close, forces_close, require, vec

from machup import LLGrid, LLModel, PropsSolver
import machup.MU as MU

PROPERTY = "C06"
ASSUMPTIONS = ["sums: wings well conditioned; any propeller state, also where the propeller solution is not unique",
               "reference: unique propulsive operating points, no wing point on the edge of a slipstream"]


def wind_axes(aero):
    u = refprop.flow_dir(aero)
    L = np.cross(u, [0., 1., 0.])
    L /= np.linalg.norm(L)
    return L, u, np.cross(L, u)


def _axes(what, res, aero, scale):
    L, D, S = wind_axes(aero)
    F = vec(res, ("FX", "FY", "FZ"))
    close(what + " FL", res["FL"], F @ L, scale, 1e-9)
    close(what + " FD", res["FD"], F @ D, scale, 1e-9)
    close(what + " FS", res["FS"], F @ S, scale, 1e-9)


def _finite(x):
    return all(math.isfinite(v) for v in x.values())


def _sums(c, rec):
    spec, aero, ctl, ps = c["plane"], c["aero"], c["ctl"], c["prop"]
    wf, wm = 0., 0.
    if spec["wings"]:
        ref = refll.solve(spec, aero, ctl)
        require(refll.benign(ref))
        wf, wm = ref.fscale, ref.mscale
    with gen.Scratch() as tmp:
        plane = gen.build(spec, tmp)
        mu = MU.MachUp(inputAirplane=plane)
        path = os.path.join(tmp, "r.json")
        total = mu.solve(dict(aero), ctl and dict(ctl), copy.deepcopy(ps), path)
        parts = json.load(open(path))
        solo = []
        for p in spec["props"]:
            one = copy.deepcopy(spec)
            one["props"] = [copy.deepcopy(p)]
            solo.append((p, gen.build(one, tmp)))
        wing, prop = parts["wing_results"], parts["prop_results"]
        require(all(_finite(x) for r in (wing, prop) for x in r.values()))
        fs = wf + 1e-12 + sum(abs(r["total"][k]) for r in (wing, prop) if r for k in ("FX", "FY", "FZ"))
        ms = wm + 1e-12 + sum(abs(r["total"][k]) for r in (wing, prop) if r for k in MK) + fs
        for k in KEYS:
            s = fs if k in FK else ms
            close("total %s" % k, total[k], sum(r["total"][k] for r in (wing, prop) if r), s, 1e-9)
            close("total %s in the file" % k, parts["total_results"][k], total[k], s, 1e-12)
        _axes("total", total, aero, fs)
        local = None
        if spec["props"]:
            pts = LLGrid(plane).get_control_point_pos() if spec["wings"] else None
            res, local = PropsSolver(plane, pts).solve(dict(aero), copy.deepcopy(ps))
            check((local is None) == (pts is None), "velocity field without wing points, or none with")
            forces_close("propellers", prop["total"], res["total"], fs, ms, 1e-9)
            _axes("propellers", prop["total"], aero, fs)
            add = dict.fromkeys(KEYS + ("Thrust", "Torque"), 0.)
            mag, tmag = 0., 0.
            field = None if local is None else np.tile(aero["V_mag"] * refprop.flow_dir(aero), (len(local), 1))
            base = None if field is None else field.copy()
            for p, one in solo:
                own = ps.get(p["name"], ps) if ps else ps
                r1, v1 = PropsSolver(one, pts).solve(dict(aero), copy.deepcopy(own))
                for k in add:
                    add[k] += r1["total"][k]
                mag += abs(r1["total"]["Thrust"])
                tmag += abs(r1["total"]["Torque"])
                if field is not None:
                    field += v1[:, 1:] - base
            for k in add:
                s = {"Thrust": mag, "Torque": tmag}.get(k, fs + mag if k in FK else ms + tmag) + 1e-12
                close("sum over propellers of %s" % k, prop["total"][k], add[k], s, 1e-9)
            if field is not None:
                sc = np.max(np.abs(field)) + 1e-9
                close("density on the wings", local[:, 0], np.full(len(local), aero["rho"]), aero["rho"], 1e-12)
                close("velocities on the wings", local[:, 1:], field, sc, 1e-9)
                rec.tag("wing in slipstream", np.any(np.abs(field - base) > 1e-6 * sc))
        if spec["wings"]:
            st = dict(aero)
            if local is not None:
                st["local_state"] = local
            alone = LLModel(gen.build(dict(spec, props=[]), tmp)).solve("linear", st, ctl and dict(ctl))
            for part in ("inviscid", "viscous", "total"):
                forces_close("wings " + part, wing[part], alone[part], fs, ms, 1e-7)
                _axes("wings " + part, wing[part], aero, fs + abs(wing["viscous"]["FX"]))
            for k in KEYS:
                s = (fs if k in FK else ms) + abs(wing["inviscid"][k]) + abs(wing["viscous"][k])
                close("inviscid + viscous %s" % k, wing["total"][k], wing["inviscid"][k] + wing["viscous"][k], s, 1e-10)
            t = wing["total"]
            if t["FD"] != 0 and math.isfinite(t["L/D"]):
                close("L/D", t["L/D"], t["FL"] / t["FD"], abs(t["FL"] / t["FD"]) + 1e-9, 1e-9)
            wd, _ = mu.distributions(dict(aero), ctl and dict(ctl), copy.deepcopy(ps))
            f = np.asarray(wd["forces_xyz"])
            s = np.sum(np.abs(f)) + 1e-12
            for i, k in enumerate(("FX", "FY", "FZ")):
                close("sum of section forces %s" % k, np.sum(f[:, i]), wing["inviscid"][k], s, 1e-9)
    rec.nt((len(spec["props"]) > 0 and len(spec["wings"]) > 0) or len(spec["props"]) > 1 or
           len(spec["wings"]) > 1)
    rec.tag("props and wings", bool(spec["props"] and spec["wings"]))
    rec.tag("several props", len(spec["props"]) > 1)


def _reference(c, rec):
    r = refmodel.solve(c["plane"], c["aero"], c["ctl"], c["prop"])
    require(r.ok)
    with gen.Scratch() as tmp:
        mu = MU.MachUp(inputAirplane=gen.build(c["plane"], tmp))
    got = mu.solve(dict(c["aero"]), c["ctl"] and dict(c["ctl"]), copy.deepcopy(c["prop"]))
    forces_close("MachUp.solve", got, r.total, r.fs, r.ms, 1e-7)
    rec.nt(bool(np.any(r.washed)) or len(c["plane"]["props"]) > 1)
    rec.tag("wing in slipstream", bool(np.any(r.washed)))


SUBS = [Sub("sums", refmodel.case(max_wings=3, max_props=3, max_grid=4, modes=("J", "J", "none", "rps", "named", "mixed")), _sums, 2100, 30000,
            "every sum identity; non-trivial: wings with propellers, several propellers or several wings", shards=8),
        Sub("reference", refmodel.case(max_wings=2, max_props=2, max_grid=4, min_props=1,
                                       modes=("J", "J", "none", "rps", "named", "mixed")), _reference, 900, 20000,
            "MachUp.solve of wings with propellers against the independent model; non-trivial: a wing section in a "
            "slipstream, or several propellers", shards=8)]
