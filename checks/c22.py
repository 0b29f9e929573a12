"""C22: the STL file shows the geometry that is analysed."""
import math
import os
import struct

import numpy as np
from hypothesis import strategies as st
from scipy.spatial import cKDTree

from vlib import gen, refll, refprop
from vlib.runner import Sub
from vlib.util import check, close, require

import machup.MU as MU

PROPERTY = "C22"
ASSUMPTIONS = ["wings are shown between the first and the last control point, blades between hub and tip, every one as a strip "
               "of airfoil outlines (cosine spaced points from the lower to the upper trailing edge)",
               "the number of points of an outline is found from the facet count",
               "airfoils whose names are not NACA and four digits are drawn as NACA 2412; a wing with a single section has no "
               "extent and no facet",
               "single precision coordinates: tolerance 1e-6 of the largest coordinate"]


def outline(name, m):
    """NACA four-digit outline in chords, x aft of the leading edge, z towards the suction side."""
    digits = name[4:] if name[:4] in ("NACA", "naca") and len(name) == 8 else "2412"
    cam, at, thick = int(digits[0]) / 100., int(digits[1]) / 10., int(digits[2:]) / 100.
    pts = []
    for i in range(m):
        s = -math.pi + 2 * math.pi * i / (m - 1.)
        x = .5 * (1. - math.cos(s))
        t = 5 * thick * (.2969 * math.sqrt(x) - .126 * x - .3516 * x**2 + .2843 * x**3 - .1015 * x**4)
        z = dz = 0.
        if cam and at:
            if x < at:
                z, dz = cam / at**2 * (2 * at * x - x * x), 2 * cam / at**2 * (at - x)
            else:
                z, dz = cam / (1 - at)**2 * (1 - 2 * at + 2 * at * x - x * x), 2 * cam / (1 - at)**2 * (at - x)
        a = math.atan(dz)
        side = 1. if s > 0 else -1.
        pts.append((x - side * t * math.sin(a), z + side * t * math.cos(a)))
    return np.array(pts)


def wing_strips(spec, m):
    """Arrays (section, point, 3), one per wing segment, sections from left to right."""
    if not spec["wings"]:
        return []
    g = refll.grid(spec)
    strips, i = [], 0
    for w, side in gen.segments(spec):
        root, tip = (a["name"] for a in refll.airfoils(w))
        left, right = (tip, root) if side == "left" else (root, tip)
        a, b = outline(left, m), outline(right, m)
        sec = []
        for k in range(i, i + w["grid"]):
            o = a + g.t[k] * (b - a)
            sec.append(g.r[k] + g.c[k] * ((o[:, :1] - .25) * g.ua[k] + o[:, 1:] * g.un[k]))
        strips.append(np.array(sec))
        i += w["grid"]
    return strips


def blade_strips(p, m):
    b = refprop.Blade(p)
    th, ga = (math.radians(x) for x in p["orient"])
    fwd = b.fwd
    right = np.array([-math.sin(ga), math.cos(ga), 0.])
    up = -np.cross(fwd, right)
    afs = p["airfoils"] or [dict(gen.DEFAULT_AF, key="NACA2412")]
    if len(afs) == 1:
        out = np.repeat(outline(afs[0]["key"], m)[None], len(b.z), axis=0)
    else:
        pos = {"root": b.z[0], "tip": b.z[-1]}
        at = sorted((pos.get(a["span_position"], a["span_position"]), i) for i, a in enumerate(afs))
        shapes = np.array([outline(afs[t[1]]["key"], m) for t in at])
        x = [t[0] for t in at]
        out = np.empty((len(b.z), m, 2))
        for j in range(m):
            for q in range(2):
                out[:, j, q] = np.interp(b.z, x, shapes[:, j, q])
    pitch = b.beta + b.aL0         # of the chord line
    strips = []
    for k in range(b.k):
        a = 2 * math.pi * k / b.k
        radial = math.cos(a) * up + math.sin(a) * right
        ahead = b.rot * np.cross(fwd, radial)      # the way the blade moves
        sec = []
        for i in range(len(b.z)):
            nose = math.cos(pitch[i]) * ahead + math.sin(pitch[i]) * fwd
            suction = math.cos(pitch[i]) * fwd - math.sin(pitch[i]) * ahead
            sec.append(b.pos + b.r[i] * radial + b.c[i] * ((.25 - out[i, :, :1]) * nose + out[i, :, 1:] * suction))
        strips.append(np.array(sec))
    return strips


def read(path):
    """Facets of a binary (or text) STL file: normals and vertices."""
    with open(path, "rb") as f:
        data = f.read()
    check(len(data) >= 84, "file of %d bytes", len(data))
    n = struct.unpack("<I", data[80:84])[0]
    if len(data) == 84 + 50 * n:
        rows = np.frombuffer(data, dtype=np.dtype([("n", "<f4", 3), ("v", "<f4", (3, 3)), ("a", "<u2")]), offset=84)
        return rows["n"].astype(float), rows["v"].astype(float)
    check(data[:5] == b"solid", "neither a binary file of %d facets nor a text file (%d bytes)", n, len(data))
    nums, verts = [], []
    for line in data.decode().splitlines():
        words = line.split()
        if words[:2] == ["facet", "normal"]:
            nums.append([float(x) for x in words[2:]])
        elif words[:1] == ["vertex"]:
            verts.append([float(x) for x in words[1:]])
    return np.array(nums).reshape(-1, 3), np.array(verts).reshape(-1, 3, 3)


def facets(strip, ij):
    return strip[ij[..., 0], ij[..., 1]]


def surface(strips, verts, normals, size):
    """Every strip must be covered, every quadrilateral by two facets that face outwards."""
    i = 0
    for s in strips:
        ns, m = s.shape[:2]
        n = 2 * (ns - 1) * (m - 1)
        v, nor = verts[i:i + n], normals[i:i + n]
        i += n
        if n == 0:
            continue
        flat = s.reshape(-1, 3)
        # each vertex is a point of the strip
        used = np.zeros(len(flat), int)
        best, near = cKDTree(flat).query(v.reshape(-1, 3))
        check(np.all(best <= 1e-6 * size), "a facet's corner is %.3g away from the section outlines", np.max(best))
        near = near.reshape(-1, 3)
        np.add.at(used, near.ravel(), 1)
        # coincident points of an outline (none for a finite thickness, but sections may meet) are told apart by position only
        area = np.linalg.norm(np.cross(v[:, 1] - v[:, 0], v[:, 2] - v[:, 0]), axis=1) / 2.
        q = [s[:-1, :-1], s[:-1, 1:], s[1:, 1:], s[1:, :-1]]
        d1 = np.linalg.norm(np.cross(q[1] - q[0], q[2] - q[0]), axis=2) + np.linalg.norm(np.cross(q[3] - q[0], q[2] - q[0]), axis=2)
        d2 = np.linalg.norm(np.cross(q[1] - q[0], q[3] - q[0]), axis=2) + np.linalg.norm(np.cross(q[1] - q[2], q[3] - q[2]), axis=2)
        lo, hi = np.sum(np.minimum(d1, d2)) / 2., np.sum(np.maximum(d1, d2)) / 2.
        tol = 1e-6 * size * size * n
        check(lo - tol <= np.sum(area) <= hi + tol, "surface area %r, between sections it is %r to %r", np.sum(area), lo, hi)
        # Volume enclosed between the facets and the end sections: positive when all facets face outwards
        c = np.mean(flat, axis=0)
        vol = np.sum(np.einsum("ij,ij->i", np.cross(v[:, 0] - c, v[:, 1] - c), v[:, 2] - c)) / 6.
        t = np.concatenate([np.stack([q[0], q[1], q[3]], 2).reshape(-1, 3, 3), np.stack([q[1], q[2], q[3]], 2).reshape(-1, 3, 3)])
        ref = np.sum(np.einsum("ij,ij->i", np.cross(t[:, 0] - c, t[:, 1] - c), t[:, 2] - c)) / 6.
        slack = np.sum(np.abs(d1 - d2)) * size + 1e-6 * size ** 3
        check(abs(abs(vol) - abs(ref)) <= slack, "the facets bound a volume of %r, the strip %r", vol, ref)
        # normals: outwards, where the section outline is smooth and the facet is not a sliver
        cross = np.cross(v[:, 1] - v[:, 0], v[:, 2] - v[:, 0])
        big = area > 1e-3 * np.mean(area)
        ln = np.linalg.norm(nor, axis=1)
        ok = big & (ln > 0)
        check(np.all(ln[big] > 0), "a facet without a normal")
        cs = np.einsum("ij,ij->i", nor[ok], cross[ok]) / ln[ok] / np.linalg.norm(cross[ok], axis=1)
        fuzz = (1e-6 * size) / np.sqrt(2 * area[ok])
        # (a sliver's normal is lost in single precision)
        check(np.all((cs > .9) | (fuzz > 1e-2)), "a normal is %.3f of the facet's own direction", np.min(cs) if len(cs) else 1.)
        mid = np.mean(v, axis=1)
        sec = near // m
        inside = np.mean(s, axis=1)           # a point inside of each section
        out = np.einsum("ij,ij->i", cross, mid - inside[sec[:, 0]])
        # facets near the middle of a convex side certainly face away from the centroid
        share = np.mean(out[big] > 0)
        check(share > .7, "%.0f %% of the facets face inwards", 100 * (1 - share))
        # every quadrilateral is covered: corners of the strip are used, inner points by six facets
        got = used.reshape(ns, m)
        check(np.all(got > 0) or len(np.unique(np.round(flat / size, 7), axis=0)) < len(flat),
              "points of the section outlines are missing from the surface")
        rows = np.sort(np.sort(near // m, axis=1)[:, [0, 2]], axis=1)
        check(np.all(rows[:, 1] - rows[:, 0] <= 1) or len(np.unique(np.round(flat / size, 7), axis=0)) < len(flat),
              "a facet skips a section")


@st.composite
def case(draw):
    n = draw(st.integers(0, 2))
    plane = draw(gen.airplane(min_wings=0 if n else 1, max_wings=3, max_grid=6, big=(12, 20)))
    for w in plane["wings"]:
        for k in ("airfoil_root", "airfoil_tip"):
            if w[k] and draw(st.booleans()):
                w[k]["name"] = draw(st.sampled_from(["NACA0006", "naca6321", "NACA2424", "NACA23012", "Clark Y", "NACA0915",
                                                     "e387abcd", "NACA2112", "NACA4909", "NACA2012", "NACA6515"]))
    name = draw(gen.style())
    for i in range(n):
        p = draw(gen.prop(name % ("p", i), tables=True))
        p["orient"] = [draw(gen.num(-80, 80, 1)), draw(gen.num(-180, 180, 1))] if draw(st.booleans()) else p["orient"]
        if draw(st.integers(0, 2)) == 0:
            for a, key in zip(p["airfoils"], draw(st.permutations(["NACA2112", "naca4309", "NACA0006", "e387", "NACA9930",
                                                                  "NACA23012", "NACA4809"]))):
                a["key"] = key
        plane["props"].append(p)
    return {"plane": plane, "default_name": draw(st.integers(0, 5)) == 0, "before": draw(st.booleans())}


def _stl(mu, tmp, default=False):
    path = os.path.join(tmp, "plane.stl" if default else "model.stl")
    here = os.getcwd()
    os.chdir(tmp)
    try:
        if default:
            mu.create_stl()
        else:
            mu.create_stl(path)
    finally:
        os.chdir(here)
    check(os.path.exists(path), "no file %s", os.path.basename(path))
    return read(path)


def _surface(c, rec):
    spec = c["plane"]
    for p in spec["props"]:
        b = refprop.Blade(p)
        require(np.all(b.c > 0) and np.all(np.isfinite(b.beta)))
    sections = sum(w["grid"] - 1 for w, s in gen.segments(spec)) + sum(p["blades"] * (p["nodes"] - 1) for p in spec["props"])
    with gen.Scratch() as tmp:
        mu = MU.MachUp(inputAirplane=gen.build(spec, tmp))
        if c["before"]:     # a solution with deflections does not change the shape
            mu.solve({"V_mag": 20., "rho": 1., "alpha": 3.}, {"elevator": 5., "flap": 10.})
        normals, verts = _stl(mu, tmp, c["default_name"])
    if sections == 0:
        check(len(verts) == 0, "%d facets on wings of a single section", len(verts))
        return
    check(len(verts) % (2 * sections) == 0, "%d facets for %d strips between sections", len(verts), sections)
    m = len(verts) // (2 * sections) + 1
    check(m >= 20, "outlines of %d points", m)
    check(np.all(np.isfinite(verts)), "coordinates that are not numbers")
    check(np.all(np.isfinite(normals)), "normals that are not numbers")
    strips = wing_strips(spec, m)
    for p in spec["props"]:
        strips += blade_strips(p, m)
    size = max(np.max(np.abs(s)) for s in strips) + 1e-3
    # single precision and thin sections
    surface(strips, verts, normals, size)
    rec.nt(len(strips) > 1 or any(w["dihedral"] or w["mount"] or w["washout"] for w in spec["wings"]))
    rec.tag("propeller", bool(spec["props"]))
    rec.tag("wings", bool(spec["wings"]))
    rec.tag("blended airfoils", any(w["airfoil_tip"] for w in spec["wings"]) or any(len(p["airfoils"]) > 1 for p in spec["props"]))
    rec.tag("left segment", any(s == "left" for w, s in gen.segments(spec)))
    rec.tag("clockwise", any(refprop.rot_sign(p["rot_dir"]) < 0 for p in spec["props"]))


def _mirror(c, rec):
    from checks.c08 import mirror
    spec = c["plane"]
    for p in spec["props"]:
        require(np.all(refprop.Blade(p).c > 0))
    with gen.Scratch() as tmp:
        _, a = _stl(MU.MachUp(inputAirplane=gen.build(spec, tmp)), tmp)
        _, b = _stl(MU.MachUp(inputAirplane=gen.build(mirror(spec), tmp)), tmp)
    check(len(a) == len(b), "%d facets, mirrored %d", len(a), len(b))
    require(len(a))
    a, b = a.reshape(-1, 3) * [1., -1., 1.], b.reshape(-1, 3)
    size = np.max(np.abs(a)) + 1e-3
    for x, y, what in ((a, b, "mirrored surface"), (b, a, "surface")):
        d = cKDTree(x).query(y)[0]
        close("distance of a corner of the %s" % what, np.max(d), 0., size, 1e-6)
    rec.nt(True)
    rec.tag("propeller", bool(spec["props"]))


SUBS = [Sub("surface", case(), _surface, 1000, 30000,
            "surfaces of generated models against independently placed outlines; non-trivial: several strips, or dihedral or "
            "twist", shards=16),
        Sub("mirror", case(), _mirror, 400, 12000, "surface of the mirrored model; non-trivial: all cases", shards=16)]
