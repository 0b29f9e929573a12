"""C01: every wing segment is where its attachments say it is."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, refll
from vlib.runner import Sub
from vlib.util import check, close

import machup.geometry as geometry
from machup import LLGrid

PROPERTY = "C01"
ASSUMPTIONS = ["a child wing is attached only to a parent that has every side the child has",
               "the documented convention: a positive sweep moves the tip back by span*tan(sweep); the panel is "
               "rotated about the body x axis by dihedral, tip up"]


@st.composite
def case(draw, **kw):
    p = draw(gen.airplane(max_wings=5, max_grid=4, big=(7, 40, 80), controls=False, airfoils=False, **kw))
    if draw(st.integers(0, 2)) == 0:
        p["position"] = [draw(gen.num(-9, 9, 0.5)) for _ in range(3)]
        p["position_as"] = draw(st.sampled_from(["list", "tuple", "array"]))
    ids = draw(st.lists(st.one_of(st.integers(1, 40), st.integers(-9, 9999)).filter(bool), min_size=len(p["wings"]), max_size=len(p["wings"]), unique=True))
    for w, i in zip(p["wings"], ids):
        w["id"] = i
    return p


def _expect(spec, plane, rec, tol=1e-9):
    tips = refll.tips(spec)
    scale = 1. + max(np.max(np.abs(x)) for v in tips.values() for x in v)
    segs = plane.get_wingsegments()
    want = gen.segments(spec)
    check(len(segs) == len(want), "%d segments, expected %d", len(segs), len(want))
    for seg, (w, side) in zip(segs, want):
        left, right = tips[(w["name"], side)]
        nm = "%s_%s" % (side, w["name"])
        check(seg.name == nm and seg.get_side() == side, "segment %s (%s), expected %s", seg.name, seg.get_side(), nm)
        close(nm + " left tip", seg.get_position("left_tip"), left, scale, tol)
        close(nm + " right tip", seg.get_position("right_tip"), right, scale, tol)
        check(seg.get_num_sections() == w["grid"], "%s sections", nm)
    n = sum(w["grid"] for w, _ in want)
    check(plane.get_num_sections() == n, "number of sections %d, expected %d", plane.get_num_sections(), n)
    # the grid reaches exactly from tip to tip
    g = LLGrid(plane)
    r1, r2 = g.get_corner_point_pos()
    i = 0
    for w, side in want:
        left, right = tips[(w["name"], side)]
        close("grid left end", r1[i], left, scale, tol)
        i += w["grid"]
        close("grid right end", r2[i - 1], right, scale, tol)
    depth = 0
    by = {w["name"]: w for w in spec["wings"]}
    for w in spec["wings"]:
        d, x = 0, w
        while x["parent"]:
            d, x = d + 1, by[x["parent"]]
        depth = max(depth, d)
    rec.tag("chain depth %d" % depth)
    rec.nt(depth >= 1)
    rec.tag("connected yoffset", any(w["parent"] and w["yoffset"] for w in spec["wings"]))
    rec.tag("sweep or dihedral on parent", any(w["parent"] and (by[w["parent"]]["sweep"] or by[w["parent"]]["dihedral"])
                                               for w in spec["wings"]))


def _api(p, rec):
    spec = dict(p)
    if spec["position"] is not None:
        spec["position"] = {"list": list, "tuple": tuple, "array": np.array}[spec["position_as"]](spec["position"])
    objs = {}
    plane = gen.build(spec, objects=objs)
    _expect(p, plane, rec)
    tips = refll.tips(p)
    # Wing.get_position reports the outer ends of the wing
    for w in p["wings"]:
        for side in (("left", "right") if w["side"] == "both" else (w["side"],)):
            outer = tips[(w["name"], side)][0 if side == "left" else 1]
            close("Wing.get_position", objs[w["name"]].get_position(side + "_tip"), outer,
                  1 + np.max(np.abs(outer)), 1e-9)
    rec.tag("positioned airplane", p["position"] is not None)


def _json(p, rec):
    p = dict(p, position=None)
    with gen.Scratch() as tmp:
        path = gen.write_json(gen.to_json(p, tmp), tmp)
        _expect(p, geometry.Airplane(inputfile=path), rec)


SUBS = [Sub("api", case(), _api, 5000, 120000, "wings built with add_wing; non-trivial: some wing is attached to another wing"),
        Sub("json", case(), _json, 2400, 50000, "wings read from an input file; non-trivial: some wing is attached to another wing")]
