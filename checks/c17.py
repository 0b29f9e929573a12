"""C17: result files."""
import copy
import json
import os

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ops, refll
from vlib.runner import Sub, Violation
from vlib.util import KEYS, check, close

import machup.MU as MU

PROPERTY = "C17"
ASSUMPTIONS = ["names short enough for the 18 character column of distribution files",
               "numbers in distribution files compared to 12 significant digits, in json files exactly",
               "an analysis that fails and was asked for a file may leave an error entry there or raise"]

WING = {"ControlPoint(x)": ("control_points", 0), "ControlPoint(y)": ("control_points", 1),
        "ControlPoint(z)": ("control_points", 2), "Chord": "chord", "Twist(deg)": "twist", "Dihedral(deg)": "dihedral",
        "Sweep(deg)": "sweep", "Area": "area", "Alpha(deg)": "alpha", "Force(x)": ("forces_xyz", 0),
        "Force(y)": ("forces_xyz", 1), "Force(z)": ("forces_xyz", 2), "SectionCL": "section_CL", "SectionCm": "section_Cm",
        "SectionCDParasitic": "section_CD_parasitic", "SectionAlpha_L0": "section_alpha_L0", "SectionCL_ref": "section_CL_ref"}
PROP = {"RadialPosition": "radial_position", "Chord": "chord", "Pitch(deg)": "pitch", "AdvangeAngle(deg)": "advance_angle",
        "InducedAngle(deg)": "induced_angle", "Alpha(deg)": "alpha", "SectionCL": "section_CL", "SectionCD": "section_CD",
        "InducedVelocity,Vi": "Vi", "Vi(Axial)": "Vi_x", "Vi(Tangential)": "Vi_t"}


@st.composite
def case(draw):
    c = draw(ops.history(min_ops=1, max_ops=3))
    for o in c["ops"]:
        if o["op"] in ("bad", "create_stl", "stability_derivatives", "control_derivatives", "damping_derivatives"):
            o["op"] = "distributions"
    c["name"] = draw(st.sampled_from(["out.json", "results.json", "a b.json", "x.txt"]))
    c["old"] = draw(st.sampled_from([None, "", "{\"old\": 1}", "x" * 20000 + "\n" * 5000, "longer " * 40000]))
    c["relative"] = draw(st.booleans())
    return c


def _plain(x):
    """What a json file holds of a result."""
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return [_plain(v) for v in x]
    if isinstance(x, (np.floating, np.integer)):
        return float(x)
    return x


def _tables(text):
    """{heading: (columns, rows)} of a distributions file."""
    out, at = {}, None
    for line in text.split("\n"):
        body = line.lstrip("#").strip()
        if not body:
            continue
        if line.startswith("#"):
            if body.endswith("Distributions"):
                check(body not in out, "two tables of %s", body)
                at, out[body] = body, [None, []]
            else:
                check(at is not None and out[at][0] is None, "unexpected heading %.60r", body)
                out[at][0] = body.split()
        else:
            check(at is not None and out[at][0] is not None, "a row before its heading: %.60r", body)
            out[at][1].append(body.split())
    return out


def _table(what, tab, columns, data, degrees=()):
    check(tab is not None, "no %s in the file", what)
    head, rows = tab
    check(head is not None and head[0] == "Name" and sorted(head[1:]) == sorted(columns), "%s: columns %s", what, head)
    check(len(rows) == len(data["name"]), "%s: %d rows, expected %d", what, len(rows), len(data["name"]))
    check(all(len(r) == len(head) for r in rows), "%s: rows and columns differ in number", what)
    check([r[0] for r in rows] == [str(n) for n in data["name"]], "%s: names %s", what, [r[0] for r in rows][:4])
    for j, h in enumerate(head[1:], 1):
        key = columns[h]
        want = np.asarray(data[key[0]])[:, key[1]] if isinstance(key, tuple) else np.asarray(data[key])
        if h in degrees:
            want = np.degrees(want)
        got = np.array([float(r[j]) for r in rows])
        both = ~(np.isnan(got) & np.isnan(want))
        close("%s column %s" % (what, h), got[both], want[both], np.abs(want[both]) + 1e-290, 1e-11)


def _distributions(path, r, spec):
    with open(path) as f:
        text = f.read()
    if path.endswith("json"):
        d = json.loads(text)
        check(list(d) == ["data"], "json keys %s", list(d))
        text = d["data"].replace("newline", "\n")
    tabs = _tables(text)
    want = set()
    if spec["wings"]:
        want.add("WingDistributions")
        _table("wing table", tabs.get("WingDistributions"), WING, r[0], ("Alpha(deg)",))
        check(len(r[0]["name"]) == refll.grid(spec).n, "rows: one for each section")
    if spec["props"]:
        want.add("PropellerDistributions")
        _table("propeller table", tabs.get("PropellerDistributions"), PROP, r[1])
        check(len(r[1]["name"]) == sum(p["nodes"] for p in spec["props"]), "rows: one for each node")
    check(set(tabs) == want, "tables %s", sorted(tabs))


def _call(mu, o, sts, path):
    a, c, p = [None if i in o["omit"] else copy.deepcopy(x) for i, x in enumerate(sts)]
    kw = dict(aero_state=a, control_state=c, prop_state=p)
    if path:
        kw["filename"] = path
    name = o["op"]
    pos = {"target_lift": (o.get("L"),), "pitch_trim": (o.get("L"), o.get("m")), "stall_airspeed": (o.get("L"),)}.get(name, ())
    if name == "pitch_trim":
        kw["error"] = 1e-6
    try:
        return ("ok", getattr(mu, name)(*pos, **kw))
    except Exception as e:
        return ("raised", type(e).__name__)


def _files(c, rec):
    spec = c["plane"]
    done = 0
    here = os.getcwd()
    with gen.Scratch() as tmp, gen.Scratch() as where:
        try:
            os.chdir(where)
            path = c["name"] if c["relative"] else os.path.join(where, c["name"])
            with_file, without = ops.build(spec, tmp), ops.build(spec, tmp)
            for o in c["ops"]:
                for f in os.listdir(where):
                    os.remove(os.path.join(where, f))
                sts = c["states"][o["state"]]
                plain = _call(without, o, sts, None)
                check(os.listdir(where) == [], "%s wrote %s without being asked", o["op"], os.listdir(where))
                if c["old"] is not None:
                    with open(path, "w") as f:
                        f.write(c["old"])
                got = _call(with_file, o, sts, path)
                name = o["op"]
                check(set(os.listdir(where)) <= {c["name"]}, "%s wrote %s", name, os.listdir(where))
                if got[0] == "raised":
                    check(plain[0] == "raised", "%s raised %s only when given a file", name, got[1])
                    rec.tag("raised")
                    continue
                check(os.path.exists(path), "%s: no file", name)
                failed = isinstance(got[1], dict) and "error" in got[1]
                if plain[0] == "ok":
                    check(not failed, "%s: error entry %r only with a file", name, got[1])
                    ops.same("%s with a file" % name, got[1], plain[1], 1e-9)
                else:
                    check(failed, "%s: raises %s without a file, but with a file the answer is %.80r", name, plain[1], got[1])
                    rec.tag("error entry")
                if name == "distributions":
                    _distributions(path, got[1], spec)
                else:
                    with open(path) as f:
                        try:
                            data = json.load(f)
                        except ValueError as e:
                            raise Violation("%s: the file is not json: %s" % (name, e))
                    want = _plain(got[1])
                    if name == "find_aero_center":
                        want = {"x_ac": want[0], "z_ac": want[2]}
                    if name == "solve":
                        check(set(data) == {"wing_results", "prop_results", "total_results"}, "solve: keys %s", sorted(data))
                        parts = [data[k].get("total", {}) for k in ("wing_results", "prop_results")]
                        check(bool(parts[0]) == bool(spec["wings"]) and bool(parts[1]) == bool(spec["props"]),
                              "solve: parts %s", data)
                        for k in KEYS:
                            v = [x.get(k, 0.) for x in parts]
                            if not np.all(np.isfinite(v)):
                                continue
                            close("solve: sum of the parts' %s" % k, data["total_results"][k], sum(v),
                                  sum(map(abs, v)) + 1e-300, 1e-12)
                        data = data["total_results"]
                    ops.same("file of %s" % name, data, want, 0.)
                done += 1
                rec.tag(name)
                rec.tag("state omitted", bool(o["omit"]))
        finally:
            os.chdir(here)
    rec.nt(done > 0)
    rec.tag("over old content", c["old"] is not None and done)
    rec.tag("props only", not spec["wings"])


@st.composite
def dist_case(draw):
    plane = draw(ops.model(max_grid=8))
    return {"plane": plane, "states": [draw(ops.states(plane))],
            "ops": [{"op": draw(st.sampled_from(["distributions", "distributions", "solve"])), "state": 0,
                     "omit": draw(st.sampled_from([[], [0], [1], [2], [0, 1, 2]]))}],
            "name": draw(st.sampled_from(["d.txt", "d.json", "d.dat"])),
            "old": draw(st.sampled_from([None, "old\n" * 5000])), "relative": draw(st.booleans())}


@st.composite
def slow_case(draw):
    plane = draw(ops.model(min_wings=1, max_wings=2, max_props=0, max_grid=2))
    sts = draw(ops.states(plane))
    for k in ("roll_rate", "pitch_rate", "yaw_rate"):
        (sts[0] or {}).pop(k, None)
    for w in plane["wings"]:
        for k in ("airfoil_root", "airfoil_tip"):
            if w[k]:
                w[k]["CL_max"] = draw(gen.num(0.2, 0.8, .05))
    return {"plane": plane, "states": [sts],
            "ops": [{"op": draw(st.sampled_from(["find_aero_center", "stall_airspeed", "stall_onset", "pitch_trim",
                                                 "target_lift"])), "state": 0,
                     "L": draw(gen.num(1, 50, 1)), "m": draw(gen.num(-5, 5, 1)),
                     "omit": draw(st.sampled_from([[], [], [0], [1], [0, 1, 2]]))}],
            "name": "d.json", "old": draw(st.sampled_from([None, "old\n" * 5000])), "relative": draw(st.booleans())}


SUBS = [Sub("files", case(), _files, 700, 30000,
            "every analysis with and without a file; non-trivial: at least one file compared", shards=24),
        Sub("tables", dist_case(), _files, 600, 30000,
            "distributions of larger models; non-trivial: a file compared", shards=16),
        Sub("slow", slow_case(), _files, 120, 6000,
            "the analyses that solve many times; non-trivial: a file compared", shards=16)]
