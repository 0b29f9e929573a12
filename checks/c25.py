"""C25: loads depend on the parts of the airplane, not on how they are listed."""
import copy

import numpy as np
from hypothesis import strategies as st

from vlib import gen, refll, refmodel, refprop
from vlib.runner import Sub
from vlib.util import FK, KEYS, check, close, require

import machup.MU as MU

PROPERTY = "C25"
ASSUMPTIONS = ["a wing is listed after the wing it is attached to",
               "unique propulsive propeller states, well conditioned wings, no wing point on the edge of a slipstream; tolerance "
               "1e-7 of the load scale (order of summation)",
               "a propeller behind every wing section does not touch the wings"]


def split(spec):
    """Every wing on both sides as a left and a right wing."""
    s = copy.deepcopy(spec)
    s["wings"] = []
    both = {w["name"]: w["side"] == "both" for w in spec["wings"]}
    for w in spec["wings"]:
        for side in (["left", "right"] if w["side"] == "both" else [w["side"]]):
            d = copy.deepcopy(w)
            d["side"] = side
            if both[w["name"]]:
                d["name"] = "%s %s" % (w["name"], side)
            if w["parent"] and both[w["parent"]]:
                d["parent"] = "%s %s" % (w["parent"], side)
            s["wings"].append(d)
    return s


def detach(spec):
    """Absolute root positions instead of attachments (of one-sided wings)."""
    s = copy.deepcopy(spec)
    tips = refll.tips(spec)
    side = {w["name"]: w["side"] for w in spec["wings"]}
    for w in s["wings"]:
        if w["parent"]:
            at = tips[(w["parent"], w["side"])][0 if w["side"] == "left" else 1]
            assert side[w["parent"]] == w["side"]
            w["pos"] = [float(a + b) for a, b in zip(at, w["pos"])]
            w["parent"] = None
    return s


def reorder(spec, keys, pkeys):
    """Wings in another order (parents first), propellers in another order."""
    s = copy.deepcopy(spec)
    left = sorted(range(len(spec["wings"])), key=lambda i: keys[i])
    done, out = set(), []
    while left:
        for i in left:
            w = spec["wings"][i]
            if w["parent"] is None or w["parent"] in done:
                out.append(copy.deepcopy(w))
                done.add(w["name"])
                left.remove(i)
                break
    s["wings"] = out
    s["props"] = [s["props"][i] for i in sorted(range(len(s["props"])), key=lambda i: pkeys[i])]
    return s


def rename(spec, ps, names):
    s, q = copy.deepcopy(spec), copy.deepcopy(ps)
    m = {w["name"]: names[i] for i, w in enumerate(spec["wings"])}
    for w in s["wings"]:
        w["name"], w["parent"] = m[w["name"]], m.get(w["parent"])
    for i, p in enumerate(s["props"]):
        new = names[5 + i]
        if q and p["name"] in q:
            q[new] = q.pop(p["name"])
        p["name"] = new
    return s, q


@st.composite
def case(draw):
    c = draw(refmodel.case(max_wings=3, max_props=2, max_grid=4))
    c["keys"] = draw(st.permutations(range(4)))
    c["pkeys"] = draw(st.permutations(range(3)))
    names = ["main", "tail wing", "Ä", "left_w0", "w1", "j", "p1", "rot_per_sec engine", "x" * 20, "0", "right", "a b", "A", "-"]
    c["names"] = draw(st.permutations(names))
    c["ids"] = draw(st.permutations([1, 2, 3, 7, 40, 1000]))
    c["how"] = draw(st.sampled_from(["split", "order", "names", "detach", "all", "file", "far", "divide"]))
    if c["how"] == "far":
        p = draw(gen.prop("far"))
        p["orient"] = [draw(gen.num(-8, 8, .5)), draw(gen.num(-8, 8, .5))]
        c["far"] = p
        c["far J"] = draw(gen.num(.2, .8, .05))
    return c


def _run(spec, c, ps, tmp, file=False):
    mu = MU.MachUp(gen.write_json(gen.to_json(spec, tmp), tmp)) if file else MU.MachUp(inputAirplane=gen.build(spec, tmp))
    res = mu.solve(dict(c["aero"]), c["ctl"] and dict(c["ctl"]), copy.deepcopy(ps))
    d = mu.distributions(dict(c["aero"]), c["ctl"] and dict(c["ctl"]), copy.deepcopy(ps))
    return mu, res, d


def _check(c, rec):
    spec, ps, how = c["plane"], c["prop"], c["how"]
    r = refmodel.solve(spec, c["aero"], c["ctl"], ps)
    require(r.ok)
    extra = dict.fromkeys(KEYS, 0.)
    with gen.Scratch() as tmp:
        mu, a, da = _run(spec, c, ps, tmp)
        other, qs = copy.deepcopy(spec), copy.deepcopy(ps)
        file = False
        rename_map = None
        fs, ms = r.fs, r.ms
        if how in ("split", "detach", "all"):
            other = split(other)
        if how in ("detach", "all"):
            other = detach(other)
        if how in ("order", "all"):
            other = reorder(other, (c["keys"] * 3)[:len(other["wings"])], c["pkeys"])
        if how == "names":
            other, qs = rename(other, qs, c["names"])
            rename_map = {p["name"]: q["name"] for p, q in zip(spec["props"], other["props"])}
        if how == "file":
            file = True
            for i, w in enumerate(other["wings"]):
                w["id"] = c["ids"][i]
            for p in other["props"]:
                p["airfoils"] = p["airfoils"][:2] or [dict(gen.DEFAULT_AF, key="NACA2412")]
                for x, where in zip(p["airfoils"], ("root", "tip")):
                    x.pop("span_position", None)
                    if len(p["airfoils"]) == 2:
                        x["span_position"] = where
            spec2 = copy.deepcopy(other)
            require(refmodel.solve(spec2, c["aero"], c["ctl"], ps).ok)
            mu, a, da = _run(spec2, c, ps, tmp)
        if how == "divide":
            require(len(spec["props"]) > 1)
            spec, other = dict(spec, wings=[]), dict(other, wings=[])
            r = refmodel.solve(spec, c["aero"], c["ctl"], ps)
            mu, a, da = _run(spec, c, ps, tmp)
            rest, other["props"] = other["props"][1:], other["props"][:1]
            for p in rest:
                _, part, rows = _run(dict(other, props=[p]), c, ps, tmp)
                i = da[1]["name"] == p["name"]
                for k in rows[1]:
                    if k != "name":
                        close("divide: %s of %s" % (k, p["name"]), da[1][k][i], rows[1][k],
                              np.max(np.abs(rows[1][k])) + 1e-6, 1e-7)
                extra = {k: extra[k] + part[k] for k in KEYS}
            a, extra = {k: a[k] - extra[k] for k in KEYS}, dict.fromkeys(KEYS, 0.)
        if how == "far":
            p = c["far"]
            fwd = refprop.Blade(p).fwd
            pts = r.wing.g.r if r.wing else np.zeros((1, 3))
            # the disk plane passes behind every section
            p["pos"] = [float(x) for x in pts[int(np.argmin(pts @ fwd))] - (1.5 + p["diameter"]) * fwd]
            other["props"].insert(c["pkeys"][0] % (len(other["props"]) + 1), p)
            own = refmodel.solve(dict(spec, wings=[], props=[p]), c["aero"], None, {"J": c["far J"]})
            require(own.ok)
            qs = {q["name"]: (ps or {}).get(q["name"], ps) or {"J": .5} for q in spec["props"]}
            qs["far"] = {"J": c["far J"]}
            extra = own.prop
            fs, ms = r.fs + own.fs, r.ms + own.ms
        mu2, b, db = _run(other, c, qs, tmp, file)
        for k in KEYS:
            close("%s: %s" % (how, k), b[k], a[k] + extra[k], fs if k in FK else ms, 1e-7 if how != "far" else 1e-6)
        if r.wing:
            close("%s: reference area" % how, mu2.Sw, mu.Sw, mu.Sw + 1e-9, 1e-12)
            # sections are the same, wherever they are listed
            x, y = da[0], db[0]
            num = [k for k in x if np.asarray(x[k]).dtype.kind == "f" and np.asarray(x[k]).ndim == 1]
            require(len({tuple(q) for q in np.round(x["control_points"], 9)}) == len(x["chord"]))
            check(set(x) == set(y), "columns %s", sorted(set(x) ^ set(y)))
            check(len(x["chord"]) == len(y["chord"]), "%d sections, expected %d", len(y["chord"]), len(x["chord"]))
            if how in ("split", "names", "file", "far", "detach"):
                order = np.arange(len(x["chord"]))
            else:
                order = _match(x, y)
            close("%s: control points" % how, y["control_points"][order], x["control_points"], 1., 1e-9)
            for k in num:
                close("%s: %s" % (how, k), np.asarray(y[k])[order], x[k], np.max(np.abs(x[k])) + 1e-3, 1e-5)
        if spec["props"] and how not in ("far", "divide"):
            x, y = da[1], db[1]
            for n in dict.fromkeys(x["name"]):
                i, j = x["name"] == n, y["name"] == (rename_map[n] if rename_map else n)
                for k in x:
                    if k != "name":
                        close("%s: %s of %s" % (how, k, n), y[k][j], x[k][i], np.max(np.abs(x[k][i])) + 1e-6, 1e-7)
    rec.nt(how in ("far", "names", "file", "divide") or other != spec)
    rec.tag(how)
    rec.tag("attached", any(w["parent"] for w in spec["wings"]))
    rec.tag("propellers", bool(spec["props"]))


def _match(x, y):
    """Index into y of each section of x, by position."""
    a, b = x["control_points"], y["control_points"]
    order = np.array([int(np.argmin(np.linalg.norm(b - q, axis=1))) for q in a])
    require(len(set(order)) == len(order))      # no two sections in one place
    return order


SUBS = [Sub("compose", case(), _check, 4000, 40000,
            "the same airplane listed differently; non-trivial: the description differs", shards=16)]
