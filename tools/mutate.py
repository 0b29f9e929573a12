"""Mutation run: small random edits of /repo/machup, judged by the checks.

    mutate.py OUT.jsonl [--n 40] [--seed 1] [--files llgrid,llmodel]
              [--scale 0.5] [--verif DIR]

Each mutant is one changed operator, constant, name or deleted statement in a
scratch clone.  The checks relevant to the file are run in order until one
alarms; a mutant no check sees is a survivor, to be read by hand: either the
edit does not change behaviour, or a check is blind.  Development aid: no
check uses it.
"""
import argparse
import ast
import json
import os
import random
import subprocess

PY = "/opt/venv/bin/python"
ORDER = {
    "geometry": "C01 C03 C02 C04 C05 C25 C23 C12 C22 C18 C19 C17 C15",
    "llgrid": "C05 C02 C04 C15 C17 C13 C12",
    "llmodel": "C05 C06 C04 C10 C11 C15 C17 C24 C12",
    "propmodel": "C18 C19 C20 C21 C17 C09 C25 C11 C12 C22 C24 C23",
    "propssolver": "C20 C18 C06 C09 C10 C21 C17 C11 C24 C25 C19",
    "outputstl": "C22",
    "MU": "C17 C13 C14 C15 C16 C06 C09 C12 C23 C24 C19 C03",
    "helpers": "C23 C03 C22",
}
DEAD = set("""_find_propwash_velocities _find_propwash_velocities_Goates _equivalent_swirl_jet _root_of_equivalent_swirl_jet
_find_swirl_xe _swirl_xe_imbalance _self_similar_velocities _similar_momentum _root_of_similar_momentum _integrate_ZEF
_expansion_rate_ZEF _tophat_velocities _tophat_at_xe _conserve_swirl_momentum _calc_swirl_momentum_zfe""".split())
ENV = dict(os.environ, PYTHONHASHSEED="0", VERIF_SEED="1")


def sites(tree):
    """Every (node path, mutation name) of the file."""
    out = []

    def visit(node, func):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            func = node.name
            if func in DEAD:
                return
        if isinstance(node, ast.BinOp):
            t = type(node.op)
            new = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
                   ast.Div: ast.Mult, ast.Pow: ast.Mult}.get(t)
            if new:
                out.append((func, node, "op", new))
        elif isinstance(node, ast.AugAssign):
            new = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
                   ast.Div: ast.Mult}.get(type(node.op))
            if new:
                out.append((func, node, "aug", new))
            out.append((func, node, "del", None))
        elif isinstance(node, ast.Assign):
            if not isinstance(node.targets[0], ast.Name):
                out.append((func, node, "del", None))
        elif isinstance(node, ast.Compare) and len(node.ops) == 1:
            new = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.Lt,
                   ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
                   ast.In: ast.NotIn, ast.NotIn: ast.In}.get(type(node.ops[0]))
            if new:
                out.append((func, node, "cmp", new))
        elif isinstance(node, ast.BoolOp):
            out.append((func, node, "bool", None))
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            out.append((func, node, "neg", None))
        elif isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                out.append((func, node, "const", not v))
            elif isinstance(v, (int, float)):
                out.append((func, node, "const", v + 1 if v in (0, 1) else
                            v * 1.02 if isinstance(v, float) else v + 1))
        elif isinstance(node, ast.Call) and isinstance(node.func,
                                                       ast.Attribute):
            a = node.func.attr
            new = {"cos": "sin", "sin": "cos", "arccos": "arcsin",
                   "radians": "degrees", "degrees": "radians",
                   "amax": "amin", "max": "min"}.get(a)
            if new:
                out.append((func, node, "call", new))
            if a in ("absolute", "abs", "copy", "sqrt", "flip"):
                out.append((func, node, "unwrap", None))
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
            if node.func.id in ("abs", "dict"):
                out.append((func, node, "unwrap", None))
            elif node.func.id in ("max", "min"):
                out.append((func, node, "fname",
                            {"max": "min", "min": "max"}[node.func.id]))
        elif isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
            i = node.id
            for x, y in (("left", "right"), ("root", "tip"), ("_1", "_2"),
                         ("start", "end"), ("FL", "FD")):
                if x in i or y in i:
                    out.append((func, node, "name", i.replace(x, "\0")
                                .replace(y, x).replace("\0", y)))
                    break
        body = getattr(node, "body", None)
        for child in ast.iter_child_nodes(node):
            if (isinstance(child, ast.Expr)
                    and isinstance(child.value, ast.Constant)):
                continue    # docstring
            visit(child, func)

    visit(tree, "module")
    return out


def apply(src, kind, node, new):
    """The source text with the node replaced (only that text changes)."""
    if kind == "op":
        n = ast.BinOp(node.left, new(), node.right)
    elif kind == "aug":
        n = ast.AugAssign(node.target, new(), node.value)
    elif kind == "del":
        n = ast.Pass()
    elif kind == "cmp":
        n = ast.Compare(node.left, [new()], node.comparators)
    elif kind == "bool":
        n = ast.BoolOp(ast.And() if isinstance(node.op, ast.Or) else ast.Or(),
                       node.values)
    elif kind == "neg":
        n = node.operand
    elif kind == "const":
        n = ast.Constant(new)
    elif kind == "call":
        n = ast.Call(ast.Attribute(node.func.value, new, ast.Load()),
                     node.args, node.keywords)
    elif kind == "unwrap":
        n = node.args[0] if node.args else node.func.value
    elif kind == "fname":
        n = ast.Call(ast.Name(new, ast.Load()), node.args, node.keywords)
    elif kind == "name":
        n = ast.Name(new, ast.Load())
    text = ast.unparse(ast.fix_missing_locations(ast.copy_location(n, node)))
    if kind not in ("aug", "del"):
        text = "(" + text + ")" if kind != "name" else text
    lines = src.split("\n")

    def pos(line, col):
        col = len(lines[line - 1].encode()[:col].decode())
        return sum(len(x) + 1 for x in lines[:line - 1]) + col
    a = pos(node.lineno, node.col_offset)
    b = pos(node.end_lineno, node.end_col_offset)
    return src[:a] + text + src[b:], src[a:b], text


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--n", type=int, default=40)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--files", default=",".join(ORDER))
    ap.add_argument("--scale", default="0.5")
    ap.add_argument("--verif", default=os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    a = ap.parse_args()
    tree = "/tmp/mutate.%d" % os.getpid()
    subprocess.run(["git", "clone", "-q", "/repo", tree], check=True)
    rng = random.Random(a.seed)
    todo = []
    for f in a.files.split(","):
        src = open("%s/machup/%s.py" % (tree, f)).read()
        all_ = sites(ast.parse(src))
        for s in rng.sample(all_, min(a.n, len(all_))):
            todo.append((f, src) + s)
    rng.shuffle(todo)
    try:
        for f, src, func, node, kind, new in todo:
            path = "%s/machup/%s.py" % (tree, f)
            try:
                text, old, repl = apply(src, kind, node, new)
                compile(text, path, "exec")
            except (SyntaxError, ValueError):
                continue
            with open(path, "w") as fh:
                fh.write(text)
            r = subprocess.run([PY, "-B", "-c", "import machup.MU"], cwd=tree,
                               capture_output=True)
            rec = dict(file=f, func=func, line=node.lineno, kind=kind,
                       old=old, new=repl, by=None, ran=[])
            if r.returncode:
                rec["by"] = "import"
            else:
                for c in ORDER[f].split():
                    try:
                        r = subprocess.run(
                            [PY, "run_check.py", c, "--scale", a.scale],
                            cwd=a.verif, env=dict(ENV, VERIF_REPO=tree),
                            capture_output=True, text=True, timeout=600)
                        code = r.returncode
                    except subprocess.TimeoutExpired:
                        code = "timeout"
                    rec["ran"].append(c)
                    if code != 0:
                        rec["by"] = c
                        rec["code"] = code
                        if code != 1:
                            rec["err"] = r.stderr[-500:]
                        break
            with open(a.out, "a") as fh:
                fh.write(json.dumps(rec) + "\n")
            with open(path, "w") as fh:
                fh.write(src)
    finally:
        subprocess.run(["rm", "-rf", tree])


main()
