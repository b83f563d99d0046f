#!/usr/bin/env python3
"""mutate.py FILE_SUBSTRING... [--n N] [--seed S] [--workers W] : sensitivity measurement of the checks.

Applies random syntactic changes (one at a time, in a copy under /tmp) to functions of the library and runs the
checks anchored in the changed file. Prints the changes no check noticed, for review: they are either equivalent
in behaviour or show what a workload is missing. A development tool: no registered check depends on it."""
import argparse
import ast
import copy
import json
import os
import random
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CMP = {ast.Lt: (ast.LtE, ast.Gt), ast.LtE: (ast.Lt,), ast.Gt: (ast.GtE, ast.Lt), ast.GtE: (ast.Gt,), ast.Eq: (ast.NotEq, ast.GtE, ast.LtE),
       ast.NotEq: (ast.Eq,), ast.In: (ast.NotIn,), ast.NotIn: (ast.In,), ast.Is: (ast.IsNot,), ast.IsNot: (ast.Is,)}
BIN = {ast.Add: (ast.Sub,), ast.Sub: (ast.Add,), ast.Mult: (ast.Add,), ast.FloorDiv: (ast.Mult,), ast.Mod: (ast.FloorDiv,),
       ast.Pow: (ast.Mult,), ast.LShift: (ast.RShift,), ast.RShift: (ast.LShift,), ast.BitAnd: (ast.BitOr,), ast.BitOr: (ast.BitXor, ast.BitAnd)}


def anchors():
    out = {}
    for line in open(os.path.join(HERE, "properties.jsonl")):
        d = json.loads(line)
        for f in set(re.findall(r"rosemary/[a-z_/]+\.py", json.dumps(d))):
            out.setdefault(f, []).append(d["id"])
    return out


def guarded(new, old, probe, t):
    """new if probe > t else old (for integer probes)"""
    test = ast.parse("isinstance(X, int) and X > %d" % t, mode="eval").body
    class R(ast.NodeTransformer):
        def visit_Name(self, n):
            return copy.deepcopy(probe) if n.id == "X" else n
    return ast.IfExp(test=R().visit(test), body=new, orelse=old)


def simple(n):
    return isinstance(n, ast.Name) or isinstance(n, ast.Attribute) and simple(n.value)


def sites(tree):
    """(path description, function producing the mutated node in place)"""
    out = []
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef,)):
            continue
        for parent in ast.walk(fn):
            for field, val in ast.iter_fields(parent):
                vals = val if isinstance(val, list) else [val]
                for i, node in enumerate(vals):
                    if isinstance(node, ast.AST):
                        for k in range(variants(node, parent, field)):
                            out.append((fn.name, parent, field, i if isinstance(val, list) else None, k))
    return out


def alts(node, parent, field):
    A = []
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for new in CMP.get(type(node.ops[0]), ()):
            m = copy.deepcopy(node)
            m.ops = [new()]
            A.append(m)
            if simple(node.left) and new in (ast.LtE, ast.Lt, ast.GtE, ast.Gt, ast.NotEq):
                for t in (4, 12, 50, 1000):
                    A.append(guarded(copy.deepcopy(m), copy.deepcopy(node), node.left, t))
    if isinstance(node, ast.BinOp):
        for new in BIN.get(type(node.op), ()):
            m = copy.deepcopy(node)
            m.op = new()
            A.append(m)
            if simple(node.left):
                for t in (4, 12, 50, 1000):
                    A.append(guarded(copy.deepcopy(m), copy.deepcopy(node), node.left, t))
    if isinstance(node, ast.Constant) and type(node.value) is int and field != "slice_":
        A.append(ast.Constant(node.value + 1))
        if node.value:
            A.append(ast.Constant(node.value - 1))
    if isinstance(node, ast.Constant) and type(node.value) is bool:
        A.append(ast.Constant(not node.value))
    if isinstance(node, ast.BoolOp):
        m = copy.deepcopy(node)
        m.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        A.append(m)
        for k in range(len(node.values)):
            m = copy.deepcopy(node)
            del m.values[k]
            A.append(m if len(m.values) > 1 else m.values[0])
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
        A.append(copy.deepcopy(node.operand))
    if field == "test" and isinstance(parent, (ast.If, ast.IfExp)):
        A += [ast.Constant(True), ast.Constant(False)]
    if isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)) and field in ("body", "orelse"):
        if not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            A.append(ast.Pass())
    if isinstance(node, ast.Break):
        A += [ast.Pass(), ast.Continue()]
    if isinstance(node, ast.Continue):
        A += [ast.Pass(), ast.Break()]
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
        if node.func.id in ("list", "set", "sorted", "abs", "tuple", "dict", "reversed") and len(node.args) == 1 and not node.keywords:
            A.append(copy.deepcopy(node.args[0]))
        if node.func.id in ("min", "max"):
            m = copy.deepcopy(node)
            m.func.id = "max" if node.func.id == "min" else "min"
            A.append(m)
        if len(node.args) == 2 and node.func.id not in ("range", "isinstance"):
            m = copy.deepcopy(node)
            m.args.reverse()
            A.append(m)
    if isinstance(node, ast.Slice):
        for part in ("lower", "upper", "step"):
            if getattr(node, part):
                m = copy.deepcopy(node)
                setattr(m, part, None)
                A.append(m)
    return A


def variants(node, parent, field):
    if isinstance(node, ast.expr) and isinstance(parent, ast.Expr):
        return 0
    return len(alts(node, parent, field))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="*")
    ap.add_argument("--n", type=int, default=20)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--jobs", default="1")
    a = ap.parse_args()
    anc = anchors()
    jobs = []
    for f in sorted(anc):
        if f.endswith("prime_list.py") or a.files and not any(x in f for x in a.files):
            continue
        src = open(os.path.join(REPO, f)).read()
        n = len(sites(ast.parse(src)))
        r = random.Random("%s|%d" % (f, a.seed))
        for k in sorted(r.sample(range(n), min(a.n, n))):
            jobs.append((f, k))
    dirs = []
    for _ in range(a.workers):
        d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
        shutil.copytree(os.path.join(REPO, "rosemary"), os.path.join(d, "rosemary"))
        dirs.append(d)
    tot = {}

    def one(job):
        f, k = job
        src = open(os.path.join(REPO, f)).read()
        tree = ast.parse(src)
        fname, parent, field, i, v = sites(tree)[k]
        old = getattr(parent, field) if i is None else getattr(parent, field)[i]
        was = ast.unparse(old)
        new = alts(old, parent, field)[v]
        if i is None:
            setattr(parent, field, new)
        else:
            getattr(parent, field)[i] = new
        line = getattr(old, "lineno", getattr(parent, "lineno", 0))
        text = ast.unparse(ast.fix_missing_locations(tree))
        d = dirs.pop()
        res = "missed"
        try:
            with open(os.path.join(d, f), "w") as g:
                g.write(text)
            for p in anc[f]:
                env = dict(os.environ, RT_REPO=d, RT_JOBS=a.jobs, RT_FAILFAST="1", RT_OUT=os.path.join(d, "ev"))
                r = subprocess.run([os.path.join(HERE, "check.sh"), p], env=env, capture_output=True, text=True)
                if r.returncode == 1:
                    res = "caught " + p
                    break
                if r.returncode == 2:
                    res = "inconclusive " + p
        finally:
            shutil.copy(os.path.join(REPO, f), os.path.join(d, f))
            dirs.append(d)
        tot.setdefault(f, []).append(res)
        if not res.startswith("caught"):
            print("%s %s:%d %s(): %s  ->  %s" % (res, f, line, fname, was[:160], ast.unparse(new)[:200]), flush=True)

    with ThreadPoolExecutor(a.workers) as ex:
        list(ex.map(one, jobs))
    for f in sorted(tot):
        print("%-64s %d of %d noticed" % (f, sum(x.startswith("caught") for x in tot[f]), len(tot[f])))
    for d in dirs:
        shutil.rmtree(d)


if __name__ == "__main__":
    main()
