#!/opt/venv/bin/python
"""Development aid: mutation campaign.  mutate.py COVDIR OUT FILE [--n N] [--seed S] [--workers W] [--lines a-b]

Makes small changes (operators, constants, conditions, deleted statements) on lines which the checks execute, runs the checks that
execute the line against a scratch copy, and records which survive.  Nothing in /repo or /verif is touched."""
import argparse
import ast
import glob
import json
import os
import pickle
import random
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

CMP = {ast.Lt: ("<", "<="), ast.LtE: ("<=", "<"), ast.Gt: (">", ">="), ast.GtE: (">=", ">"), ast.Eq: ("==", "!="), ast.NotEq: ("!=", "=="),
       ast.In: ("in", "not in"), ast.NotIn: ("not in", "in"), ast.Is: ("is", "is not"), ast.IsNot: ("is not", "is")}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.FloorDiv: ("//", "/"), ast.Mod: ("%", "//"), ast.Pow: ("**", "*"),
       ast.BitAnd: ("&", "|"), ast.BitOr: ("|", "&"), ast.LShift: ("<<", ">>")}
AUG = {ast.Add: ("+=", "-="), ast.Sub: ("-=", "+="), ast.Mult: ("*=", "/="), ast.Div: ("/=", "*=")}


def py_mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for x in lines:
        offs.append(offs[-1] + len(x.encode()) + 1)
    b = src.encode()

    def pos(n, end=False):
        return offs[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)
    out = []

    def rep(a, z, new, line, what):
        if b[a:z].decode() != new:
            out.append((a, z, new, line, what))

    def between(l, r, old, new, line):
        a, z = pos(l, True), pos(r)
        seg = b[a:z].decode()
        m = re.search(re.escape(old) if not old[0].isalpha() else r"\b" + old.replace(" ", r"\s+") + r"\b", seg)
        if m:
            rep(a + m.start(), a + m.end(), new, line, f"{old} -> {new}")
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and re.search(r"plot|_draw|__repr__|__str__|summary$|print|report", n.name):
            skip |= set(range(n.lineno, n.end_lineno + 1))
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
            skip |= set(range(n.lineno, n.end_lineno + 1))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            t = ast.unparse(n.value.func)
            if re.match(r"(LOG|LOGGER|print|warnings|plt|ax|logging)\b", t):
                skip |= set(range(n.lineno, n.end_lineno + 1))
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare):
            l = n.left
            for op, r in zip(n.ops, n.comparators):
                o = CMP.get(type(op))
                if o:
                    between(l, r, o[0], o[1], n.lineno)
                l = r
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if not (isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, "value", ""), str)):
                between(n.left, n.right, *BIN[type(n.op)], n.lineno)
        elif isinstance(n, ast.AugAssign) and type(n.op) in AUG:
            between(n.target, n.value, *AUG[type(n.op)], n.lineno)
        elif isinstance(n, ast.BoolOp):
            for l, r in zip(n.values, n.values[1:]):
                o = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
                between(l, r, *o, n.lineno)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            rep(pos(n), pos(n.operand), "", n.lineno, "drop unary")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float, bool):
            a, z = pos(n), pos(n, True)
            t = b[a:z].decode()
            if t not in ("True", "False") and not re.match(r"[\d.]", t):
                continue
            if isinstance(n.value, bool):
                rep(a, z, str(not n.value), n.lineno, "flip")
            elif isinstance(n.value, int):
                rep(a, z, str(n.value + 1), n.lineno, f"{n.value} -> {n.value + 1}")
            else:
                rep(a, z, repr(n.value * 1.5 + (n.value == 0)), n.lineno, "const*1.5")
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            a, z = pos(n.test), pos(n.test, True)
            if isinstance(n, ast.While):
                continue
            rep(a, z, "True", n.lineno, "cond True")
            rep(a, z, "False", n.lineno, "cond False")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            rep(pos(n), pos(n, True), "pass", n.lineno, "delete call")
        elif isinstance(n, ast.AugAssign):
            pass
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            rep(pos(n), pos(n, True), "pass", n.lineno, "delete assignment")
        elif isinstance(n, (ast.Continue, ast.Break)):
            rep(pos(n), pos(n, True), "pass", n.lineno, "delete jump")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "flatten", "astype") and n.func.attr == "copy" and not n.args:
            rep(pos(n.func.value, True), pos(n, True), "", n.lineno, "drop .copy()")
        elif isinstance(n, ast.Return) and n.value is None:
            rep(pos(n), pos(n, True), "pass", n.lineno, "delete return")
    return [m for m in out if m[3] not in skip], b


def pyx_mutants(src):
    b = src.encode()
    out = []
    off = 0
    doc = False
    for no, line in enumerate(src.split("\n"), 1):
        code = line.split("#")[0]
        q = code.count('"""')
        if q == 1:
            doc = not doc
        if not doc and not q and code.strip() and not re.match(r"\s*(import|from|cimport|@|raise|cdef extern|def |cdef .*\bdef\b|ctypedef|assert)", code):
            for pat, new in ((r"<=", "<"), (r">=", ">"), (r"(?<![<>=!])<(?![=<])", "<="), (r"(?<![<>=!\-])>(?![=>])", ">="), (r"==", "!="), (r"!=", "=="),
                             (r" \+ ", " - "), (r"(?<=[\w\])]) - (?=\w)", " + "), (r" \* ", " / "), (r" / ", " * "), (r"\+=", "-="), (r"-=", "+="),
                             (r"(?<=[\w\])])\+(?=[\w(])", "-"), (r"(?<=[\w\])])-(?=[\w(])", "+"),
                             (r"\band\b", "or"), (r"\bor\b", "and"), (r"\bnot\b", ""), (r"\bTrue\b", "False"), (r"\bFalse\b", "True")):
                for m in re.finditer(pat, code):
                    if "cdef" in code and pat in (r" \* ",):
                        continue
                    s = off + len(code[:m.start()].encode())
                    out.append((s, s + len(m.group().encode()), new, no, f"{m.group()} -> {new}"))
            for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
                s = off + len(code[:m.start()].encode())
                out.append((s, s + len(m.group()), str(int(m.group()) + 1), no, "const+1"))
            for m in re.finditer(r"(?<![\w.])(\d+\.\d+)(?!\w)", code):
                s = off + len(code[:m.start()].encode())
                out.append((s, s + len(m.group()), str(float(m.group()) * 1.5 + (float(m.group()) == 0)), no, "const*1.5"))
        off += len(line.encode()) + 1
    return out, b


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cov")
    ap.add_argument("out")
    ap.add_argument("file")
    ap.add_argument("--n", type=int, default=40)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--workers", type=int, default=2)
    ap.add_argument("--lines")
    ap.add_argument("--props", help="comma separated; default: those that execute the line")
    ap.add_argument("--max-props", type=int, default=4)
    a = ap.parse_args()
    src = open("/repo/" + a.file).read()
    muts, b = (pyx_mutants if a.file.endswith(".pyx") else py_mutants)(src)
    cov = {}
    for f in glob.glob(a.cov + "/*.pickle"):
        p = os.path.basename(f)[:3]
        for fn, no in pickle.load(open(f, "rb")):
            cov.setdefault((fn, no), set()).add(p)
    prefer = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "prefer.json"))).get(a.file, [])
    todo = []
    for m in muts:
        if a.lines:
            lo, hi = map(int, a.lines.split("-"))
            if not lo <= m[3] <= hi:
                continue
        ps = a.props.split(",") if a.props else cov.get((a.file, m[3]), set())
        if a.file.endswith(".pyx"):
            ps = prefer
        if ps:
            ps = [p for p in prefer if p in ps] + sorted(set(ps) - set(prefer))
            todo.append((m, ps[:a.max_props]))
    random.Random(a.seed).shuffle(todo)
    todo = todo[:a.n]
    print(f"{a.file}: {len(muts)} mutants, {len(todo)} chosen", flush=True)
    free = []
    for w in range(a.workers):
        d = f"/dev/shm/mutws_{os.getpid()}_{w}"
        os.makedirs(d)
        subprocess.run(f"cp -a /repo/mass /repo/bin /repo/setup.py /repo/setup.cfg /repo/pyproject.toml /repo/README.md {d}/ 2>/dev/null; mkdir -p {d}/build; cp -a /repo/build/ext_cache.json {d}/build/", shell=True)
        free.append(d)
    fp = open(a.out, "a")

    def one(job):
        (s, e, new, line, what), ps = job
        d = free.pop()
        try:
            text = b[:s] + new.encode() + b[e:]
            path = os.path.join(d, a.file)
            shutil.copy2("/repo/" + a.file, path)
            os.remove(path)
            open(path, "wb").write(text)
            killed, t0 = None, time.time()
            for p in ps:
                r = subprocess.run(["/verif/check.py", p], env={**os.environ, "VERIF_REPO": d}, capture_output=True, text=True, timeout=900)
                if r.returncode != 0:
                    v = [x for x in r.stdout.split("\n") if "VIOLATION" in x or x.startswith("  ")]
                    killed = (p, r.returncode, (v[1] if len(v) > 1 else v[0] if v else r.stderr[-100:]).strip()[:100])
                    break
            old = src.split("\n")[line - 1].strip()
            res = {"file": a.file, "line": line, "what": what, "code": old, "killed": killed, "props": ps, "span": [s, e], "new": new, "t": round(time.time() - t0, 1)}
            fp.write(json.dumps(res) + "\n")
            fp.flush()
            if not killed:
                print(f"SURVIVED {a.file}:{line} [{what}] {old[:110]}   ({','.join(ps)})", flush=True)
        except subprocess.TimeoutExpired:
            print("TIMEOUT", line, what, flush=True)
        finally:
            shutil.copy2("/repo/" + a.file, os.path.join(d, a.file))
            free.append(d)
        return killed is not None
    with ThreadPoolExecutor(a.workers) as ex:
        r = list(ex.map(one, todo))
    print(f"{a.file}: {sum(map(bool, r))}/{len(r)} killed", flush=True)
    for d in free:
        shutil.rmtree(d)


main()
