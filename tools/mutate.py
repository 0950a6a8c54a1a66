#!/usr/bin/env python3
"""development aid: mutate the functions the contracts execute and list the mutants no contract notices

python3-vt tools/mutate.py OUT.json [-j WORKERS] [-f FILE-SUBSTRING] [-n PER_FUNCTION] [-s SEED]   (scratch copies under /tmp)"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/bayesbay"
sys.path.insert(0, HERE)


def spans(path, text):
    """(qualified name, first line, last line) of every function"""
    out = []
    if path.endswith(".pyx"):
        lines = text.split("\n")
        starts = [i for i, l in enumerate(lines) if re.match(r"(cp?def|def)\b.*\(", l)]
        for a, b in zip(starts, starts[1:] + [len(lines)]):
            n = re.search(r"(\w+)\s*\(", lines[a]).group(1)
            out.append((n, a + 1, b))
        return out

    def walk(n, q):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.ClassDef):
                walk(c, q + [c.name])
            elif isinstance(c, ast.FunctionDef):
                out.append((".".join(q + [c.name]), c.lineno, c.end_lineno))
                walk(c, q + [c.name])
    walk(ast.parse(text), [])
    return out


SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}


def mutants_py(text):
    """(line, new text, description)"""
    tree = ast.parse(text)
    lines = text.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    raw = text.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def rep(n, new):
        a, b = pos(n)
        return (raw[:a] + new.encode() + raw[b:]).decode()
    src = lambda n: raw[slice(*pos(n))].decode()
    out = []
    docs = {id(s.value) for n in ast.walk(tree) if hasattr(n, "body") and isinstance(n.body, list) for s in n.body[:1] if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)}
    notes = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.arg) and n.annotation is not None:
            notes |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            notes |= {id(x) for x in ast.walk(n.returns)}
        if isinstance(n, ast.AnnAssign):
            notes |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, (ast.Raise, ast.Assert, ast.JoinedStr)):
            notes |= {id(x) for x in ast.walk(n)}
    for n in ast.walk(tree):
        if id(n) in notes or id(n) in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            out.append((n.lineno, rep(n, f"{src(n.left)} {SWAP[type(n.ops[0])]} {src(n.comparators[0])}"), "compare"))
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS:
            out.append((n.lineno, rep(n, f"({src(n.left)}) {OPS[type(n.op)]} ({src(n.right)})"), "operator"))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            out.append((n.lineno, rep(n, repr(n.value + 1)), "constant"))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((n.lineno, rep(n, repr(not n.value)), "constant"))
        elif isinstance(n, ast.BoolOp):
            w = " or " if isinstance(n.op, ast.And) else " and "
            out.append((n.lineno, rep(n, w.join(f"({src(v)})" for v in n.values)), "and/or"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            out.append((n.lineno, rep(n, f"({src(n.operand)})"), "sign"))
        elif isinstance(n, (ast.If, ast.While)):
            out.append((n.lineno, rep(n.test, f"not ({src(n.test)})"), "condition"))
        elif isinstance(n, ast.IfExp):
            out.append((n.lineno, rep(n, f"({src(n.orelse)}) if ({src(n.test)}) else ({src(n.body)})"), "condition"))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) or isinstance(n, (ast.Assign, ast.AugAssign)) and isinstance(getattr(n, "target", None) or n.targets[0], (ast.Attribute, ast.Subscript)):
            out.append((n.lineno, rep(n, "pass"), "dropped"))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy",) and not n.args:
            out.append((n.lineno, rep(n, src(n.func.value)), "uncopied"))
        elif isinstance(n, (ast.Continue, ast.Break)):
            out.append((n.lineno, rep(n, "pass"), "dropped"))
        elif isinstance(n, ast.keyword) and n.arg and False:
            pass
    return out


def mutants_pyx(text):
    out = []
    lines = text.split("\n")
    indoc = False
    for i, l in enumerate(lines):
        if l.count('"""') == 1:
            indoc = not indoc
        if indoc or '"""' in l or re.match(r"\s*(#|c?p?def|cdef|import|cimport|from|@)", l):
            continue
        for pat, new in ((r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
                         (r"\b1\b", "2"), (r"\b0\b", "1"), (r"\b2\b", "3"), (r" and ", " or "), (r" or ", " and "), (r"\+= ", "-= ")):
            for m in re.finditer(pat, l):
                out.append((i + 1, "\n".join(lines[:i] + [l[:m.start()] + new + l[m.end():]] + lines[i + 1:]), "text"))
        if re.match(r"\s*\w+\[.*\] = ", l):
            out.append((i + 1, "\n".join(lines[:i] + [re.match(r"\s*", l).group() + "pass"] + lines[i + 1:]), "dropped"))
    return out


def main():
    a = sys.argv[1:]
    opt = {"-j": "7", "-f": "", "-n": "6", "-s": "1"}
    for k in opt:
        if k in a:
            i = a.index(k); opt[k] = a[i + 1]; del a[i:i + 2]
    cover = json.load(open("/tmp/cover.json"))      # function -> proofs that execute it
    rnd = random.Random(int(opt["-s"]))
    jobs = []
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if not f.endswith((".py", ".pyx")) or opt["-f"] not in p:
                continue
            text = open(p).read()
            mod = "bayesbay." + os.path.relpath(p, SRC).rsplit(".", 1)[0].replace("/", ".")
            ms = mutants_pyx(text) if f.endswith(".pyx") else mutants_py(text)
            for q, x, y in spans(p, text):
                ps = cover.get(mod + "." + q)
                if not ps:
                    continue
                mine = [m for m in ms if x < m[0] <= y]
                rnd.shuffle(mine)
                for line, new, what in mine[:int(opt["-n"])]:
                    jobs.append((os.path.relpath(p, "/repo"), mod + "." + q, line, what, new, ps, text))
    print(len(jobs), "mutants", flush=True)

    def one(j):
        rel, q, line, what, new, ps, text = j
        d = tempfile.mkdtemp(prefix="mu.")
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("*.so", "*.c", "__pycache__"))
        open(os.path.join(d, rel), "w").write(new)
        t = time.time()
        try:
            r = subprocess.run(["python3-vt", os.path.join(HERE, "tools", "mutate1.py"), d] + ps, capture_output=True, text=True, timeout=900, cwd=HERE)
            out = r.stdout.strip().split("\n")[-1] or r.stderr[-300:]
        except subprocess.TimeoutExpired:
            out = "timeout"
        shutil.rmtree(d)
        o, n = text.split("\n"), new.split("\n")
        diff = [(x.strip(), y.strip()) for x, y in zip(o, n) if x != y][:1]
        print(f"{out[:160]} | {q}:{line} {what}: {diff} {time.time()-t:.0f}s", flush=True)
        return dict(fn=q, line=line, what=what, diff=diff, result=out)
    with ThreadPoolExecutor(int(opt["-j"])) as ex:
        res = list(ex.map(one, jobs))
    json.dump(res, open(a[0], "w"), indent=1)


main()
