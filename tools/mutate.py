"""A mutation campaign: mutate.py OUT.jsonl [FILE ...]

Makes one small change at a time to the sources of /repo in scratch copies, drops what the
existing tests reject, and runs the checks (the likely ones first, until one reports a
violation). What survives both is equivalent or a gap. Resumes from OUT.jsonl.
"""

import ast
import copy
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ALL = [f"C{i:02d}" for i in range(1, 35)]
# the checks that a change of a file can concern, the likely ones first
FIRST = {
    "models.py": "C01 C02 C03 C06 C10 C16 C26 C05 C04 C08 C09 C24 C22 C20 C07 C33 C31 C21 C23",
    "distributions.py": "C11 C12 C25 C27 C06 C19 C22 C14 C13 C15 C18 C28 C34 C23 C20 C26 C33",
    "plot.py": "C28 C29 C30 C18 C23 C15 C34",
    "slice.py": "C18 C23 C21 C34",
    "_beta_geometric.py": "C11 C07 C13 C15 C33 C16 C18 C28",
    "_compound_gamma.py": "C11 C08 C13 C15 C33 C16 C18 C28",
    "_random.py": "C15 C13 C14",
}
FIRST = {k: v.split() for k, v in FIRST.items()}
SWAP = {
    ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult],
    ast.MatMult: [ast.Mult], ast.Mod: [ast.Mult], ast.FloorDiv: [ast.Div],
    ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
    ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
    ast.And: [ast.Or], ast.Or: [ast.And], ast.BitAnd: [ast.BitOr],
}


def variants(node):
    """Mutated versions of a node."""
    out = []

    def new(**kw):
        n = copy.deepcopy(node)
        for k, v in kw.items():
            setattr(n, k, v)
        out.append(n)

    if isinstance(node, ast.BinOp):
        for op in SWAP.get(type(node.op), []):
            new(op=op())
        out.append(copy.deepcopy(node.left))
        out.append(copy.deepcopy(node.right))
        if isinstance(node.op, (ast.Sub, ast.Div, ast.MatMult)):
            new(left=copy.deepcopy(node.right), right=copy.deepcopy(node.left))
    elif isinstance(node, ast.BoolOp):
        for op in SWAP.get(type(node.op), []):
            new(op=op())
        for v in node.values:
            out.append(copy.deepcopy(v))
    elif isinstance(node, ast.Compare):
        for op in SWAP.get(type(node.ops[0]), []):
            new(ops=[op()] + node.ops[1:])
    elif isinstance(node, ast.UnaryOp):
        out.append(copy.deepcopy(node.operand))
    elif isinstance(node, ast.Constant):
        v = node.value
        if v is True or v is False:
            new(value=not v)
        elif isinstance(v, (int, float)):
            new(value=v + 1)
            if v:
                new(value=0)
    elif isinstance(node, ast.Call):
        for i in range(len(node.keywords)):
            new(keywords=node.keywords[:i] + node.keywords[i + 1 :])
        for i in range(len(node.args) - 1):
            a = list(node.args)
            a[i], a[i + 1] = a[i + 1], a[i]
            new(args=a)
        for i in range(len(node.keywords) - 1):
            k = copy.deepcopy(node.keywords)
            k[i].value, k[i + 1].value = k[i + 1].value, k[i].value
            new(keywords=k)
        if len(node.args) == 1 and not node.keywords:
            out.append(copy.deepcopy(node.args[0]))
        if isinstance(node.func, ast.Attribute) and not node.args and not isinstance(node.func.value, ast.Name):
            out.append(copy.deepcopy(node.func.value))
    elif isinstance(node, ast.IfExp):
        out += [copy.deepcopy(node.body), copy.deepcopy(node.orelse)]
    elif isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
        other = dict(alpha="beta", beta="alpha", mu="nu", nu="alpha", lam="beta", kappa="nu", sigma="mu", T="copy()").get(node.attr)
        if other and "(" not in other:
            new(attr=other)
        if node.attr == "T":
            out.append(copy.deepcopy(node.value))
    return out


def mutants(path):
    text = open(path).read()
    lines = text.split("\n")
    starts = [0]
    for ln in text.encode().split(b"\n"):
        starts.append(starts[-1] + len(ln) + 1)
    raw = text.encode()
    tree = ast.parse(text)
    skip = set()
    for n in ast.walk(tree):
        for field in ("annotation", "returns"):
            a = getattr(n, field, None)
            if a is not None:
                skip.update(map(id, ast.walk(a)))
        if isinstance(n, (ast.JoinedStr, ast.Import, ast.ImportFrom)):
            skip.update(map(id, ast.walk(n)))
    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    seen = set()
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.expr):
            a, b = span(n)
            for v in variants(n):
                src = "(" + ast.unparse(v) + ")" if not isinstance(v, (ast.Constant, ast.Name, ast.Attribute, ast.Call)) else ast.unparse(v)
                yield_text = raw[:a] + src.encode() + raw[b:]
                if yield_text not in seen and yield_text != raw:
                    seen.add(yield_text)
                    yield n.lineno, raw[a:b].decode(), src, yield_text
        elif isinstance(n, ast.If):
            a, b = span(n.test)
            for src in ("True", "False"):
                yield n.lineno, f"if {raw[a:b].decode()}", src, raw[:a] + src.encode() + raw[b:]
        elif isinstance(n, (ast.Assign, ast.Expr, ast.AugAssign, ast.Raise)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            a, b = span(n)
            yield n.lineno, raw[a:b].decode(), "pass", raw[:a] + b"pass" + raw[b:]
    del lines


def sh(cmd, cwd, env, timeout):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None


def judge(slot, file, mutant):
    line, old, new, text = mutant
    W = f"/tmp/mut/slot{slot}"
    with open(f"{W}/repo/conjugate/{file}", "wb") as f:
        f.write(text)
    out = dict(file=file, line=line, old=old[:200], new=new[:200], id=hashlib.sha1(text).hexdigest()[:16])
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    try:
        r = sh([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--no-cov", "-x"], W + "/repo", env, 120)
        if r is None or r.returncode:
            return dict(out, result="tests")
        env.update(VMON_REPO=W + "/repo", VERIF_SEED="1", VERIF_TIER="quick")
        odd = []
        order = FIRST[file] + [p for p in ALL if p not in FIRST[file] and os.environ.get("EVERY")]
        for p in order:
            r = sh([W + "/verif/check", p, "--jobs", "1"], W, env, 400)
            if r is None:
                odd.append(f"{p}:timeout")
            elif r.returncode == 1:
                return dict(out, result="caught", by=p, odd=odd)
            elif r.returncode:
                odd.append(f"{p}:rc{r.returncode} " + r.stdout[-300:] + r.stderr[-300:])
        return dict(out, result="SURVIVED", odd=odd)
    finally:
        shutil.copy(f"/repo/conjugate/{file}", f"{W}/repo/conjugate/{file}")


def main():
    target, files = sys.argv[1], sys.argv[2:] or list(FIRST)
    done = set()
    if os.path.exists(target):
        done = {json.loads(x)["id"] for x in open(target)}
    slots = int(os.environ.get("SLOTS", "7"))
    os.makedirs("/tmp/mut", exist_ok=True)
    for i in range(slots):
        W = f"/tmp/mut/slot{i}"
        shutil.rmtree(W, ignore_errors=True)
        shutil.copytree("/repo", W + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git", "docs"))
        shutil.copytree(ROOT, W + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
    work = [(f, m) for f in files for m in mutants(f"/repo/conjugate/{f}")]
    work = [(f, m) for f, m in work if hashlib.sha1(m[3]).hexdigest()[:16] not in done]
    # in an order that a stopped campaign leaves a fair sample of
    work.sort(key=lambda fm: hashlib.sha1(fm[1][3] if isinstance(fm[1][3], bytes) else fm[1][3].encode()).hexdigest())
    print(len(work), "mutants", flush=True)
    if os.environ.get("LIST"):
        for f, m in work:
            print(f, m[0], m[1][:60], "->", m[2][:60])
        return
    import queue

    free = queue.Queue()
    for i in range(slots):
        free.put(i)

    def one(fm):
        s = free.get()
        t = time.time()
        try:
            return dict(judge(s, *fm), wall=round(time.time() - t, 1))
        finally:
            free.put(s)

    with ThreadPoolExecutor(slots) as pool, open(target, "a") as out:
        for r in pool.map(one, work):
            out.write(json.dumps(r) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
