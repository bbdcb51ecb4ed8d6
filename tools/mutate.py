"""Mutation sweep: how many small changes of the code are seen by the checks?

mutate.py FILE[:start-end] -p C01,C02 [-n MAX] [-s SEED] [-w WORKERS] [-o OUT.jsonl]
Each mutant is applied to a scratch copy; the checks run one after another until one reports it. Survivors are
then run against the existing tests; those which pass everything are listed for review.
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from queue import Queue

V = Path(__file__).resolve().parents[1]
CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//", ast.Pow: "*",
       ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|", ast.BitOr: "&", ast.BitXor: "&"}
NAMES = {"min": "max", "max": "min", "any": "all", "all": "any", "floor": "ceil", "ceil": "floor", "round": "int",
         "sorted": "list", "set": "list", "append": "insert_", "isclose": "equal"}
SKIP_CALL = ("log", "logger", "Field", "echo", "info", "debug", "warning", "error")


def muts(src, lo, hi):
    tree = ast.parse(src)
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            c.parent = n
    lines = src.encode().splitlines(keepends=True)
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x))
    b = src.encode()

    def sp(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def txt(n):
        s, e = sp(n)
        return b[s:e].decode()

    def skipped(n):
        while n is not None:
            if isinstance(n, ast.Call):
                f = n.func
                while isinstance(f, ast.Attribute):
                    if f.attr in SKIP_CALL:
                        return True
                    f = f.value
                if isinstance(f, ast.Name) and f.id in SKIP_CALL:
                    return True
            if isinstance(n, ast.Raise):
                return True
            if isinstance(n, ast.JoinedStr):
                return True
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "msg":
                return True
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                break
            n = getattr(n, "parent", None)
        return False

    out = []

    def add(n, s, e, new, kind):
        if lo <= n.lineno <= hi:
            out.append((s, e, new, kind, n.lineno))

    for n in ast.walk(tree):
        if not hasattr(n, "lineno"):
            continue
        if isinstance(n, (ast.Raise, ast.Continue, ast.Break)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)) \
                or isinstance(n, (ast.Assign, ast.AugAssign)):
            if isinstance(n, ast.Expr) and skipped(n.value):
                continue
            if isinstance(n, ast.Assign) and (isinstance(n.parent, (ast.Module, ast.ClassDef)) or skipped(n)):
                continue
            s, e = sp(n)
            add(n, s, e, "pass", "del")
            if isinstance(n, ast.Continue):
                add(n, s, e, "break", "stmt")
            if isinstance(n, ast.Break):
                add(n, s, e, "continue", "stmt")
            continue_ = False
        if skipped(n):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = txt(n.left), txt(n.comparators[0])
            for o in CMP.get(type(n.ops[0]), []):
                add(n, *sp(n), f"({l} {o} {r})", "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            add(n, *sp(n), f"({txt(n.left)} {BIN[type(n.op)]} {txt(n.right)})", "bin")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, *sp(n), "(" + o.join(f"({txt(v)})" for v in n.values) + ")", "bool")
            for i in range(len(n.values)):
                o2 = " and " if isinstance(n.op, ast.And) else " or "
                rest = [f"({txt(v)})" for j, v in enumerate(n.values) if j != i]
                add(n, *sp(n), "(" + o2.join(rest) + ")", "booldrop")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, *sp(n), f"({txt(n.operand)})", "not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add(n, *sp(n), f"({txt(n.operand)})", "neg")
        elif isinstance(n, (ast.If, ast.While)):
            add(n, *sp(n.test), "True" if isinstance(n, ast.If) else f"not ({txt(n.test)})", "cond")
            add(n, *sp(n.test), "False", "cond")
        elif isinstance(n, ast.IfExp):
            add(n, *sp(n), f"({txt(n.body)})", "ifexp")
            add(n, *sp(n), f"({txt(n.orelse)})", "ifexp")
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(n.parent, ast.Expr):
                continue
            if isinstance(v, bool):
                add(n, *sp(n), str(not v), "const")
            elif isinstance(v, int):
                add(n, *sp(n), str(v + 1), "const")
                if v:
                    add(n, *sp(n), str(v - 1), "const")
            elif isinstance(v, float):
                add(n, *sp(n), repr(v * 1.01 + (v == 0) * 1e-3), "const")
            elif isinstance(v, str) and v and len(v) < 30 and not isinstance(n.parent, (ast.JoinedStr, ast.FormattedValue)):
                add(n, *sp(n), repr(v + "_"), "str")
            elif v is None and isinstance(n.parent, ast.Return):
                pass
        elif isinstance(n, ast.Call):
            f = n.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
            if nm in NAMES and nm != "append":
                s, e = sp(f)
                add(n, e - len(nm), e, NAMES[nm], "call")
            if len(n.args) == 1 and not n.keywords and nm in ("float", "int", "str", "list", "abs", "copy", "deepcopy", "bool", "tuple"):
                add(n, *sp(n), f"({txt(n.args[0])})", "unwrap")
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    s, e = sp(k)
                    # also remove the comma
                    q = e
                    while b[q:q + 1] in (b" ", b"\n"):
                        q += 1
                    if b[q:q + 1] == b",":
                        add(n, s, q + 1, "", "kwdrop")
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            add(n, *sp(n.value), "None", "ret")
        elif isinstance(n, ast.Slice):
            for part in (n.lower, n.upper):
                if part is not None and not isinstance(part, ast.Constant):
                    add(part, *sp(part), f"({txt(part)} + 1)", "slice")
    res = []
    for s, e, new, kind, line in sorted(set(out)):
        m = b[:s] + new.encode() + b[e:]
        try:
            t2 = ast.parse(m.decode())
        except SyntaxError:
            continue
        if ast.dump(t2) == ast.dump(ast.parse(src)):
            continue
        res.append({"line": line, "kind": kind, "old": b[s:e].decode()[:100], "new": new[:100], "src": m.decode()})
    return res


ap = argparse.ArgumentParser()
ap.add_argument("file")
ap.add_argument("-p", required=True)
ap.add_argument("-n", type=int, default=60)
ap.add_argument("-s", type=int, default=1)
ap.add_argument("-w", type=int, default=4)
ap.add_argument("-o", default="/tmp/mut.jsonl")
ap.add_argument("--list", action="store_true")
o = ap.parse_args()
name, _, rng = o.file.partition(":")
lo, hi = (int(x) for x in rng.split("-")) if rng else (1, 10**9)
src = Path("/repo", name).read_text()
ms = muts(src, lo, hi)
total = len(ms)
random.Random(o.s).shuffle(ms)
ms = ms[: o.n]
print(f"{o.file}: {total} mutants, {len(ms)} selected", flush=True)
if o.list:
    for m in sorted(ms, key=lambda m: m["line"]):
        print(m["line"], m["kind"], m["old"], "=>", m["new"])
    raise SystemExit
pool: Queue = Queue()
roots = []
for _ in range(o.w):
    w = Path(tempfile.mkdtemp(prefix="mut-"))
    subprocess.run(["cp", "-a", "/repo", str(w / "repo")], check=True)
    roots.append(w)
    pool.put(w)


def tests_pass(repo):
    """the baseline command on the copy"""
    base = json.loads(Path("/opt/vp/BASELINE.json").read_text())["stable"]
    t = Path(tempfile.mkdtemp(prefix="muttest-"))
    procs = []
    for sub in ("shepherd_core", "shepherd_data"):
        for h in ("build_msp.hex", "build_nrf.hex"):
            (repo / "shepherd_core/tests/fw_tools" / h).unlink(missing_ok=True)
        env = dict(os.environ, PYTHONPATH=f"{repo}/shepherd_core:{repo}/shepherd_data", PYTHONDONTWRITEBYTECODE="1", TZ="UTC", MPLBACKEND="Agg",
                   PWNLIB_NOTERM="1", PYTHONHASHSEED="0", HOME=str(t), XDG_CACHE_HOME=str(t / f"c_{sub}"), MPLCONFIGDIR=str(t / f"m_{sub}"))
        procs.append(subprocess.Popen(
            ["timeout", "400", "/opt/venv/bin/python", "-m", "pytest", "tests", "-c", "pyproject.toml", f"--rootdir={repo}", "-o", "addopts=", "-q", "-x",
             "-p", "no:cacheprovider", "--timeout=300", f"--basetemp={t}/t_{sub}", f"--junitxml={t}/{sub}.xml"],
            cwd=repo / sub, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    rc = [p.wait() for p in procs]
    import xml.etree.ElementTree as ET
    n = 0
    for x in t.glob("*.xml"):
        n += sum(1 for tc in ET.parse(x).iter("testcase") if not any(c.tag in ("failure", "error", "skipped") for c in tc))
    shutil.rmtree(t, ignore_errors=True)
    return not any(rc) and n >= len(base)


def run(m):
    w = pool.get()
    repo = w / "repo"
    f = repo / name
    t = time.time()
    try:
        f.write_text(m["src"])
        verdict = "survived"
        for p in o.p.split(","):
            r = subprocess.run(["timeout", "400", "./run.sh", p], cwd=V, capture_output=True, text=True, check=False,
                               env=dict(os.environ, VERIF_REPO=str(repo), VERIF_FAILFAST="1", VERIF_JOBS=str(max(1, 8 // o.w))))
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                verdict = "caught " + p
                break
            if r.returncode not in (0, 1):
                verdict = f"survived(rc{r.returncode} {p})"
        if verdict.startswith("survived"):
            verdict = ("SURVIVED" if tests_pass(repo) else "tests") + verdict[8:]
    finally:
        f.write_text(src)
        pool.put(w)
    d = {k: m[k] for k in ("line", "kind", "old", "new")} | {"verdict": verdict, "file": name, "s": round(time.time() - t)}
    with open(o.o, "a") as h:
        h.write(json.dumps(d) + "\n")
    if verdict.startswith("SURV"):
        print(f"{verdict} {name.split('/')[-1]}:{m['line']} {m['kind']}: {m['old']} => {m['new']}", flush=True)
    return verdict


try:
    with ThreadPoolExecutor(o.w) as ex:
        res = list(ex.map(run, ms))
finally:
    for w in roots:
        shutil.rmtree(w, ignore_errors=True)
from collections import Counter
print(Counter(r.split()[0] for r in res), flush=True)
