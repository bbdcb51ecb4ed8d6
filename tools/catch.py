"""Run the check of each seeded change on a patched scratch copy: catch.py [-j N] [-x PROP] [seed ...]."""
import argparse
import json
import os
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

V = Path(__file__).resolve().parents[1]


def one(a):
    sid, props = a
    d = V / "seeded" / sid
    props = props or [json.loads((d / "meta.json").read_text())["property"]]
    w = Path(tempfile.mkdtemp(prefix="catch-"))
    res = []
    try:
        subprocess.run(["cp", "-a", "/repo", str(w / "repo")], check=True)
        subprocess.run(["git", "apply", str(d / "patch.diff")], cwd=w / "repo", check=True)
        for p in props:
            t = time.time()
            r = subprocess.run(["./run.sh", p], cwd=V, env=dict(os.environ, VERIF_REPO=str(w / "repo")), capture_output=True, text=True)
            v = [q for q in r.stdout.splitlines() if q.startswith("VIOLATION")]
            keys = sorted({q.split("key=")[1].split()[0] for q in r.stdout.splitlines() if "key=" in q})[:4]
            res.append(f"{sid:28} {p} rc={r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} {time.time() - t:.0f}s n={len(v)} {keys} {r.stdout.strip().splitlines()[-1][:110] if not v else ''}")
    finally:
        shutil.rmtree(w)
    return "\n".join(res)


ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=2)
ap.add_argument("-x", action="append")
ap.add_argument("seeds", nargs="*")
o = ap.parse_args()
seeds = o.seeds or sorted(p.name for p in (V / "seeded").iterdir())
with ThreadPoolExecutor(o.j) as ex:
    for r in ex.map(one, [(s, o.x) for s in seeds]):
        print(r, flush=True)
