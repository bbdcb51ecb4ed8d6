"""Confirm a planted bug in a scratch copy and store it below seeded/.

usage: plant.py SPEC.py [...]   (SPEC defines PROPERTY, EDITS [(file, old, new)], DEMO, NEEDS, BREAKS)
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

V = Path(__file__).resolve().parents[1]
PY = "/opt/venv/bin/python"
DEMO_SH = '''#!/bin/sh
# exit 0: property holds, 1: broken
export PYTHONPATH="$PWD/shepherd_core:$PWD/shepherd_data"
D=$(mktemp -d)
/opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py" "$D" > "$D/out.txt" 2>&1
R=$?
tail -n 5 "$D/out.txt"
rm -rf "$D"
exit $R
'''


def demo(where: Path, d: Path) -> int:
    r = subprocess.run(["sh", str(d / "demo.sh")], cwd=where, timeout=300, capture_output=True, text=True)
    print("   ", r.stdout.strip()[-200:].replace("\n", " | "))
    return r.returncode


def plant(spec: Path) -> bool:
    s = runpy.run_path(str(spec))
    sid = spec.stem
    w = Path(tempfile.mkdtemp(prefix="plant-"))
    try:
        r = w / "repo"
        subprocess.run(["cp", "-a", "/repo", str(r)], check=True)
        d = w / "seed" / sid
        d.mkdir(parents=True)
        (d / "demo.sh").write_text(DEMO_SH)
        (d / "demo.py").write_text(s["DEMO"].lstrip("\n"))
        for f, old, new in s["EDITS"]:
            p = r / f
            t = p.read_text()
            if t.count(old) != 1:
                print(sid, "edit matches", t.count(old), "times:", f)
                return False
            p.write_text(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True, check=True).stdout
        (d / "patch.diff").write_text(diff)
        (d / "meta.json").write_text(json.dumps({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, indent=1) + "\n")
        # removed lines have to be original
        for ln in subprocess.run(["git", "diff", "-U0"], cwd=r, capture_output=True, text=True).stdout.splitlines():
            pass
        a, b = demo(Path("/repo"), d), demo(r, d)
        if a != 0 or b == 0:
            print(sid, "demo: unpatched", a, "patched", b)
            return False
        if "--no-tests" not in sys.argv:
            base = json.load(open("/opt/vp/BASELINE.json"))
            out = w / "t.json"
            env = dict(os.environ, MPLBACKEND="Agg", PWNLIB_NOTERM="1", PYTHONPATH=f"{r}/shepherd_core:{r}/shepherd_data")
            bad = []
            for sub in ("shepherd_core", "shepherd_data"):
                x = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-o", "addopts=", "-p", "no:cacheprovider", "tests"], cwd=r / sub, env=env, capture_output=True, text=True, timeout=900)
                fails = [q for q in x.stdout.splitlines() if q.startswith(("FAILED", "ERROR"))]
                bad += fails
                print("   ", sub, x.stdout.strip().splitlines()[-1])
            del base, out
            if bad:
                print(sid, "tests fail:", bad[:3])
                return False
        dst = V / "seeded" / sid
        if dst.exists():
            shutil.rmtree(dst)
        shutil.copytree(d, dst)
        print(sid, "planted")
        return True
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    for a in sys.argv[1:]:
        if a.endswith(".py"):
            plant(Path(a))
