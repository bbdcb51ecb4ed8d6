"""Entry point: run.py <PROPERTY> [--case family[:index]]  (use ./run.sh)."""
import argparse
import importlib
import os
import shutil
import sys
import tempfile
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--case")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--jobs", type=int)
    args = ap.parse_args()
    from vlib import core

    # the code under test must be the working tree of REPO, nothing else
    import importlib.util

    for pkg, src in (("shepherd_core", core.SRC_CORE), ("shepherd_data", core.SRC_DATA)):
        spec = importlib.util.find_spec(pkg)
        if spec is None or Path(spec.origin).resolve().parent != src:
            print(f"INCONCLUSIVE {pkg} is not imported from {src}: {spec}")
            return 2
    try:
        check = importlib.import_module(f"checks.{args.prop}")
    except Exception as e:
        frames = core._repo_frames(e.__traceback__)
        if not frames:
            raise
        rdir = HERE / "replay" / args.prop
        rdir.mkdir(parents=True, exist_ok=True)
        (rdir / "import.txt").write_text(f"{e!r}\n{frames}\n")
        print(f"VIOLATION property={args.prop} replay=replay/{args.prop}/import.txt")
        print(f"   code under test fails on import: {e!r}")
        return 1
    return core.run_check(check, args.tier, args.seed, args.case, args.jobs)


if __name__ == "__main__":
    scratch = tempfile.mkdtemp(prefix="shpverif-")
    os.environ["VERIF_SCRATCH"] = scratch
    for var in ("XDG_CACHE_HOME", "MPLCONFIGDIR", "HOME", "XDG_CONFIG_HOME"):
        d = os.path.join(scratch, var.lower())
        os.makedirs(d)
        os.environ[var] = d
    try:
        rc = main()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)
