"""Case runner, verdict discipline, counters, evidence.

A check module (checks/<ID>.py) provides

    PROPERTY   id of the property
    RULE       text: how cases are made, what makes one non-trivial
    FAMILIES   {name: Family(func, quick=n, thorough=n)}
               func(ctx) runs ONE workload case, observes it and calls ctx.fail(...)
    REQUIRED   {counter: minimum} events the monitors must have seen for a verdict
               (quick-tier numbers, summed over all cases)

Verdicts: 0 = held on what was observed, 1 = violation, 2 = inconclusive.
"""
from __future__ import annotations

import dataclasses
import hashlib
import json
import multiprocessing as mp
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import types
import zlib
from collections import Counter
from pathlib import Path
from typing import Any
from typing import Callable

VERIF = Path(__file__).resolve().parents[1]
REPO = Path(os.environ.get("VERIF_REPO", "/repo")).resolve()
SRC_CORE = REPO / "shepherd_core" / "shepherd_core"
SRC_DATA = REPO / "shepherd_data" / "shepherd_data"

CPU_LIMIT_S = int(os.environ.get("VERIF_CASE_CPU", "90"))
WALL_LIMIT_S = 400


@dataclasses.dataclass
class Family:
    func: Callable
    quick: int
    thorough: int
    cpu_s: int = CPU_LIMIT_S


class Violation(Exception):
    """The observed execution refutes the property."""

    def __init__(self, key: str, msg: str, detail: Any = None):
        super().__init__(f"{key}: {msg}")
        self.key = key
        self.msg = msg
        self.detail = detail


class Stop(Exception):
    """Case ended early after a recorded violation."""


class NoProgress(BaseException):
    """CPU-time budget of a single case exhausted."""


class WallTimeout(BaseException):
    pass


def _short(obj: Any, limit: int = 600) -> str:
    txt = obj if isinstance(obj, str) else repr(obj)
    return txt if len(txt) <= limit else txt[: limit - 3] + "..."


class Ctx:
    """One workload case: randomness, scratch space, event counters, verdict."""

    def __init__(self, prop: str, family: str, index: int, seed: int, tier: str, scratch: Path):
        self.prop = prop
        self.family = family
        self.index = index
        self.seed = seed
        self.tier = tier
        self.rng = random.Random(f"{seed}/{prop}/{family}/{index}")
        self.dir = scratch
        self.counts: Counter = Counter()
        self.sigs: set = set()
        self.samples: list = []
        self.violations: list[dict] = []

    # --- randomness helpers -------------------------------------------------
    def np_rng(self):
        import numpy as np

        return np.random.default_rng(self.rng.getrandbits(63))

    # --- observation bookkeeping --------------------------------------------
    def count(self, name: str, n: int = 1) -> None:
        self.counts[name] += int(n)

    def seen(self, *sig: Any) -> None:
        """Register the signature of a distinct, non-trivial observation."""
        self.sigs.add(hashlib.blake2b(repr(sig).encode(), digest_size=8).hexdigest())

    def sample(self, obj: Any) -> None:
        if len(self.samples) < 2:
            self.samples.append(_short(obj))

    # --- verdicts -----------------------------------------------------------
    def fail(self, key: str, msg: str, detail: Any = None, *, stop: bool = True) -> None:
        self.violations.append({"key": key, "msg": _short(msg, 1500), "detail": _short(detail, 3000)})
        if stop or len(self.violations) > 20:
            raise Stop

    def check(self, cond: Any, key: str, msg: Any = "", detail: Any = None, *, stop: bool = True) -> bool:
        self.counts["assertions"] += 1
        if not cond:
            self.fail(key, msg() if callable(msg) else msg, detail, stop=stop)
            return False
        return True

    def eq(self, got: Any, want: Any, key: str, what: str = "", *, stop: bool = True) -> bool:
        self.counts["assertions"] += 1
        if got != want:
            self.fail(key, f"{what}: observed {_short(got)} expected {_short(want)}", stop=stop)
            return False
        return True

    def rejects(self, fn: Callable, key: str, msg: str, exc: tuple = (Exception,)) -> None:
        """fn must raise one of exc (an unexpected type propagates)."""
        self.counts["assertions"] += 1
        try:
            res = fn()
        except exc:
            self.counts["rejections"] += 1
            return
        self.fail(key, f"{msg} -- was accepted, returned {_short(res)}")


def _repo_frames(tb) -> list[str]:
    out = []
    for fr in traceback.extract_tb(tb):
        fn = os.path.abspath(fr.filename)
        if fn.startswith(str(REPO)) and "site-packages" not in fn:
            out.append(f"{Path(fn).relative_to(REPO)}:{fr.name}")
    return out


def _is_result_shape(e: BaseException) -> bool:
    """True when the oracle stumbled over a returned value (missing key, None, wrong type).

    Missing modules, classes or private names stay harness errors: there the
    monitor lost its hook, which says nothing about the behaviour.
    """
    if isinstance(e, AttributeError):
        obj, name = getattr(e, "obj", None), getattr(e, "name", "") or ""
        return not (isinstance(obj, (types.ModuleType, type)) or name.startswith("_"))
    return isinstance(e, (LookupError, TypeError, ValueError, ArithmeticError, AssertionError))


def _run_case(check, family: str, index: int, seed: int, tier: str, base: Path) -> dict:
    fam: Family = check.FAMILIES[family]
    scratch = Path(tempfile.mkdtemp(prefix=f"{family}-{index}-", dir=base))
    ctx = Ctx(check.PROPERTY, family, index, seed, tier, scratch)
    harness_error = None
    inconclusive = None
    t0 = time.time()

    def on_cpu(_s, _f):
        raise NoProgress

    def on_wall(_s, _f):
        raise WallTimeout

    signal.signal(signal.SIGVTALRM, on_cpu)
    signal.signal(signal.SIGALRM, on_wall)
    signal.setitimer(signal.ITIMER_VIRTUAL, fam.cpu_s, 5)
    signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT_S, 5)
    cwd = os.getcwd()
    try:
        os.chdir(scratch)
        fam.func(ctx)
    except Stop:
        pass
    except Violation as v:
        ctx.violations.append({"key": v.key, "msg": _short(v.msg, 1500), "detail": _short(v.detail, 3000)})
    except NoProgress:
        ctx.violations.append(
            {"key": "no-progress", "msg": f"case did not finish within {fam.cpu_s} s of CPU time", "detail": ""}
        )
    except WallTimeout:
        inconclusive = f"wall-clock watchdog in {family}:{index}"
    except MemoryError as e:
        ctx.violations.append({"key": "memory", "msg": f"memory exhausted: {e}", "detail": ""})
    except (Exception, SystemExit) as e:  # noqa: BLE001
        frames = _repo_frames(e.__traceback__)
        txt = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-12:])
        if frames:
            ctx.violations.append(
                {
                    "key": f"unexpected-exception:{type(e).__name__}",
                    "msg": f"{type(e).__name__}: {_short(str(e), 300)} raised from {frames[-1]} "
                    "for an input the property covers",
                    "detail": _short(txt, 3000),
                }
            )
        elif _is_result_shape(e):
            # the code under test returned something the oracle could not even read
            ctx.violations.append(
                {
                    "key": f"unexpected-result:{type(e).__name__}",
                    "msg": f"result of the code under test has an unexpected shape: {type(e).__name__}: {_short(str(e), 300)}",
                    "detail": _short(txt, 3000),
                }
            )
        else:
            harness_error = txt
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    return {
        "family": family,
        "index": index,
        "counts": dict(ctx.counts),
        "sigs": list(ctx.sigs),
        "samples": ctx.samples,
        "violations": ctx.violations,
        "harness_error": harness_error,
        "inconclusive": inconclusive,
        "t": time.time() - t0,
    }


def _worker(jobs, results, check, seed, tier, base):
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VERIF_VERBOSE"):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    import logging

    logging.disable(logging.CRITICAL) if getattr(check, "SILENCE_LOGS", True) else None
    while True:
        try:
            job = jobs.get()
            if job is None:
                break
            results.put(_run_case(check, job[0], job[1], seed, tier, base))
        except BaseException:  # noqa: BLE001
            results.put(
                {"family": "?", "index": -1, "counts": {}, "sigs": [], "samples": [], "violations": [],
                 "harness_error": traceback.format_exc(), "inconclusive": None, "t": 0}
            )
    results.put(None)


def load_known() -> list[dict]:
    """known_findings.txt: 'known: property=<id> key=<mechanism> <text>' / 'fixed: ...'."""
    out = []
    path = VERIF / "known_findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith("known:"):
                parts = line.split(None, 3)
                kv = dict(p.split("=", 1) for p in parts[1:3])
                out.append({"property": kv["property"], "key": kv["key"], "text": parts[3]})
    return out


def run_check(check, tier: str, seed: int, only: str | None = None, n_workers: int | None = None) -> int:
    t_start = time.time()
    prop = check.PROPERTY
    jobs: list[tuple[str, int]] = []
    if only:
        fam, _, idx = only.partition(":")
        jobs = [(fam, int(idx))] if idx else [(fam, i) for i in range(getattr(check.FAMILIES[fam], tier))]
    else:
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        for name, fam in check.FAMILIES.items():
            n = fam.quick if tier == "quick" else fam.thorough
            jobs += [(name, i) for i in range(max(1, int(n * scale)))]
        # interleave the families (deterministic order, good load balance)
        jobs.sort(key=lambda j: zlib.crc32(f"{j[0]}{j[1]}".encode()))
    workers = n_workers or min(int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4)), max(1, len(jobs)))
    base = Path(os.environ["VERIF_SCRATCH"])
    results = []
    dead = 0
    fail_fast = bool(os.environ.get("VERIF_FAILFAST"))  # for mutation sweeps only
    known_keys = {k["key"] for k in load_known() if k["property"] == prop}
    if workers == 1 or only:
        if getattr(check, "SILENCE_LOGS", True):
            import logging
            logging.disable(logging.CRITICAL)
        results = [_run_case(check, f, i, seed, tier, base) for f, i in jobs]
    else:
        mpx = mp.get_context("fork")
        q_in, q_out = mpx.Queue(), mpx.Queue()
        for j in jobs:
            q_in.put(j)
        for _ in range(workers):
            q_in.put(None)
        procs = [
            mpx.Process(target=_worker, args=(q_in, q_out, check, seed, tier, base), daemon=False)
            for _ in range(workers)
        ]
        for p in procs:
            p.start()
        done = 0
        import queue as _q

        budget = float(os.environ.get("VERIF_WALL", "840" if tier == "quick" else "7200"))
        while done < workers:
            try:
                r = q_out.get(timeout=2)
            except _q.Empty:
                if time.time() - t_start > budget:
                    dead = 1
                    break
                # a worker which vanished (OOM, segfault) never sends its end mark
                if not any(p.is_alive() for p in procs) and q_out.empty():
                    dead = workers - done
                    break
                continue
            if r is None:
                done += 1
            else:
                results.append(r)
                if fail_fast and any(v["key"] not in known_keys for v in r["violations"]):
                    for p in procs:
                        p.kill()
                    break
        for p in procs:
            if p.is_alive():
                p.join(timeout=1)
            if p.is_alive():
                p.kill()
                p.join()

    counts: Counter = Counter()
    sigs: set = set()
    samples: list = []
    violations: list = []
    harness_errors = []
    inconclusive = []
    per_family: Counter = Counter()
    for r in sorted(results, key=lambda r: (r["family"], r["index"])):
        per_family[r["family"]] += 1
        counts.update(r["counts"])
        sigs |= {(r["family"], s) for s in r["sigs"]}
        if r["samples"] and sum(1 for s in samples if s["family"] == r["family"]) < 2:
            samples.append({"family": r["family"], "index": r["index"], "case": r["samples"][0]})
        for v in r["violations"]:
            violations.append({**v, "family": r["family"], "index": r["index"]})
        if r["harness_error"]:
            harness_errors.append(r["harness_error"])
        if r["inconclusive"]:
            inconclusive.append(r["inconclusive"])
    if dead:
        inconclusive.append(f"{dead} worker(s) ended without finishing their cases")
    if not only:
        scale_req = 1 if float(os.environ.get("VERIF_SCALE", "1")) >= 1 else 0
        for name, minimum in getattr(check, "REQUIRED", {}).items():
            if counts[name] < minimum * scale_req or counts[name] < 1:
                inconclusive.append(f"monitor saw only {counts[name]} x '{name}' (needs {minimum})")

    known = [k for k in load_known() if k["property"] == prop]
    new, listed = [], {}
    for v in violations:
        hit = next((k for k in known if k["key"] == v["key"]), None)
        if hit:
            listed.setdefault(hit["key"], (hit, v))
        else:
            new.append(v)
    for hit, v in listed.values():
        print(f"KNOWN-FINDING: property={prop} {hit['key']} {hit['text']} [{v['family']}:{v['index']}]")
    seen_keys = set()
    for v in new:
        if v["key"] in seen_keys:
            continue
        seen_keys.add(v["key"])
        rdir = VERIF / "replay" / prop
        rdir.mkdir(parents=True, exist_ok=True)
        rfile = rdir / f"{v['family']}-{v['index']}-s{seed}-{hashlib.md5(v['key'].encode()).hexdigest()[:6]}.json"
        rfile.write_text(
            json.dumps(
                {**v, "property": prop, "seed": seed, "tier": tier,
                 "replay_cmd": f"VERIF_SEED={seed} VERIF_TIER={tier} ./run.sh {prop} --case {v['family']}:{v['index']}"},
                indent=1,
            )
        )
        print(f"VIOLATION property={prop} replay={rfile.relative_to(VERIF)}")
        print(f"   [{v['family']}:{v['index']}] {v['key']}: {v['msg']}")
        if only and v["detail"]:
            print("   " + v["detail"].replace("\n", "\n   "))

    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(sigs),
            "rule": check.RULE,
            "samples": samples or [{"note": "no sample recorded"}],
            "cases_per_family": dict(per_family),
            "observed_events": dict(sorted(counts.items())),
            "inconclusive": inconclusive[:10],
            "known_findings_seen": sorted(listed),
        },
        "assumptions": list(getattr(check, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t_start, 2),
        "violations": len(new),
    }
    if not only:
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1))
    for h in harness_errors[:3]:
        print("HARNESS-ERROR\n" + h)
    if new:
        return 1
    if harness_errors:
        return 2
    if inconclusive:
        for i in inconclusive[:10]:
            print(f"INCONCLUSIVE property={prop} {i}")
        return 2
    slow = sorted(results, key=lambda r: -r["t"])[:2]
    print(
        f"OK property={prop} tier={tier} seed={seed} cases={len(results)} distinct={len(sigs)} "
        f"assertions={counts['assertions']} wall={evidence['wall_s']}s "
        f"slowest={[(r['family'], r['index'], round(r['t'], 1)) for r in slow]}"
    )
    return 0
