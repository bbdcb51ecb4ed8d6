"""C05: the validity and time checks accept sound files and flag damaged ones."""
import h5py
import logging
import re

import numpy as np
from shepherd_core import CalibrationSeries
from shepherd_core import Reader
from shepherd_core import Writer
from shepherd_data import Reader as DReader

from vlib import rec
from vlib.core import Family

PROPERTY = "C05"
TECHNIQUE = "fault injection into recordings; verdicts of the library compared with the injected ground truth"
LEVEL_NOTE = "Verdicts are compared with the known ground truth of generated intact/damaged files, incl. all single hard faults and jumps at all buffer positions."
RULE = ("A case injects a random set of hard/soft structural faults, or time jumps at random buffer positions under a random analysis block length, "
        "or a generated log. Signature: fault set / jump position class / log shape.")
REQUIRED = {"damaged_files": 60, "sound_files": 30, "jumps": 60, "gapfree": 30, "log_counts": 30, "log_printed": 30}

HARD = ["no_data", "no_time", "no_current", "no_voltage", "no_mode", "bad_mode", "no_window", "no_datatype", "bad_datatype", "curve_without_window", "curve_negative_window", "misplaced_mode", "misplaced_datatype", "misplaced_window",
        "emulator_curve", "emulator_isc", *[f"no_{a}_{d}" for a in ("gain", "offset") for d in ("time", "current", "voltage")]]
SOFT = ["no_host", "unaligned", "shorter_current", "longer_time", "gzip9", "uncompressed", "window_for_samples", "log_errors", "extra", "empty", "one"]


def build(ctx, path, hard, soft):
    rng, npr = ctx.rng, ctx.np_rng()
    n = 20_000
    if "unaligned" in soft:
        n = rng.choice([19_999, 12_345, 20_001])
    if "one" in soft:
        n = 1
    if "empty" in soft:
        n = 0
    t, v, c = rec.iv_arrays(npr, n)
    mode, dt = rng.choice([("harvester", "ivsample"), ("harvester", "ivcurve"), ("harvester", "isc_voc"), ("emulator", "ivsample")])
    window = 100 if dt == "ivcurve" else 0
    comp = None if "uncompressed" in soft else "lzf"
    if "shorter_current" in soft and n > 5:
        c = c[:-3]
    if "longer_time" in soft:
        t = np.concatenate([t, t[-1:] + np.uint64(10_000)]) if n else t
    if "window_for_samples" in soft and dt != "ivcurve":
        window = 17
    if "bad_mode" in hard:
        mode = rng.choice(["hrv", "", "HARVESTER", "emulation"])
    if "bad_datatype" in hard:
        dt = rng.choice(["iv", "IVSAMPLE", "isc-voc", ""])
    if "curve_without_window" in hard:
        mode, dt, window = "harvester", "ivcurve", 0
    if "curve_negative_window" in hard:
        mode, dt, window = "harvester", "ivcurve", -rng.choice([1, 2, 100, 10**6])
    if "emulator_curve" in hard:
        mode, dt, window = "emulator", "ivcurve", 50
    if "emulator_isc" in hard:
        mode, dt, window = "emulator", "isc_voc", 0
    rec.raw_h5(path, t=t, v=v, c=c, mode=mode, datatype=dt, window=window, compression=comp, hostname=None if "no_host" in soft else "h")
    with h5py.File(path, "a") as f:
        if "gzip9" in soft and n:
            d = f["data"]["voltage"]
            arr, at = d[()], dict(d.attrs)
            del f["data"]["voltage"]
            d = f["data"].create_dataset("voltage", data=arr, compression="gzip", compression_opts=9, chunks=True, maxshape=(None,))
            for k, x in at.items():
                d.attrs[k] = x
        if "extra" in soft:
            g = f.create_group("unknown")
            g.create_dataset("time", data=np.arange(5))
            f["data"].create_dataset("temperature", data=np.arange(3))
        for h in hard:
            if h == "no_mode" and "mode" in f.attrs:
                del f.attrs["mode"]
            elif h == "no_window" and "window_samples" in f["data"].attrs:
                del f["data"].attrs["window_samples"]
            elif h == "no_datatype" and "datatype" in f["data"].attrs:
                del f["data"].attrs["datatype"]
            elif h == "misplaced_mode" and "mode" in f.attrs:
                f["data"].attrs["mode"] = f.attrs["mode"]
                del f.attrs["mode"]
            elif h in ("misplaced_datatype", "misplaced_window"):
                a = {"misplaced_datatype": "datatype", "misplaced_window": "window_samples"}[h]
                if a in f["data"].attrs:
                    f.attrs[a] = f["data"].attrs[a]
                    del f["data"].attrs[a]
            elif h.startswith(("no_gain", "no_offset")):
                _, a, d = h.split("_")
                del f["data"][d].attrs[a]
        for h in hard:
            if h in ("no_time", "no_current", "no_voltage"):
                del f["data"][h[3:]]
        if "no_data" in hard:
            del f["data"]
    if "log_errors" in soft:
        rec.add_log(path, "sheep", [1, 2], ["e", "f"], [50, 40])


def verdict(cls, path):
    try:
        with cls(path, verbose=False) as r:
            res = r.is_valid()
            return res if isinstance(res, (bool, np.bool_)) else ("not-bool", res)
    except (KeyError, TypeError, ValueError, OSError, AttributeError) as e:
        return ("refused", type(e).__name__)


def case_structure(ctx):
    rng = ctx.rng
    i = ctx.index
    soft = [s for s in SOFT if rng.random() < 0.2]
    if i < len(HARD):
        hard, soft = [HARD[i]], (soft if rng.random() < 0.5 else [])
    elif i < len(HARD) + len(SOFT):
        hard, soft = [], [SOFT[i - len(HARD)]]
    else:
        hard = rng.sample(HARD, rng.choice([0, 0, 1, 1, 2, 3]))
    if any(h.startswith(("no_gain", "no_offset")) for h in hard):  # the dataset itself has to exist
        hard = [h for h in hard if h not in ("no_time", "no_current", "no_voltage", "no_data")]
    path = ctx.dir / "f.h5"
    build(ctx, path, hard, soft)
    for cls in (Reader, DReader):
        got = verdict(cls, path)
        if hard:
            ctx.check(got is not True and (got is False or got[0] == "refused"), "damage-missed", f"judged {got} despite {hard} (and {soft})")
            if not set(hard) & {"no_data", "no_time", "no_current", "no_voltage"}:
                ctx.eq(got, False, "no-verdict", f"file with {hard} {soft}")
            ctx.count("damaged_files")
        else:
            ctx.eq(got, True, "sound-file-rejected", f"file with soft deviations {soft}")
            ctx.count("sound_files")
    ctx.seen(tuple(sorted(hard)), tuple(sorted(soft)))
    ctx.sample({"hard": hard, "soft": soft})


def case_own_files(ctx):
    """Everything the library records is valid."""
    rng, npr = ctx.rng, ctx.np_rng()
    mode, dt = rng.choice([("harvester", "ivsample"), ("harvester", "ivcurve"), ("harvester", "isc_voc"), ("emulator", "ivsample"), (None, None)])
    n = rng.choice([0, 1, 10_000, 25_000, 70_000])
    path = ctx.dir / "w.h5"
    with Writer(path, mode=mode, datatype=dt, window_samples=10 if dt == "ivcurve" else None, verbose=False,
                compression=rng.choice(["lzf", "1", None]), cal_data=rng.choice([None, CalibrationSeries()])) as w:
        if n:
            w.append_iv_data_raw(*rec.iv_arrays(npr, n))
        ctx.eq(w.is_valid(), True, "sound-file-rejected", "inside session")
        ctx.eq(w.check_timediffs(), True, "gapfree-flagged", f"inside session with {n} samples")
    for cls in (Reader, DReader):
        with cls(path, verbose=False) as r:
            ctx.eq(r.is_valid(), True, "sound-file-rejected", f"{mode}/{dt} with {n} samples")
            ctx.eq(r.check_timediffs(), True, "gapfree-flagged", f"{mode}/{dt} with {n} samples")
    ctx.count("sound_files")
    ctx.count("gapfree")
    ctx.seen("own", mode, dt, n)


def case_time(ctx):
    rng, npr = ctx.rng, ctx.np_rng()
    n_buf = rng.choice([1, 2, 3, 5, 8, 13, 30])
    n = n_buf * rec.BUF + rng.choice([0, 0, 0, 1, 777])
    t0 = rng.choice([1_650_000_000_000_000_000, 0, 2**62])
    t = (np.uint64(t0) + np.arange(n, dtype=np.uint64) * np.uint64(10_000)).astype(np.int64)
    jumps = []
    n_starts = -(-n // rec.BUF)
    if n_starts > 1 and rng.random() < 0.7:
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            b = rng.randint(1, n_starts - 1)
            size = int(rng.choice([6_000_000, 10_000_000, 10**8, 3 * 10**9, 10**12]) * rng.uniform(1, 1.5))
            if rng.random() < 0.3 and t0 > 10**13:
                size = -size
            where = b * rec.BUF - rng.choice([0, 0, 1, 5000, 9_999])
            t[where:] += size
            jumps.append((b, size))
    elif rng.random() < 0.5:  # clock drift far below the sample interval is no jump
        t = t + np.cumsum(npr.integers(-1, 2, n))
        t = np.abs(t)
    d = np.diff(t[:: rec.BUF])
    bad = bool(np.any(np.abs(d - 100_000_000) >= 5_900_000))
    if not bad and jumps:
        return  # several jumps cancelled each other
    n_v = rng.choice([n, n])
    v = np.zeros(n_v, np.uint32)
    path = rec.raw_h5(ctx.dir / "t.h5", t=t.astype(np.uint64), v=v, c=v, offsets=(rng.choice([0.0, 0.0, 5.5]), 0.0, 0.0),
                      compression=rng.choice(["lzf", None]))
    for cls in (Reader, DReader):
        with cls(path, verbose=False) as r:
            for me in (None, 10_000, rng.choice([20_000, 30_000, 50_000]), rng.choice([1, 9_999, 10_001, 25_000, 33_333, 4_000_000])):
                if me is not None:
                    r.max_elements = me
                got = r.check_timediffs()
                if bad:
                    ctx.eq(bool(got), False, "jump-missed", f"jumps (buffer, ns) {jumps} of {n_starts} buffers, analysis block {r.max_elements}")
                    ctx.count("jumps")
                else:
                    ctx.eq(bool(got), True, "gapfree-flagged", f"{n} samples, analysis block {r.max_elements}")
                    ctx.count("gapfree")
            ctx.check(r.is_valid(), "sound-file-rejected", "time jumps are not structural damage")
    ctx.seen(n_buf, n % rec.BUF, tuple((b, size > 0, len(str(abs(size)))) for b, size in jumps))


class Printed:
    """collects the numbered messages that get printed"""

    def __enter__(self):
        self.items = []
        me = self
        self.handle, self.disabled = logging.Logger.handle, logging.root.manager.disable
        self.levels = {n: q.level for n, q in logging.root.manager.loggerDict.items() if n.startswith("SHP") and isinstance(q, logging.Logger)}

        def handle(_self, record):
            m = re.search(r"(?<!\w)m(\d+)(?!\w)", record.getMessage())
            if m:
                me.items.append((int(m[1]), record.levelno))

        logging.Logger.handle = handle
        logging.disable(logging.NOTSET)
        for n in self.levels:
            logging.getLogger(n).setLevel(logging.INFO)
        return self

    def __exit__(self, *a):
        logging.Logger.handle = self.handle
        logging.disable(self.disabled)
        for n, q in self.levels.items():
            logging.getLogger(n).setLevel(q)


def case_log(ctx):
    rng, npr = ctx.rng, ctx.np_rng()
    path = ctx.dir / "l.h5"
    t, v, c = rec.iv_arrays(npr, 10_000)
    rec.raw_h5(path, t=t, v=v, c=c)
    logs = {}
    for g in rng.sample(["sheep", "kernel", "other"], rng.randint(0, 3)):
        n = rng.choice([0, 1, 5, 200, 200, 1100, 5000])
        lv = npr.choice([0, 10, 20, 29, 30, 31, 39, 40, 41, 50, 255], n)
        has_level = rng.random() < 0.8
        rec.add_log(path, g, np.arange(n) + int(t[0]), [f"m{i}" for i in range(n)], lv if has_level else None)
        logs[g] = lv if has_level else np.zeros(0)
    for cls in (Reader, DReader):
        with cls(path, verbose=False) as r:
            for g in ("sheep", "kernel", "other", "nope"):
                for lim in (0, 10, 30, 40, 41, 50, 256):
                    want = int(np.sum(np.asarray(logs.get(g, [])) >= lim))
                    ctx.eq(int(r.count_errors_in_log(g, lim)), want, "log-count", f"group {g} level>={lim}")
                    if cls is DReader:
                        show, most = rng.random() < 0.5, rng.choice([None, None, 1, 3, 40])
                        with Printed() as out:
                            ctx.eq(int(r.warn_logs(g, lim, show=show, **({} if most is None else {"limit": most}))), want, "log-count", f"warn_logs group {g} level>={lim}")
                        lv = np.asarray(logs.get(g, []))
                        expect = [(int(i), int(lv[i])) for i in np.flatnonzero(lv >= lim)[: (most or 10) if show else 0]]
                        ctx.eq([i for i, _ in out.items], [i for i, _ in expect], "log-print", f"printed messages of {g} level>={lim} limit={most} show={show}")
                        ctx.check(all((a >= 40) == (b >= logging.ERROR) and (a >= 30) == (b >= logging.WARNING) for (_, a), (_, b) in zip(expect, out.items)), "log-print", f"severities {expect} {out.items}")
                        ctx.count("log_printed", len(expect))
                    ctx.count("log_counts")
            ctx.eq(int(r.count_errors_in_log()), int(np.sum(np.asarray(logs.get("sheep", [])) >= 40)), "log-count", "defaults")
            ctx.check(r.is_valid(), "sound-file-rejected", "logged errors are not structural damage")
    ctx.seen(tuple(sorted((g, len(x)) for g, x in logs.items())))


FAMILIES = {
    "structure": Family(case_structure, quick=720, thorough=20000),
    "own": Family(case_own_files, quick=128, thorough=2000),
    "time": Family(case_time, quick=480, thorough=15000),
    "log": Family(case_log, quick=128, thorough=2000),
}
