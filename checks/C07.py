"""C07: text exports reproduce the recorded data and logs faithfully."""
import re
from datetime import datetime
from datetime import timezone

import h5py
import numpy as np
from shepherd_core import Reader
from shepherd_data import Reader as DReader

from vlib import rec
from vlib.core import Family

PROPERTY = "C07"
TECHNIQUE = "round-trip monitor: exported text is parsed back and compared row by row with the stored datasets"
LEVEL_NOTE = "Every exported cell is parsed and compared with the plainly read dataset for generated group contents; format details beyond separator/columns are not judged."
RULE = ("A case generates a group (columns of several types/dimensions, 0..3000 rows, with/without gain/offset), exports it and parses the file; logs with "
        "unicode/multi-line messages; waveforms. Signature: column shapes, attributes, separator.")
REQUIRED = {"csv_rows": 2000, "log_rows": 200, "log_numbers": 50, "wf_rows": 200, "csv_files": 40, "unreadable": 5}
ASSUMPTIONS = ["csv timestamps have microsecond resolution"]


def parse_ts(txt):
    return datetime.strptime(txt.strip(), "%Y-%m-%d %H:%M:%S.%f").replace(tzinfo=timezone.utc)


def us_of(dt):
    d = dt - datetime(1970, 1, 1, tzinfo=timezone.utc)
    return (d.days * 86400 + d.seconds) * 10**6 + d.microseconds


def rand_times(rng, npr, n):
    t0 = rng.choice([0, 1_650_000_000_000_000_000, 1_700_000_000_123_456_789, 4_000_000_000 * 10**9])
    return (t0 + np.cumsum(npr.integers(0, rng.choice([10, 10**6, 10**9]), n))).astype(np.uint64)


def case_csv(ctx):
    rng, npr = ctx.rng, ctx.np_rng()
    path = ctx.dir / rng.choice(["a.h5", "x.y.h5"])
    t, v, c = rec.iv_arrays(npr, rng.choice([0, 1, 2, 500, 2000]))
    rec.raw_h5(path, t=t, v=v, c=c, gains=(1e-9, 10 ** rng.uniform(-9, -5), 10 ** rng.uniform(-12, -8)), offsets=(0, rng.choice([0.0, -0.25]), 1e-6))
    with h5py.File(path, "a") as f:
        for k in ("time", "voltage", "current"):
            f["data"][k].attrs["description"] = f"{k} [x] = value * gain + offset"
    gname = rng.choice(["ptp", "sys_util", "g1"])
    n = rng.choice([0, 1, 2, 50, 400])
    cols, gains, offs = {}, {}, {}
    for i in range(rng.randint(0, 4)):
        shape = rng.choice([(n,), (n, 1), (n, 3)])
        kind = rng.choice(["i8", "u4", "f8", "i4"])
        arr = (npr.normal(0, 1e3, shape) if kind == "f8" else npr.integers(0 if kind == "u4" else -1000, 10**6, shape)).astype(kind)
        cols[f"c{rng.choice('abcz')}{i}"] = arr
    for k in cols:
        if rng.random() < 0.4:
            gains[k] = rng.choice([1e-3, 2.0, 7.5])
        if rng.random() < 0.4:
            offs[k] = rng.choice([0.0, 1.0, -3.25])
    rec.add_table(path, gname, rand_times(rng, npr, n), cols, gains=gains, offsets=offs)
    if rng.random() < 0.4:  # the time of a group may be stored in another unit
        with h5py.File(path, "a") as f:
            tg = rng.choice([1e-9, 1e-6, 1e-3])
            f[gname]["time"][...] = (f[gname]["time"][()].astype(np.float64) * (1e-9 / tg)).round().astype(np.uint64)
            f[gname]["time"].attrs["gain"] = tg
            ctx.count("time_units")
    if rng.random() < 0.3:
        with h5py.File(path, "a") as f:
            f[gname].create_group("subgroup").create_dataset("time", data=[1, 2])
    sep = rng.choice([";", ",", "; ", " | ", "\t", "  ;"])
    for grp in ("data", gname):
        raw = rng.random() < 0.4
        with DReader(path, verbose=False) as r:
            ret = r.save_csv(r[grp], sep, raw=raw)
            ret2 = r.save_csv(r[grp], sep, raw=raw)
        with h5py.File(path, "r") as f:
            g = f[grp]
            names = [k for k in g if isinstance(g[k], h5py.Dataset) and k != "time"]
            data = {k: g[k][()] for k in names}
            times = g["time"][()]
            per_ns = round(g["time"].attrs.get("gain", 1e-9) * 1e9)
            attrs = {k: dict(g[k].attrs) for k in names}
            desc = {k: g[k].attrs["description"] for k in names}
        out = path.with_suffix(f".{grp}.csv")
        if len(times) == 0:
            ctx.check(not out.exists() and ret == 0, "empty-export", f"empty group {grp}: returned {ret}, file exists: {out.exists()}")
            ctx.count("empty_groups")
            continue
        ctx.eq(ret, len(times), "entry-count", f"returned number of entries of {grp}")
        ctx.eq(ret2, 0, "second-export", "existing export is skipped")
        lines = out.read_text(encoding="utf-8-sig").split("\n")
        ctx.eq(lines[-1], "", "trailing", "file ends with a newline")
        s = sep.strip(" ")
        cells_n = 1 + sum(1 if data[k].ndim == 1 else data[k].shape[1] for k in names)
        head = [x.strip() for x in lines[0].split(s)]
        # one header cell per column, built from the descriptions
        want_head = [None] + [p.strip() for k in names for p in str(desc[k]).split(", ")]
        ctx.eq(len(head), len(want_head), "header-columns", f"header {lines[0]!r} with separator {sep!r}")
        ctx.eq(head[1:], want_head[1:], "header", f"header {lines[0]!r}")
        rows = lines[1:-1]
        ctx.eq(len(rows), len(times), "row-count", f"rows in {out.name}")
        for i, row in enumerate(rows):
            cells = row.split(s)
            ctx.eq(len(cells), cells_n, "column-count", f"row {i}: {row!r}")
            ctx.check(abs(us_of(parse_ts(cells[0])) * 1000 - int(times[i]) * per_ns) <= 1500, "timestamp",
                      f"{grp} row {i}: {cells[0]!r} for {int(times[i]) * per_ns} ns")
            pos = 1
            for k in names:
                want = np.atleast_1d(data[k][i])
                gain, off = attrs[k].get("gain", 1.0), attrs[k].get("offset", 0.0)
                if not raw:
                    want = want * gain + off
                for x in want:
                    got = float(cells[pos])
                    ctx.check(abs(got - float(x)) <= 1e-9 * abs(float(x)) + 1e-15, "value",
                              f"{grp}/{k} row {i}: exported {cells[pos]!r}, stored {x!r} (gain={attrs[k].get('gain')}, offset={attrs[k].get('offset')}, raw={raw})")
                    if raw and data[k].dtype.kind in "iu":
                        ctx.eq(int(cells[pos]), int(x), "raw-value", f"{grp}/{k} row {i}")
                    pos += 1
            ctx.count("csv_rows")
        ctx.count("csv_files")
        ctx.seen(grp == "data", sep, raw, tuple(sorted((data[k].ndim, data[k].dtype.kind, "gain" in attrs[k], "offset" in attrs[k]) for k in names)), min(len(times), 3))
    ctx.sample({"separator": sep, "columns": {k: (v.shape, str(v.dtype)) for k, v in cols.items()}, "gains": gains, "offsets": offs})


MSGS = ["ok", "", "with, comma; semicolon", "tab\tinside", "quote's \"x\"", "ünïcode ☃", "line\nbreak", "b'bytes'", " lead", "0"]


def case_log(ctx):
    rng, npr = ctx.rng, ctx.np_rng()
    path = ctx.dir / "l.h5"
    t, v, c = rec.iv_arrays(npr, 10)
    rec.raw_h5(path, t=t, v=v, c=c)
    n = rng.choice([0, 1, 2, 30])
    msgs = [rng.choice(MSGS) + (f" #{i}" if rng.random() < 0.7 else "") for i in range(n)]
    levels = npr.choice([0, 10, 20, 30, 40, 50], n) if rng.random() < 0.6 else None
    times = rand_times(rng, npr, n)
    grp = rng.choice(["sheep", "kernel", "uart"])
    rec.add_log(path, grp, times, msgs, levels)
    values = None
    if rng.random() < 0.4:  # numbers beside the text, possibly several per entry
        values = npr.integers(-500, 10**6, rng.choice([(n,), (n, 1), (n, 2), (n, 3)]))
        with h5py.File(path, "a") as f:
            f[grp].create_dataset("values", data=values)
    sub = rng.random() < 0.3
    if sub:
        with h5py.File(path, "a") as f:
            f[grp].create_group(rng.choice(["aaa", "zzz"]))
    ts = rng.random() < 0.7
    with DReader(path, verbose=False) as r:
        ret = r.save_log(r[grp], add_timestamp=ts) if not (ts and rng.random() < 0.5) else r.save_log(r[grp])
    out = path.with_suffix(f".{grp}.log")
    if n == 0:
        ctx.check(ret == 0 and not out.exists(), "empty-export", "empty log")
        return
    ctx.eq(ret, n, "entry-count", "returned number of log entries")
    text = out.read_text(encoding="utf-8-sig")
    pos = 0
    for i in range(n):
        # accepted renderings of a message: the text itself or its bytes literal
        if ts:
            stamp, sep, _ = text[pos:].partition(":\t")
            ctx.check(sep, "log-timestamp", f"entry {i} has no timestamp: {text[pos:pos + 60]!r}")
            ctx.check(abs(us_of(parse_ts(stamp)) * 1000 - int(times[i])) <= 1500, "timestamp", f"entry {i}: {stamp!r} for {int(times[i])} ns")
            pos += len(stamp) + 1
        cells = []
        if levels is not None:
            cells.append([str(int(levels[i]))])
        cells.append([msgs[i], str(msgs[i].encode("utf-8"))])
        for opts in cells:
            ctx.eq(text[pos:pos + 1], "\t", "log-column", f"entry {i} near {text[max(0, pos - 30):pos + 30]!r}")
            pos += 1
            hit = [o for o in sorted(opts, key=len, reverse=True) if text.startswith(o + "\t", pos) or text.startswith(o + "\n", pos)]
            ctx.check(hit, "log-value", f"entry {i}: found {text[pos:pos + 80]!r}, stored {opts[0]!r}")
            pos += len(hit[0])
        if values is not None:
            cell, _, _ = text[pos:].partition("\n")
            ctx.eq(cell[:1], "\t", "log-column", f"entry {i}, numbers: {cell!r}")
            ctx.eq([int(x) for x in re.findall(r"-?\d+", cell)], [int(x) for x in np.atleast_1d(values[i])], "log-numbers", f"entry {i}: {cell!r}")
            pos += len(cell)
            ctx.count("log_numbers")
        ctx.eq(text[pos:pos + 1], "\n", "log-line", f"entry {i} is not terminated: {text[pos:pos + 40]!r}")
        pos += 1
        ctx.count("log_rows")
    ctx.eq(text[pos:], "", "log-extra", "content behind the last entry")
    ctx.seen(n, levels is not None, ts, sub, grp, values is not None and values.shape[1:])


def case_damage(ctx):
    """one unreadable message does not cost the others"""
    rng, npr = ctx.rng, ctx.np_rng()
    path = ctx.dir / "f.h5"
    t, v, c = rec.iv_arrays(npr, 10)
    rec.raw_h5(path, t=t, v=v, c=c)
    n = rng.choice([3, 8, 20])
    msgs = [f"#{i} " + rng.choice("abcdef") * rng.randint(4500, 6000) for i in range(n)]
    times = rand_times(rng, npr, n)
    rec.add_log(path, "sheep", times, [""] * n, npr.choice([10, 40], n) if rng.random() < 0.5 else None)
    for i, m in enumerate(msgs):
        with h5py.File(path, "a") as f:
            f["sheep/message"][i] = m
    raw = bytearray(path.read_bytes())
    bad = rng.randrange(n)
    pos = raw.find(msgs[bad].encode())
    heap = raw.rfind(b"GCOL", 0, pos)
    raw[heap:heap + 4] = b"\0\0\0\0"
    path.write_bytes(raw)
    with h5py.File(path) as f:
        gone = set()
        for i in range(n):
            try:
                f["sheep/message"][i]
            except OSError:
                gone.add(i)
    if gone != {bad}:
        return
    ctx.count("unreadable")
    with DReader(path, verbose=False) as r:
        ret = r.save_log(r["sheep"])
    ctx.eq(ret, n, "entry-count", "returned number of log entries")
    text = path.with_suffix(".sheep.log").read_text(encoding="utf-8-sig")
    ctx.eq(text.count("\n"), n, "entry-count", "lines of log with an unreadable message")
    for i, line in enumerate(text.split("\n")[:n]):
        stamp, _, rest = line.partition(":\t")
        ctx.check(abs(us_of(parse_ts(stamp)) * 1000 - int(times[i])) <= 1500, "timestamp", f"entry {i}: {stamp!r} for {int(times[i])} ns")
        ctx.check((msgs[i] in rest) == (i != bad), "log-value", f"entry {i} (entry {bad} is unreadable): {rest[:60]!r}")
    ctx.seen("damage", n, bad)


def case_wf(ctx):
    rng, npr = ctx.rng, ctx.np_rng()
    path = ctx.dir / "w.h5"
    t, v, c = rec.iv_arrays(npr, 10)
    rec.raw_h5(path, t=t, v=v, c=c)
    n = rng.choice([1, 2, 40])
    rec.add_gpio(path, 1_650_000_000_000_000_000 + np.cumsum(npr.integers(1, 10**8, n)), npr.integers(0, 4, n), {0: "io0", 1: "io1"})
    sep = rng.choice([",", ";", "\t", " ; "])
    cls = rng.choice([Reader, DReader])
    with cls(path, verbose=False) as r:
        wfs = r.gpio_to_waveforms()
        for name, wf in wfs.items():
            (r.waveform_to_csv(name, wf, sep) if sep != "," or rng.random() < 0.5 else r.waveform_to_csv(name, wf))
    for name, wf in wfs.items():
        lines = path.with_suffix(f".waveform.{name}.csv").read_text().split("\n")
        head = lines[0].split(sep)
        ctx.eq(len(head), 2, "header-columns", f"waveform header {lines[0]!r}")
        ctx.eq(head[1].strip(), name, "header", "pin name")
        ctx.eq(len(lines) - 2, len(wf), "row-count", "waveform rows")
        for row, line in zip(wf, lines[1:]):
            a, b = line.split(sep)
            ctx.check(abs(float(a) * 1e9 - int(row[0])) <= 1000, "timestamp", f"{line!r} for {row}")
            ctx.eq(int(b), int(row[1]), "value", f"{line!r}")
            ctx.count("wf_rows")
    ctx.seen("wf", n, sep)


FAMILIES = {
    "csv": Family(case_csv, quick=180, thorough=12000),
    "log": Family(case_log, quick=180, thorough=12000),
    "damage": Family(case_damage, quick=20, thorough=600),
    "wf": Family(case_wf, quick=90, thorough=2400),
}
