"""C26: command line batches treat every recording as if it were given alone."""
from __future__ import annotations

import os
import shutil
import subprocess
import sys
from datetime import datetime
from pathlib import Path

import h5py
import numpy as np

from checks.C10 import rand_chars
from checks.C10 import transmit
from vlib.core import Ctx
from vlib.core import Family
from vlib.core import REPO
from vlib.rec import add_gpio
from vlib.rec import add_log
from vlib.rec import add_table
from vlib.rec import dir_state
from vlib.rec import file_hash
from vlib.rec import h5_tree
from vlib.rec import iv_arrays
from vlib.rec import raw_h5
from vlib.rec import rich_h5

PROPERTY = "C26"
TECHNIQUE = "runtime monitoring of command runs: batch directories against solo runs, library calls, an own verdict per file and preserved sources"
LEVEL_NOTE = "Random directories with sound, short, invalid, damaged, unreadable and foreign files go through every command; outputs per file, exit codes and untouched sources are compared with runs on single files and direct library calls."
RULE = ("A case runs one command with random options on one generated directory or file. Signature: command, options, kinds of files in the batch, file count, recursion.")
REQUIRED = {"batches": 60, "batch_files": 300, "damaged_files": 90, "foreign_files": 60, "outputs_compared": 150, "verdicts": 120, "verdict_good": 20, "verdict_bad": 40, "library_calls": 60,
            "nested": 20, "multiplots": 12, "reruns": 30, "rates_differ": 20, "processes": 4, "uart_lines": 8, "side_tables": 150, "side_logs": 150, "raw_extracts": 4, "full_extracts": 3, "deprecated": 4}
ASSUMPTIONS = ["files that end in .h5 count as given recordings, whatever they contain", "validity of the generated files is known from how they were made"]

COMMANDS = ["validate", "extract", "extract-meta", "extract-uart", "extract-gpio", "downsample", "plot"]
# sound = readable + passes validation; invalid = readable but damaged content; broken = cannot be used at all
SOUND = ["rich", "rich", "uart", "plain", "slow"]
INVALID = ["no_mode", "bad_window", "no_gain", "time_jump", "no_data", "no_time", "no_hostname_type", "no_current"]
BROKEN = ["text", "zero", "truncated", "data_is_dataset", "random", "sheep_is_dataset", "gpio_bad_description", "header_only"]


def rich(ctx: Ctx, path: Path, n=None, **kw):
    return rich_h5(path, ctx.rng, ctx.np_rng(), n=n, **kw)


def make(ctx: Ctx, path: Path, kind: str) -> None:
    make_raw(ctx, path, kind)
    if kind in (*SOUND, "short"):
        with h5py.File(path, "a") as f:
            for name, text in (("time", "system time [s]"), ("voltage", "voltage [V]"), ("current", "current [A]")):
                f["data"][name].attrs["description"] = text
        side_channels(ctx, path)


def side_channels(ctx: Ctx, path: Path) -> None:
    """Tables and logs of current and older recorder versions."""
    rng, npr = ctx.rng, ctx.np_rng()
    t0 = 1_650_000_000_000_000_000
    with h5py.File(path, "r") as f:
        present = set(f)
    for name in ("ptp", "sys_util", "pru_util", "sysutil", "timesync"):
        if name in present or rng.random() > 0.4:
            continue
        m = rng.choice([0, 1, 2, 5])
        times = t0 + np.arange(m) * 10**9
        if name == "sys_util":
            add_table(path, name, times, {c: npr.integers(0, 100, (m, w) if w else m) for c, w in (("cpu", 0), ("ram", 2), ("io", 4))})
        else:
            add_table(path, name, times, {"values": npr.integers(-50, 50, (m, rng.choice([1, 2, 3])))})
        ctx.count("side_tables", m > 0)
    for name in ("kernel", "phc2sys", "uart", "sheep", "shepherd-log", "dmesg", "exceptions"):
        if name in present or rng.random() > 0.4:
            continue
        m = rng.choice([0, 1, 3])
        add_log(path, name, t0 + np.arange(m) * 1000, [f"{name} {i} äß" for i in range(m)], npr.choice([10, 20, 30, 40], m) if rng.random() < 0.5 else None)
        ctx.count("side_logs", m > 0)


def make_raw(ctx: Ctx, path: Path, kind: str) -> None:
    rng, npr = ctx.rng, ctx.np_rng()
    n = rng.choice([10_000, 20_000, 60_000, 130_000])
    if getattr(ctx, "cmd", "") == "extract" and (rng.random() < 0.93 or ctx.family == "library"):  # csv-export handles samples one by one
        n = min(n, 20_000)
    host = f"h{rng.randint(0, 99)}"
    if kind == "rich":
        rich(ctx, path, n, hostname=host)
    elif kind == "uart":
        t, v, c = iv_arrays(npr, n, kind="sine")
        raw_h5(path, t=t, v=v, c=c, hostname=host)
        chars = [*b"hello\n", *rand_chars(rng, rng.randint(20, 80))[1]]
        gaps = [rng.choice([0, 0, 0.5, 3]) for _ in chars]
        ev, _ = transmit(rng, chars, rng.choice([9600, 57600, 115200]), gaps=gaps, jitter=0.0, inverted=False, lead=20)
        times = np.array([int(t[0]) + round(e[0] * 1e9) for e in ev], dtype=np.uint64)
        add_gpio(path, times, [int(e[1]) << 3 for e in ev], {0: "tgt_io0", 3: "uart"})
    elif kind == "plain":
        t, v, c = iv_arrays(npr, n, kind="rand")
        raw_h5(path, t=t, v=v, c=c, hostname=host, mode=rng.choice(["harvester", "emulator"]))
    elif kind == "slow":
        t, v, c = iv_arrays(npr, n, kind="rand", dt=rng.choice([20_000, 50_000, 100_000]))
        raw_h5(path, t=t, v=v, c=c, hostname=host)
        ctx.count("rates_differ")
    elif kind == "short":
        t, v, c = iv_arrays(npr, rng.choice([0, 1, 2, 10, 400]), kind="rand")
        raw_h5(path, t=t, v=v, c=c, hostname=host)
    elif kind in ("text", "zero", "random"):
        path.write_bytes({"text": b"time,voltage\n1,2\n" * 20, "zero": b"", "random": npr.bytes(5000)}[kind])
    elif kind == "header_only":
        with h5py.File(path, "w") as f:
            f.attrs["x"] = 1
    elif kind == "truncated":
        rich(ctx, path, n)
        raw = path.read_bytes()
        path.write_bytes(raw[: int(len(raw) * rng.uniform(0.02, 0.9))])
    else:
        rich(ctx, path, n, hostname=host)
        with h5py.File(path, "a") as f:
            if kind == "no_mode":
                del f.attrs["mode"]
            elif kind == "bad_window":
                f["data"].attrs["datatype"] = "ivcurve"  # curves without length
                f.attrs["mode"] = "harvester"
            elif kind == "no_gain":
                del f["data"][rng.choice(["voltage", "current", "time"])].attrs["gain"]
            elif kind == "time_jump":
                k = rng.randint(1, n // 10_000 - 1) * 10_000 if n >= 20_000 else 0
                if k == 0:
                    del f.attrs["mode"]
                else:
                    t = f["data/time"][:]
                    t[k:] += np.uint64(3 * 10**9)
                    f["data/time"][:] = t
            elif kind == "no_data":
                del f["data"]
            elif kind == "no_time":
                del f["data/time"]
            elif kind == "no_current":
                del f["data/current"]
            elif kind == "no_hostname_type":
                f["data"].attrs["datatype"] = "foo"
            elif kind == "data_is_dataset":
                del f["data"]
                f["data"] = np.arange(5)
            elif kind == "sheep_is_dataset":
                for g in ("sheep", "ptp", "uart"):
                    if g in f:
                        del f[g]
                f["sheep"] = np.arange(3)
            elif kind == "gpio_bad_description":
                f["gpio/value"].attrs["description"] = "{[: not yaml"
            else:
                raise AssertionError(kind)


VERDICT_BAD = {*INVALID, "text", "zero", "truncated", "data_is_dataset", "random", "header_only"}


def tail(rng) -> str:
    """Recordings are often results of earlier commands."""
    return rng.choice(["", "", "", "", ".downsample_x5", ".downsample_x100", ".cut_0s000_to_0s100", ".bak", "_1", ".meta"])


def populate(ctx: Ctx, root: Path, *, total: int, nested: bool) -> dict[str, str]:
    rng = ctx.rng
    kinds: dict[str, str] = {}
    subs = ["", "", "sub", "sub/deep", "b.c"] if nested else [""]
    for k in range(total):
        r = rng.random()
        kind = (rng.choice(SOUND) if r < 0.45 else "short" if r < 0.53 else rng.choice(INVALID) if r < 0.75 else rng.choice(BROKEN))
        sub = rng.choice(subs)
        name = rng.choice(["rec", "a", "Z", "trace 1", "x.y", "ä"]) + f"_{k}{tail(rng)}.h5"
        path = root / sub / name
        path.parent.mkdir(parents=True, exist_ok=True)
        make(ctx, path, kind)
        kinds[str(path.relative_to(root))] = kind
        ctx.count("batch_files")
        ctx.count("damaged_files", kind not in (*SOUND, "short"))
    for k in range(rng.randint(0, 3)):
        sub = rng.choice(subs)
        (root / sub).mkdir(parents=True, exist_ok=True)
        what = rng.choice(["notes.txt", "rec_0.csvx", "table.hdf", "folder.h5", "x.h5.bak", ".hidden"])
        p = root / sub / what
        if p.exists():
            continue
        if what == "folder.h5":
            p.mkdir()
        elif what == "table.hdf":
            rich(ctx, p, 10_000)
        else:
            p.write_text("foreign")
        ctx.count("foreign_files")
    return kinds


def rand_options(ctx: Ctx, cmd: str) -> list[str]:
    rng = ctx.rng
    opt: list[str] = []
    if cmd in ("extract", "downsample", "plot"):
        if rng.random() < 0.4:
            opt += [rng.choice(["--start", "-s"]), str(rng.choice([0, 0.05, 0.1, 0.25, -1, 99]))]
        if rng.random() < 0.4:
            opt += [rng.choice(["--end", "-e"]), str(rng.choice([0.15, 0.2, 0.5, 0, 99]))]
    if cmd in ("extract", "downsample") and rng.random() < 0.8:
        opt += [rng.choice(["--ds-factor", "-f"]), str(rng.choice([1, 2, 4, 10, 17.0, 20, 40, 100, 0.5, -3, 1000]))]
    if cmd == "extract" and rng.random() < 0.45:
        opt += [rng.choice(["-r", "--raw"])]
    if cmd in ("extract", "extract-meta", "extract-gpio") and rng.random() < 0.4:
        opt += ["--separator", rng.choice([",", ";", "|", " "])]
    if cmd == "downsample" and rng.random() < 0.6:
        opt = [o for k, o in enumerate(opt) if not (o in ("-f", "--ds-factor") or (k and opt[k - 1] in ("-f", "--ds-factor")))] if rng.random() < 0.8 else opt
        opt += [rng.choice(["-r", "--sample-rate"]), str(rng.choice([100, 500, 1000, 10_000, 5000, 0, 1, 1]))]
    if cmd == "plot":
        opt += ["-w", "5", rng.choice(["-h", "--height"]), "4"]
        if rng.random() < 0.4:
            opt += [rng.choice(["-p", "--only-power"])]
    return opt


def call(ctx: Ctx, args: list[str]):
    from click.testing import CliRunner
    from shepherd_data.cli import cli

    res = CliRunner().invoke(cli, args)
    if res.exception is not None and not isinstance(res.exception, SystemExit):
        ctx.fail("command-stopped", f"{args[0]} stopped with {type(res.exception).__name__}: {str(res.exception)[:200]}", {"args": args})
    return res


def snapshot(root: Path) -> dict[str, str]:
    return {str(p.relative_to(root)): file_hash(p) for p in root.rglob("*") if p.is_file()}


def content(path: Path):
    return h5_tree(path) if path.suffix == ".h5" else path.read_bytes()


def compare_outputs(ctx: Ctx, a: dict[str, Path], b: dict[str, Path], key: str, what: str) -> None:
    """Two sets of generated files have to agree."""
    if set(a) != set(b):
        ctx.fail(key, f"{what}: files differ", {"missing": sorted(set(b) - set(a)), "surplus": sorted(set(a) - set(b))})
        return
    for name in sorted(a):
        ctx.count("outputs_compared")
        ctx.check(content(a[name]) == content(b[name]), key, f"{what}: content of {name} differs")


def new_files(root: Path, before: dict) -> dict[str, Path]:
    return {n: root / n for n in snapshot(root) if n not in before}


def relevant(kinds: dict[str, str], *, recurse: bool) -> dict[str, str]:
    return {n: k for n, k in kinds.items() if recurse or "/" not in n}


def case_batch(ctx: Ctx) -> None:
    rng = ctx.rng
    cmd = ctx.cmd = rng.choice(COMMANDS[1:])
    opts = rand_options(ctx, cmd)
    nested = rng.random() < 0.35
    recurse = nested and rng.random() < 0.6
    root = ctx.dir / "batch"
    root.mkdir()
    kinds = populate(ctx, root, total=rng.randint(1, 6), nested=nested)
    if recurse:
        opts += [rng.choice(["-a", "--recurse"])]
    before = snapshot(root)
    pristine = ctx.dir / "pristine"
    shutil.copytree(root, pristine)
    res = call(ctx, [cmd, str(root), *opts])
    ctx.eq(res.exit_code, 0, "exit-code", f"{cmd} {opts} over {kinds}")
    ctx.check({n: h for n, h in snapshot(root).items() if n in before} == before, "sources-changed", f"{cmd} {opts} changed given files")
    got = new_files(root, before)

    # every file alone, in its own folder
    want: dict[str, Path] = {}
    for k, name in enumerate(relevant(kinds, recurse=recurse)):
        solo = ctx.dir / f"solo{k}"
        solo.mkdir()
        src = solo / Path(name).name
        shutil.copy2(pristine / name, src)
        base = snapshot(solo)
        r = call(ctx, [cmd, str(src if rng.random() < 0.5 else solo), *opts])
        ctx.eq(r.exit_code, 0, "exit-code", f"{cmd} {opts} alone on {kinds[name]}")
        for out, p in new_files(solo, base).items():
            want[str(Path(name).parent / out)] = p
    compare_outputs(ctx, got, want, "batch-differs", f"{cmd} {opts} over {kinds}")
    ctx.count("batches")
    ctx.count("nested", nested)
    ctx.seen(cmd, tuple(sorted({o for o in opts if o.startswith("-")})), tuple(sorted(set(kinds.values()))), len(kinds), recurse)
    if cmd in ("extract-meta", "extract-uart", "extract-gpio", "plot"):
        # a repeated run finds its results and leaves them alone
        state = dir_state(root)
        call(ctx, [cmd, str(root), *opts])
        ctx.check(dir_state(root) == state, "rerun-changes", f"second run of {cmd} changed the folder")
        ctx.count("reruns")
    ctx.sample(f"{cmd} {' '.join(opts)} over {sorted(kinds.values())} -> {len(got)} files")


def case_validate(ctx: Ctx) -> None:
    rng = ctx.rng
    root = ctx.dir / "batch"
    root.mkdir()
    kinds: dict[str, str] = {}
    nested = rng.random() < 0.3
    recurse = nested and rng.random() < 0.6
    n_bad = rng.choice([0, 0, 1, 1, 2])
    pool = [*VERDICT_BAD]
    todo = [rng.choice(["rich", "uart", "plain"]) for _ in range(rng.randint(0 if n_bad else 1, 4))] + [rng.choice(sorted(pool)) for _ in range(n_bad)]
    rng.shuffle(todo)
    for k, kind in enumerate(todo):
        p = root / rng.choice(["", "", "sub"] if nested else [""]) / f"{rng.choice('abXY')}{k}{tail(rng)}.h5"
        p.parent.mkdir(exist_ok=True)
        make(ctx, p, kind)
        kinds[str(p.relative_to(root))] = kind
        ctx.count("batch_files")
        ctx.count("damaged_files", kind in VERDICT_BAD)
    if rng.random() < 0.4:
        (root / "readme.txt").write_text("no recording")
        (root / "dir.h5").mkdir()
        ctx.count("foreign_files", 2)
    state = dir_state(root)
    opts = ["--recurse"] if recurse else []
    res = call(ctx, ["validate", str(root), *opts])
    bad = {n: k for n, k in relevant(kinds, recurse=recurse).items() if k in VERDICT_BAD}
    ctx.check((res.exit_code == 0) == (not bad), "verdict", f"validate ended with {res.exit_code} for {kinds}", {"bad": bad})
    ctx.check(dir_state(root) == state, "sources-changed", "validation changed the folder")
    ctx.count("verdicts")
    ctx.count("verdict_bad" if bad else "verdict_good")
    ctx.count("nested", nested)
    for name, kind in kinds.items():
        res = call(ctx, ["validate", str(root / name)])
        ctx.check((res.exit_code == 0) == (kind not in VERDICT_BAD), "verdict", f"validate ended with {res.exit_code} for one {kind}")
        ctx.count("verdicts")
    ctx.count("batches")
    ctx.seen("validate", tuple(sorted(kinds.values())), recurse, nested)


def option(opts, *names, conv=float):
    val = None
    for k, o in enumerate(opts):
        if o in names:
            val = conv(opts[k + 1])
    return val


def case_library(ctx: Ctx) -> None:
    """Command on one sound recording against direct calls of the library."""
    from shepherd_core import local_tz
    from shepherd_data import Reader

    rng = ctx.rng
    cmd = ctx.cmd = rng.choice(["extract", "extract-meta", *COMMANDS[1:]])
    opts = rand_options(ctx, cmd)
    if ctx.index % 6 == 0:  # an extract that has something to deliver
        cmd = ctx.cmd = "extract"
        opts = ["-f", str([1, 2, 4, 10][ctx.index // 6 % 4]), "--separator", rng.choice([",", ";", "|"])]
        opts += [rng.choice(["-r", "--raw"])] * (ctx.index // 24 % 2 if ctx.index > 11 else 1)
        opts += rng.choice([[], [], ["--start", "0.03"], ["-e", "0.06"]])
    long = ctx.index % 45 == 7  # enough samples for more of the default factors
    if long:
        cmd, opts = "downsample", rand_options(ctx, "extract-uart")
    a, b = ctx.dir / "a", ctx.dir / "b"
    a.mkdir()
    b.mkdir()
    kind = rng.choice(["rich", "plain", "slow", "uart"]) if cmd != "extract-uart" else "uart"
    if long:
        t, v, c = iv_arrays(ctx.np_rng(), 540_000, kind="rand")
        raw_h5(a / "rec.h5", t=t, v=v, c=c, hostname="long")
    else:
        make(ctx, a / "rec.h5", kind)
    shutil.copy2(a / "rec.h5", b / "rec.h5")
    base_a, base_b = snapshot(a), snapshot(b)
    call(ctx, [cmd, str(a / "rec.h5"), *opts])
    sep = option(opts, "--separator", conv=str) or ";"
    start, end = option(opts, "-s", "--start"), option(opts, "-e", "--end")
    if cmd in ("extract-meta", "extract-gpio"):
        start = end = None
    with Reader(b / "rec.h5", verbose=False) as rd:
        if cmd == "extract":
            f = option(opts, "-f", "--ds-factor")
            f = 1000 if f is None or f < 1 else f
            try:
                out = rd.cut_and_downsample_to_file(start, end, ds_factor=f)
            except ValueError:
                out = None
            if out:
                ctx.count("raw_extracts", "-r" in opts or "--raw" in opts)
                ctx.count("full_extracts", f == 1)
                with Reader(out, verbose=False) as rd2:
                    rd2.save_csv(rd2["data"], sep, raw="-r" in opts or "--raw" in opts)
        elif cmd == "extract-meta":
            rd.save_metadata()
            for g in ("ptp", "sys_util", "pru_util", "sysutil", "timesync"):
                if g in rd.h5file:
                    rd.save_csv(rd[g], sep)
                    ctx.count("deprecated", g in ("sysutil", "timesync", "pru_util"))
            for g in ("sheep", "kernel", "phc2sys", "uart", "shepherd-log", "dmesg", "exceptions"):
                if g in rd.h5file:
                    rd.save_log(rd[g])
        elif cmd == "extract-uart":
            lines = rd.gpio_to_uart()
            if lines is not None:
                text = "".join(f"{datetime.fromtimestamp(float(ts), tz=local_tz()).strftime('%Y-%m-%d %H:%M:%S.%f')}:\t{msg.encode()}\n" for ts, msg in lines)
                (b / "rec.uart_from_wf.log").write_text(text)
                ctx.count("uart_lines", len(lines))
        elif cmd == "extract-gpio":
            for name, wf in rd.gpio_to_waveforms().items():
                rd.waveform_to_csv(name, wf, sep)
        elif cmd == "downsample":
            f = option(opts, "-f", "--ds-factor")
            rate = option(opts, "-r", "--sample-rate", conv=int)
            if f is None and rate:
                f = rd.samplerate_sps / rate
            todo = [f] if f is not None and f >= 1 else [5, 25, 100, 500, 2_500, 10_000, 50_000, 250_000, 1_000_000]
            for x in todo:
                try:
                    rd.cut_and_downsample_to_file(start, end, x)
                except ValueError:
                    break
        else:
            rd.plot_to_file(start, end, 5, 4, only_pwr="-p" in opts or "--only-power" in opts)
    got, want = new_files(a, base_a), new_files(b, base_b)
    if cmd == "extract-meta" and "rec.yaml" in want:
        pass
    compare_outputs(ctx, got, want, "library-differs", f"{cmd} {opts} on {kind}")
    ctx.check(base_a.items() <= snapshot(a).items(), "sources-changed", f"{cmd} changed its source")
    ctx.count("library_calls")
    ctx.seen("library", cmd, tuple(sorted({o for o in opts if o.startswith("-")})), kind)


def case_multiplot(ctx: Ctx) -> None:
    from shepherd_data import Reader

    rng = ctx.rng
    root = ctx.dir / "batch"
    root.mkdir()
    kinds: dict[str, str] = {}
    for k in range(rng.randint(1, 5)):
        kind = rng.choice([*SOUND, "short", "text", "no_time", "truncated", "header_only", "no_data"])
        make(ctx, root / f"{rng.choice('cab')}{k}.h5", kind)
        kinds[next(p.name for p in root.glob(f"*{k}.h5"))] = kind
        ctx.count("batch_files")
        ctx.count("damaged_files", kind in BROKEN or kind in INVALID)
    opts = [o for o in rand_options(ctx, "plot")]
    start, end = option(opts, "-s", "--start"), option(opts, "-e", "--end")
    before = snapshot(ctx.dir)
    seen: list = []
    orig = Reader.multiplot_to_file

    def spy(data, *args, **kw):
        seen.append(list(data))
        return orig(data, *args, **kw)

    Reader.multiplot_to_file = staticmethod(spy)
    try:
        res = call(ctx, ["plot", str(root), "-m", *opts])
        usable = {}
        for name in kinds:
            try:
                with Reader(root / name, verbose=False) as rd:
                    d = rd.generate_plot_data(start, end, relative_timestamp=True)
            except Exception:  # damaged file
                continue
            if d is not None:
                usable[name] = d
    finally:
        Reader.multiplot_to_file = staticmethod(orig)
    ctx.eq(res.exit_code, 0, "exit-code", f"multiplot over {kinds}")
    made = {n: p for n, p in new_files(ctx.dir, before).items()}
    ctx.check(before.items() <= snapshot(ctx.dir).items(), "sources-changed", "multiplot changed its sources")
    if len(kinds) == 1:
        ctx.check(len(made) == len(usable), "multiplot", f"single file {kinds} produced {sorted(made)}")
    else:
        ctx.eq(len(made), int(bool(usable)), "multiplot", f"number of plots for {kinds}")
        if seen:
            def sig(d):
                return (d["name"], d["start_s"], d["end_s"], np.asarray(d["time"]).tobytes(), np.asarray(d["voltage"]).tobytes(), np.asarray(d["current"]).tobytes())

            ctx.eq(sorted(sig(d) for d in seen[0]), sorted(sig(d) for d in usable.values()), "multiplot", f"plotted traces for {kinds}")
            if usable and made:
                ref = ctx.dir / "ref"
                ref.mkdir()
                only = "-p" in opts or "--only-power" in opts
                out = orig(seen[0], ref / "batch", 5, 4, only_pwr=only)
                ctx.check(out is not None and out.read_bytes() == next(iter(made.values())).read_bytes(), "multiplot", "picture differs from the one of the library")
    ctx.count("multiplots")
    ctx.seen("multiplot", tuple(sorted(kinds.values())), tuple(o for o in opts if o.startswith("-")))


def case_arguments(ctx: Ctx) -> None:
    """Paths that are no recordings, several spellings, global switches."""
    rng = ctx.rng
    p = ctx.dir / "rec.txt"
    p.write_text("x")
    other = ctx.dir / "rec.hdf5"
    make(ctx, other, "plain")
    upper = ctx.dir / "UP.H5"
    make(ctx, upper, "text" if rng.random() < 0.5 else "rich")
    bad_upper = upper.stat().st_size < 1000
    empty = ctx.dir / "empty"
    empty.mkdir()
    state = dir_state(ctx.dir)
    cmd = rng.choice(COMMANDS)
    for target in (p, other, empty):
        res = call(ctx, [cmd, str(target)])
        ctx.eq(res.exit_code, 0, "exit-code", f"{cmd} on {target.name}")
        ctx.check(dir_state(ctx.dir) == state, "foreign-processed", f"{cmd} on {target.name} produced files")
    res = call(ctx, [cmd, str(ctx.dir / "missing.h5")])
    ctx.check(res.exit_code != 0, "exit-code", f"{cmd} accepted a missing path")
    res = call(ctx, ["validate", str(upper)])
    ctx.check((res.exit_code == 0) != bad_upper, "verdict", "given file with upper-case ending was not judged")
    link = ctx.dir / "link.h5"
    link.symlink_to(upper)
    res = call(ctx, ["validate", str(link)])
    ctx.check((res.exit_code == 0) != bad_upper, "verdict", "linked file was not judged")
    for args in (["version"], ["-v", "version"], ["--help"], [cmd, "--help"]):
        ctx.eq(call(ctx, args).exit_code, 0, "exit-code", " ".join(args))
    ctx.check(call(ctx, ["unknown"]).exit_code != 0, "exit-code", "unknown command accepted")
    ctx.seen("arguments", cmd, bad_upper)


def case_process(ctx: Ctx) -> None:
    """The same through a process of its own: exit code as seen by a shell."""
    rng = ctx.rng
    root = ctx.dir / "batch"
    root.mkdir()
    kinds = []
    for k in range(rng.randint(1, 3)):
        kinds.append(rng.choice(["rich", "uart", "plain", *sorted(VERDICT_BAD)]))
        make(ctx, root / f"r{k}.h5", kinds[-1])
    env = {k: v for k, v in os.environ.items()}
    env["PYTHONPATH"] = f"{REPO / 'shepherd_core'}:{REPO / 'shepherd_data'}"
    run = [sys.executable, "-c", "from shepherd_data.cli import cli; cli()"]
    r = subprocess.run([*run, "validate", str(root)], capture_output=True, text=True, env=env, timeout=300, check=False)
    bad = any(k in VERDICT_BAD for k in kinds)
    ctx.check((r.returncode == 0) == (not bad), "verdict", f"process ended with {r.returncode} for {kinds}", r.stderr[-500:])
    r = subprocess.run([*run, "plot", str(root), "-w", "5", "-h", "4"], capture_output=True, text=True, env=env, timeout=300, check=False)
    ctx.check(r.returncode == 0, "exit-code", f"plot process ended with {r.returncode} for {kinds}", r.stderr[-500:])
    n_ok = sum(k in SOUND for k in kinds)
    ctx.check(len(list(root.glob("*.png"))) >= n_ok, "batch-differs", f"plots are missing for {kinds}")
    ctx.count("processes")
    ctx.seen("process", tuple(sorted(kinds)))


FAMILIES = {
    "batch": Family(case_batch, quick=120, thorough=1500, cpu_s=240),
    "validate": Family(case_validate, quick=90, thorough=1000, cpu_s=120),
    "library": Family(case_library, quick=90, thorough=900, cpu_s=120),
    "multiplot": Family(case_multiplot, quick=30, thorough=300, cpu_s=120),
    "arguments": Family(case_arguments, quick=16, thorough=80, cpu_s=90),
    "process": Family(case_process, quick=6, thorough=40, cpu_s=90),
}
