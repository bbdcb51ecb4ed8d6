"""C02: existing files are never lost, overwritten or altered without request."""
import os
import shutil

import h5py
import numpy as np
from click.testing import CliRunner
from shepherd_core import Reader
from shepherd_core import Writer
from shepherd_core import CalibrationPair
from shepherd_core import CalibrationSeries
from shepherd_data import Reader as DReader
from shepherd_data.cli import cli

from vlib import rec
from vlib.core import Family

PROPERTY = "C02"
TECHNIQUE = "file-system state monitor (content hash and mtime of every file before/after each operation) over operation histories"
LEVEL_NOTE = ("After every operation of a generated history the identity of all files in the directory is compared with the set of files "
              "that operation may create or change; source files must be byte-identical, outputs of an earlier run must survive a repeated run.")
RULE = ("A case is a history of create/overwrite/modify operations over a directory of several recordings and foreign files, or a sequence of "
        "read/analyse/export/plot/CLI operations on a recording with logs and gpio, each run twice with tampered outputs in between. "
        "Non-trivial = at least one existing file was at stake. Signature: operation kinds and outcomes.")
REQUIRED = {"creations_on_existing": 30, "modifications": 15, "readonly_ops": 100, "tampered_outputs_kept": 20}

RUN = CliRunner()


def small(npr, n=20_000):
    return rec.iv_arrays(npr, n)


def case_writer_history(ctx):
    rng, npr = ctx.rng, ctx.np_rng()
    names = ["a.h5", "b.rec.h5", "c.h5", "sub/d.h5"]
    (ctx.dir / "foreign.h5").write_bytes(b"not a hdf5 file")
    (ctx.dir / "a.yaml").write_text("foreign: true")
    sig = []
    for _ in range(rng.randint(4, 10)):
        path = ctx.dir / rng.choice([*names, "foreign.h5"])
        op = rng.choice(["create", "create", "create", "overwrite", "modify", "modify"])
        before = rec.dir_state(ctx.dir)
        rel = str(path.relative_to(ctx.dir))
        existed = path.exists()
        mode = rng.choice([None, "harvester", "emulator"])
        if op == "modify":
            if not existed or path.read_bytes()[:3] == b"not":
                ctx.rejects(lambda p=path: Writer(p, modify_existing=True, verbose=False), "modify-missing",
                            "opening a missing / foreign file for modification", (OSError, ValueError, TypeError))
                ctx.eq(rec.dir_state(ctx.dir), before, "rejected-modify-changed-files", "directory state")
                continue
            modify(ctx, path, npr)
            may_change, may_appear = {rel}, 0
        else:
            n = rng.choice([0, 10_000, 20_000])
            comp = {}
            with Writer(path if rng.random() < 0.5 else str(path), mode=mode, force_overwrite=op == "overwrite", verbose=False, **comp) as w:
                new = w.file_path
                if n:
                    w.append_iv_data_raw(*small(npr, n))
            rel_new = str(new.relative_to(ctx.dir.resolve()))
            if op == "create" and existed:
                ctx.count("creations_on_existing")
                ctx.check(rel_new not in before, "clobbered", f"create({rel}) stored to the already existing file {rel_new}")
                ctx.eq(new.suffix, path.suffix, "suffix", "suffix of the alternative name")
                ctx.eq(new.parent, path.resolve().parent, "other-directory", "directory of the alternative name")
            else:
                ctx.eq(rel_new, rel, "wrong-target", "stored path")
            d = rec.h5_data(new)
            ctx.eq(len(d["time"]), n, "new-content", "samples in the new file (no leftovers)")
            may_change, may_appear = {rel_new}, 1
        after = rec.dir_state(ctx.dir)
        lost = [k for k in before if k not in after]
        ctx.check(not lost, "file-lost", f"{op}({rel}) removed {lost}")
        changed = {k for k in before if before[k] != after[k]} - may_change
        ctx.check(not changed, "file-altered", f"{op}({rel}) changed {changed}")
        appeared = {k for k in after if k not in before and not k.endswith("/")} - may_change
        ctx.check(not appeared, "stray-file", f"{op}({rel}) created {appeared}")
        ctx.count("operations")
        sig.append((op, existed, mode))
    ctx.seen(tuple(sig))
    ctx.sample(sig)


def modify(ctx, path, npr):
    rng = ctx.rng
    if rng.random() < 0.5:  # foreign content which has to survive
        with h5py.File(path, "a") as f:
            if "extra" not in f:
                g = f.create_group("extra")
                g.create_dataset("x", data=npr.integers(0, 1000, 50))
                g.attrs["note"] = "keep me"
            f.attrs["user"] = "someone"
            f["data"].attrs["user2"] = 12
            f["data"]["voltage"].attrs["user3"] = "abc"
    old_tree, old = rec.h5_tree(path), rec.h5_data(path)
    kw, changed = {}, {}
    if rng.random() < 0.4:
        kw["mode"] = rng.choice(["harvester", "emulator"])
        changed[("/", "mode")] = kw["mode"]
    if rng.random() < 0.3:
        kw["datatype"] = "ivsample"
        changed[("/data", "datatype")] = "ivsample"
    if rng.random() < 0.3:
        kw["window_samples"] = rng.choice([0, 7])
        changed[("/data", "window_samples")] = kw["window_samples"]
    if rng.random() < 0.3:
        cal = CalibrationSeries(voltage=CalibrationPair(gain=rng.uniform(1e-9, 1e-7), offset=0.5),
                                current=CalibrationPair(gain=rng.uniform(1e-12, 1e-9)), time=CalibrationPair(gain=1e-9))
        kw["cal_data"] = cal
        for ds in ("voltage", "current", "time"):
            changed[(f"/data/{ds}", "gain")] = getattr(cal, ds).gain
            changed[(f"/data/{ds}", "offset")] = getattr(cal, ds).offset
    n_new = rng.choice([0, 0, 10_000])
    t, v, c = small(npr, n_new)
    if n_new and len(old["time"]):
        t = t - t[0] + old["time"][-1] + np.uint64(10_000)
    with Writer(path, modify_existing=True, verbose=False, **kw) as w:
        ctx.eq(w.file_path, path.resolve(), "wrong-target", "modified file")
        if n_new:
            w.append_iv_data_raw(t, v, c)
        if rng.random() < 0.3:
            w.store_hostname("host42")
            changed[("/", "hostname")] = "host42"
    new_tree, new = rec.h5_tree(path), rec.h5_data(path)
    for k, arr in (("time", t), ("voltage", v), ("current", c)):
        want = np.concatenate([old[k], arr])
        ctx.check(np.array_equal(new[k], want), "samples-lost", f"modify: {k} is not old samples followed by new ones ({len(new[k])} vs {len(want)})")
    for node, ent in old_tree.items():
        ctx.check(node in new_tree, "group-lost", f"modify dropped {node}")
        for a, val in ent["attrs"].items():
            want = changed.get((node, a), val)
            ctx.eq(new_tree[node]["attrs"].get(a), want, "attribute-changed", f"modify({list(kw)}): attribute {node}@{a}")
        if "data" in ent and node not in ("/data/time", "/data/voltage", "/data/current"):
            ctx.eq(new_tree[node], ent, "dataset-changed", f"modify changed {node}")
    for (node, a), val in changed.items():
        ctx.eq(new_tree[node]["attrs"].get(a), val, "attribute-not-set", f"modify: requested attribute {node}@{a}")
    ctx.count("modifications")


def op_list(ctx, src):
    """(name, callable) of operations that must not touch the source."""
    rng = ctx.rng

    def with_reader(cls, fn):
        def run():
            with cls(src, verbose=False) as r:
                return fn(r)
        return run

    cut = (rng.choice([None, 0, 0.05]), rng.choice([None, 0.15, 0.2]), rng.choice([2, 5, 10]))

    def csvs(r):
        for g in ("ptp", "gpio_none"):
            if g in r.h5file:
                r.save_csv(r[g], rng.choice([";", ","]), raw=rng.random() < 0.5)

    def logs(r):
        for g in ("sheep", "uart"):
            r.save_log(r[g])
            r.warn_logs(g, show=True)

    def wf(r):
        for name, w in r.gpio_to_waveforms().items():
            r.waveform_to_csv(name, w)

    def cutds(r):
        try:
            r.cut_and_downsample_to_file(*cut)
        except ValueError:
            ctx.count("cut_rejected")

    def consume(r):
        for _ in r.read_buffers(is_raw=rng.random() < 0.5):
            pass

    ops = [
        ("is_valid", with_reader(Reader, lambda r: r.is_valid())),
        ("energy", with_reader(DReader, lambda r: r.energy())),
        ("timediffs", with_reader(Reader, lambda r: r.check_timediffs())),
        ("metadata", with_reader(DReader, lambda r: r.get_metadata())),
        ("repr", with_reader(Reader, repr)),
        ("save_metadata", with_reader(Reader, lambda r: r.save_metadata())),
        ("read_buffers", with_reader(Reader, consume)),
        ("getters", with_reader(DReader, lambda r: (r.get_hrv_config(), r.get_calibration_data(), r.get_config(), r.get_hostname()))),
        ("csv", with_reader(DReader, csvs)),
        ("logs", with_reader(DReader, logs)),
        ("waveform_csv", with_reader(DReader, wf)),
        ("uart", with_reader(DReader, lambda r: r.gpio_to_uart())),
        ("cut", with_reader(DReader, cutds)),
        ("downsample", with_reader(DReader, lambda r: r.downsample(r.ds_voltage, None, 0, 10_000, 5))),
        ("plotdata", with_reader(DReader, lambda r: r.generate_plot_data(0, 0.1))),
    ]
    if ctx.index % 8 == 0:
        ops.append(("plot", with_reader(DReader, lambda r: r.plot_to_file(0, 0.1, 4, 3))))
    for cmd in (["validate"], ["extract", "-f", "10"], ["extract-meta"], ["extract-uart"], ["extract-gpio"], ["downsample", "-f", "5"],
                ["downsample"]):
        tgt = str(rng.choice([src, src.parent]))
        ops.append(("cli " + cmd[0], lambda cmd=cmd, tgt=tgt: RUN.invoke(cli, [*cmd, tgt])))
    if ctx.index % 8 == 2:
        ops.append(("multiplot", with_reader(DReader, lambda r: DReader.multiplot_to_file([r.generate_plot_data(0, 0.1)], ctx.dir / "group", 4, 3))))
    if ctx.index % 8 == 3:
        ops.append(("cli multiplot", lambda: RUN.invoke(cli, ["plot", "-m", "-e", "0.1", "-w", "4", "-h", "3", str(src.parent)])))
    if ctx.index % 8 == 1:
        ops.append(("cli plot", lambda: RUN.invoke(cli, ["plot", "-e", "0.1", "-w", "4", "-h", "3", str(src)])))
    return ops


def case_readonly(ctx):
    rng, npr = ctx.rng, ctx.np_rng()
    src = ctx.dir / rng.choice(["rec.h5", "my.rec.v1.h5"])
    rec.rich_h5(src, rng, npr, n=rng.choice([20_000, 25_000]))
    other = ctx.dir / "zother.h5"
    rec.rich_h5(other, rng, npr, n=20_000)
    (ctx.dir / "foreign.txt").write_text("x")
    ops = op_list(ctx, src)
    rng.shuffle(ops)
    ops.sort(key=lambda o: "plot" not in o[0].replace("plotdata", ""))
    protected = {src.name, other.name, "foreign.txt"}
    for name, fn in ops[: rng.randint(5, 9)]:
        s0 = rec.dir_state(ctx.dir)
        fn()
        s1 = rec.dir_state(ctx.dir)
        ctx.count("readonly_ops")
        lost = [k for k in s0 if k not in s1]
        ctx.check(not lost, "file-lost", f"{name} removed {lost}")
        bad = [k for k in s0 if s0[k] != s1[k]]
        ctx.check(not bad, "source-altered" if set(bad) & protected else "output-overwritten", f"{name} changed existing files {bad}")
        new = [k for k in s1 if k not in s0 and not k.endswith("/")]
        # a user edits / replaces outputs: a second run must leave them alone
        keep = {}
        for k in new:
            p = ctx.dir / k
            if p.suffix == ".h5" and rng.random() < 0.5:
                keep[k] = rec.file_hash(p)
                continue
            raw = p.read_bytes()
            p.write_bytes(rng.choice([b"tampered " + k.encode(), b"tampered " + k.encode(), b"", raw[: len(raw) // 2], raw + b"x"]))
            keep[k] = rec.file_hash(p)
        for k in keep:
            when = rng.choice([None, 10**9, 0, 4 * 10**9])
            if when is not None:
                os.utime(ctx.dir / k, (when, when))
        s1 = rec.dir_state(ctx.dir)
        fn()
        s2 = rec.dir_state(ctx.dir)
        for k, h in keep.items():
            ctx.check(k in s2 and s2[k][0] == h, "output-overwritten", f"second '{name}' overwrote the existing output {k}")
            ctx.check(s2.get(k) == s1[k], "output-overwritten", f"second '{name}' touched the existing output {k}")
            ctx.count("tampered_outputs_kept")
        bad = [k for k in s0 if s0[k] != s2.get(k)]
        ctx.check(not bad, "source-altered", f"second {name} changed {bad}")
        ctx.seen(name, len(new) > 0, src.name)
        for k in new:  # garbage .h5 files would only disturb later directory-wide commands
            if (ctx.dir / k).suffix == ".h5":
                (ctx.dir / k).unlink()
        for k in [x for x in s2 if x not in s1 and not x.endswith("/")]:
            if (ctx.dir / k).suffix == ".h5":
                (ctx.dir / k).unlink()
    ctx.sample([n for n, _ in ops])


def case_readonly_media(ctx):
    """Sources are opened without write access: monitored by the interpreter's own file handle mode."""
    rng, npr = ctx.rng, ctx.np_rng()
    src = rec.rich_h5(ctx.dir / "ro.h5", rng, npr, n=20_000)
    for cls in (Reader, DReader):
        with cls(src, verbose=False) as r:
            ctx.eq(r.h5file.mode, "r", "opened-writable", "open mode of the source")
            try:
                r.h5file.attrs["x"] = 1
                ctx.fail("opened-writable", "source could be changed through the reader")
            except (OSError, KeyError):
                pass
    ctx.count("readonly_ops", 2)
    ctx.seen("mode")


FAMILIES = {
    "writer_history": Family(case_writer_history, quick=60, thorough=1500),
    "readonly": Family(case_readonly, quick=48, thorough=800),
    "ro_mode": Family(case_readonly_media, quick=2, thorough=4),
}
