"""C03: a recording session that fails midway still leaves a usable file."""
import gc
import os

import h5py
import numpy as np
from shepherd_core import Reader
from shepherd_core import Writer
from shepherd_core import CalibrationHarvester
from shepherd_core import CalibrationPair
from shepherd_core import CalibrationSeries
from shepherd_data import Reader as DReader

from vlib import rec
from vlib.core import Family

PROPERTY = "C03"
TECHNIQUE = "crash-point enumeration and storage-fault injection, re-opened file checked against a session model"
LEVEL_NOTE = ("Every crash point between the operations of generated sessions is enumerated and faults are injected into individual h5py "
              "dataset operations; the re-opened file is compared with a model of what was stored. Process kills and power loss are out of scope (HDF5 gives no guarantee).")
RULE = ("A case is one generated session (new or modify) executed once per crash point with an exception of random type, or with a fault in the "
        "k-th dataset operation, or one rejected constructor call on an existing file. Signature: (operations, crash point, exception type).")
REQUIRED = {"crash_points": 150, "faults_fired": 30, "rejected_ctor": 30, "unreadable_sources": 60}


class Boom(Exception):
    pass


class BoomBase(BaseException):
    pass


def exc_obj(rng):
    return rng.choice([Boom("x"), ValueError("y"), KeyError("k"), OSError(28, "no space"), BoomBase("b"), KeyboardInterrupt(), SystemExit(3),
                       TypeError("t"), ZeroDivisionError(), StopIteration(), MemoryErrorLike()])


class MemoryErrorLike(RuntimeError):
    pass


def open_fds(path) -> int:
    n = 0
    for fd in os.listdir("/proc/self/fd"):
        try:
            if os.readlink(f"/proc/self/fd/{fd}") == str(path):
                n += 1
        except OSError:
            pass
    return n


def gen_session(rng, npr):
    ops = []
    t = 1_650_000_000_000_000_000
    for _ in range(rng.randint(2, 7)):
        k = rng.choice(["append", "append", "append", "config", "host", "attr", "group"])
        if k == "append":
            n = rng.choice([0, 1, 500, 9_999, 10_000, 10_001, 20_000])
            tt, v, c = rec.iv_arrays(npr, n, t0=t)
            t += n * 10_000
            ops.append((k, (tt, v, c), rng.random() < 0.5))
        elif k == "config":
            ops.append((k, {"a": rng.randint(0, 9), "nested": {"b": [1, 2.5, "x"]}}))
        elif k == "host":
            ops.append((k, f"host{rng.randint(0, 99)}"))
        elif k == "attr":
            ops.append((k, f"key{rng.randint(0, 3)}", rng.choice([1, 2.5, "txt"])))
        else:
            ops.append((k, f"grp{len(ops)}"))
    return ops


class Model:
    def __init__(self):
        self.cols = [np.zeros(0, np.uint64), np.zeros(0, np.uint32), np.zeros(0, np.uint32)]
        self.config, self.host, self.attrs, self.groups = None, None, {}, []

    def apply(self, op):
        k = op[0]
        if k == "append":
            self.cols = [np.concatenate([a, b]) for a, b in zip(self.cols, op[1])]
        elif k == "config":
            self.config = op[1]
        elif k == "host":
            self.host = op[1]
        elif k == "attr":
            self.attrs[op[1]] = op[2]
        else:
            self.groups.append(op[1])

    def trimmed(self):
        n = len(self.cols[0]) // rec.BUF * rec.BUF
        return [a[:n] for a in self.cols]

    def copy_base(self):
        """State as found by the next session (tail of the closed file is already cut)."""
        m = Model()
        m.cols = self.trimmed()
        m.config, m.host, m.attrs, m.groups = self.config, self.host, dict(self.attrs), list(self.groups)
        return m


def execute(w, op):
    k = op[0]
    if k == "append":
        t, v, c = op[1]
        if op[2] or len(t) == 0:
            w.append_iv_data_raw(t, v, c)
        else:
            w.append_iv_data_raw(int(t[0]), v, c)
    elif k == "config":
        w.store_config(op[1])
    elif k == "host":
        w.store_hostname(op[1])
    elif k == "attr":
        w[op[1]] = op[2]
    else:
        g = w.h5file.create_group(op[1])
        g.create_dataset("time", data=np.arange(3))


def verify(ctx, path, m, meta, what):
    ctx.eq(open_fds(path), 0, "file-left-open", f"{what}: open handles on the recording")
    with h5py.File(path, "r+"):  # not locked
        pass
    cols = m.trimmed()
    d = rec.h5_data(path)
    ctx.eq([len(d[k]) for k in ("time", "voltage", "current")], [len(cols[0])] * 3, "channel-lengths", what)
    for k, want in zip(("time", "voltage", "current"), cols):
        ctx.check(np.array_equal(d[k], want), "samples-differ", f"{what}: {k} differs from what was stored before the failure")
    for cls in (Reader, DReader):
        with cls(path, verbose=False) as r:
            ctx.check(r.is_valid(), "invalid-file", f"{what}: re-opened file is not valid")
            if m.config is not None:
                ctx.eq(r.get_config(), m.config, "config-lost", what)
            if m.host is not None:
                ctx.eq(r.get_hostname(), m.host, "hostname-lost", what)
            for k, v in m.attrs.items():
                ctx.eq(r[k], v, "attribute-lost", what)
            for g in m.groups:
                ctx.check(g in r.h5file and len(r.h5file[g]["time"]) == 3, "group-lost", what)
            ctx.eq(r.get_mode(), meta["mode"], "mode-lost", what)
            ctx.eq(r.get_datatype().value, meta["datatype"], "datatype-lost", what)
            ctx.eq(r.get_window_samples(), meta["window_samples"], "window-lost", what)
            got = r.get_calibration_data()
            for ds in ("voltage", "current", "time"):
                a, b = getattr(got, ds), getattr(meta["cal"], ds)
                ctx.eq((a.gain, a.offset), (b.gain, b.offset), "calibration-lost", f"{what} {ds}")


def rand_meta(rng):
    mode = rng.choice(["harvester", "emulator"])
    dt = rng.choice(["ivsample", "ivcurve", "isc_voc"]) if mode == "harvester" else "ivsample"
    cal = CalibrationSeries(voltage=CalibrationPair(gain=rng.uniform(1e-9, 1e-6), offset=rng.uniform(0, 1)),
                            current=CalibrationPair(gain=rng.uniform(1e-12, 1e-9), offset=rng.uniform(0, 1e-3)))
    return {"mode": mode, "datatype": dt, "window_samples": rng.randint(1, 5000) if dt == "ivcurve" else 0, "cal": cal}


def ctor_args(meta):
    return {"mode": meta["mode"], "datatype": meta["datatype"], "window_samples": meta["window_samples"], "cal_data": meta["cal"]}


def case_crash(ctx):
    rng, npr = ctx.rng, ctx.np_rng()
    base = Model()
    meta = rand_meta(rng)
    modify = rng.random() < 0.35
    base_path = ctx.dir / "base.h5"
    if modify:
        with Writer(base_path, verbose=False, **ctor_args(meta)) as w:
            op = ("append", rec.iv_arrays(npr, 10_000, t0=1_600_000_000_000_000_000), True)
            execute(w, op)
            base.apply(op)
            execute(w, ("attr", "old", 7))
            base.apply(("attr", "old", 7))
    ops = gen_session(rng, npr)
    if modify:  # keep the time line continuous (rate stays the default one)
        t = int(base.cols[0][-1]) + 10_000
        for o in ops:
            if o[0] == "append":
                n = len(o[1][0])
                o[1][0][:] = np.uint64(t) + np.arange(n, dtype=np.uint64) * np.uint64(10_000)
                t += n * 10_000
    for point in range(len(ops) + 1):
        path = ctx.dir / f"s{point}.h5"
        m = base.copy_base()
        if modify:
            path.write_bytes(base_path.read_bytes())
        boom = exc_obj(rng)
        caught = None
        try:
            with Writer(path, modify_existing=modify, verbose=False, **({} if modify else ctor_args(meta))) as w:
                for i, op in enumerate(ops):
                    if i == point:
                        raise boom
                    execute(w, op)
                    m.apply(op)
                if point == len(ops):
                    raise boom
        except BaseException as e:  # noqa: BLE001
            caught = e
        ctx.check(caught is boom, "exception-changed", f"raised {boom!r} inside the session, caller got {caught!r}",
                  getattr(caught, "__traceback__", None))
        what = f"crash at {point}/{len(ops)} of {[o[0] for o in ops]} with {type(boom).__name__}, modify={modify}"
        verify(ctx, path.resolve(), m, meta, what)
        ctx.count("crash_points")
        ctx.seen(modify, tuple((o[0], len(o[1][0]) if o[0] == "append" else 0) for o in ops), point, type(boom).__name__)
    ctx.sample({"ops": [o[0] for o in ops], "modify": modify, "points": len(ops) + 1})


class Injector:
    """Fails the k-th mutating dataset operation once (h5py boundary)."""

    def __init__(self, k, exc):
        self.k, self.exc, self.n, self.fired = k, exc, 0, False

    def __enter__(self):
        self.orig = {n: getattr(h5py.Dataset, n) for n in ("resize", "__setitem__")}
        inj = self

        def wrap(orig):
            def op(ds, *a, **kw):
                if not inj.fired:
                    if inj.n == inj.k:
                        inj.fired = True
                        raise inj.exc
                    inj.n += 1
                return orig(ds, *a, **kw)
            return op

        for n, f in self.orig.items():
            setattr(h5py.Dataset, n, wrap(f))
        return self

    def __exit__(self, *a):
        for n, f in self.orig.items():
            setattr(h5py.Dataset, n, f)


def case_storage_fault(ctx):
    """One dataset operation of an append fails: nothing of that append may remain."""
    rng, npr = ctx.rng, ctx.np_rng()
    meta = rand_meta(rng)
    n_app = rng.randint(1, 4)
    fault_in = rng.randrange(n_app)
    recover = rng.random() < 0.5  # caller handles the error and goes on recording
    for k in range(6):
        path = (ctx.dir / f"f{k}.h5").resolve()
        m = Model()
        exc = rng.choice([OSError(28, "No space left"), RuntimeError("hdf5"), ValueError("hdf5")])
        caught = None
        t = 1_650_000_000_000_000_000
        fired = False
        try:
            with Writer(path, verbose=False, **ctor_args(meta)) as w:
                for i in range(n_app):
                    n = rng.choice([10_000, 10_000, 20_000, 700])
                    op = ("append", rec.iv_arrays(npr, n, t0=t), True)
                    if i == fault_in:
                        with Injector(k, exc) as inj:
                            try:
                                execute(w, op)
                            except Exception as e:  # noqa: BLE001
                                fired = inj.fired
                                ctx.check(e is exc, "exception-changed", f"storage error {exc!r} became {e!r}")
                                if not recover:
                                    raise
                            else:
                                m.apply(op)
                                t += n * 10_000
                            fired = fired or inj.fired
                    else:
                        execute(w, op)
                        m.apply(op)
                        t += n * 10_000
        except Exception as e:  # noqa: BLE001
            caught = e
        if fired and not recover:
            ctx.check(caught is exc, "exception-changed", f"storage error {exc!r} reached the caller as {caught!r}")
        else:
            ctx.check(caught is None, "unexpected-error", f"{caught!r}")
        if not fired:
            continue
        ctx.count("faults_fired")
        verify(ctx, path, m, meta, f"fault in dataset operation {k} of append {fault_in}/{n_app}, recover={recover}")
        ctx.seen("fault", k, fault_in, n_app, recover, type(exc).__name__)


def case_bad_append(ctx):
    """Unusable data handed to an append is rejected and leaves no trace."""
    rng, npr = ctx.rng, ctx.np_rng()
    meta = rand_meta(rng)
    path = (ctx.dir / "bad.h5").resolve()
    m = Model()
    t0 = 1_650_000_000_000_000_000
    t, v, c = rec.iv_arrays(npr, 10_000, t0=t0)
    t2, v2, c2 = rec.iv_arrays(npr, 10_000, t0=t0 + 10_000 * 10_000)
    bad = [
        ("timestamp text", lambda w: w.append_iv_data_raw("now", v, c)),
        ("timestamp none", lambda w: w.append_iv_data_raw(None, v, c)),
        ("voltage none", lambda w: w.append_iv_data_raw(t, None, c)),
        ("current text", lambda w: w.append_iv_data_raw(t, v, np.array(["a"] * 10_000))),
        ("voltage 2d", lambda w: w.append_iv_data_raw(t, np.stack([v, v]), c)),
        ("current object", lambda w: w.append_iv_data_raw(t, v, np.array([{}] * 10_000, dtype=object))),
        ("timestamp 2d", lambda w: w.append_iv_data_raw(np.stack([t, t]), v, c)),
        ("si text", lambda w: w.append_iv_data_si("now", v, c)),
    ]
    rng.shuffle(bad)
    with Writer(path, verbose=False, **ctor_args(meta)) as w:
        for name, fn in bad[:4]:
            raised = False
            try:
                fn(w)
            except Exception:  # noqa: BLE001
                raised = True
            ctx.check(raised, "bad-append-accepted", f"append with unusable data ({name}) was accepted")
            ctx.count("faults_fired")
            if rng.random() < 0.5 and not len(m.cols[0]):
                execute(w, ("append", (t, v, c), True))
                m.apply(("append", (t, v, c), True))
        nxt = ("append", (t2, v2, c2) if len(m.cols[0]) else (t, v, c), True)
        execute(w, nxt)
        m.apply(nxt)
    verify(ctx, path, m, meta, f"after rejected appends {[b[0] for b in bad[:4]]}")
    ctx.seen("bad", tuple(sorted(b[0] for b in bad[:4])))


def case_ctor(ctx):
    """Rejected constructor calls leave existing recordings alone."""
    rng, npr = ctx.rng, ctx.np_rng()
    meta = rand_meta(rng)
    path = ctx.dir / "x.h5"
    with Writer(path, verbose=False, **ctor_args(meta)) as w:
        execute(w, ("append", rec.iv_arrays(npr, 10_000), True))
        w.store_hostname("keep")
    bad = [
        {"mode": "harvestr"},
        {"mode": "emulator", "datatype": "ivcurve", "window_samples": 10},
        {"mode": "emulator", "datatype": "isc_voc"},
        {"mode": "harvester", "datatype": "ivfoo"},
        {"mode": "harvester", "datatype": "ivcurve", "window_samples": 0},
        {"mode": "harvester", "datatype": "ivcurve", "window_samples": 0, "cal_data": CalibrationHarvester()},
        {"mode": "emulator", "datatype": "ivcurve", "cal_data": CalibrationSeries()},
        {"cal_data": 5},
        {"window_samples": "many"},
        {"compression": "zip9"},
    ]
    for kw in rng.sample(bad, 5):
        for flag in ({"force_overwrite": True}, {"modify_existing": True}, {}):
            if not flag and rng.random() < 0.5:
                continue
            before = rec.dir_state(ctx.dir)
            tree = rec.h5_tree(path)
            ctx.rejects(lambda kw=kw, flag=flag: Writer(path, verbose=False, **kw, **flag), "bad-args-accepted", f"Writer({kw}, {flag})")
            after = rec.dir_state(ctx.dir)
            ctx.eq(rec.h5_tree(path), tree, "content-changed-by-rejected-call", f"Writer({kw}, {flag})")
            if not flag.get("modify_existing"):
                ctx.eq({k: v for k, v in after.items() if k in before}, before, "file-changed-by-rejected-call", f"Writer({kw}, {flag})")
            ctx.eq(open_fds(path.resolve()), 0, "file-left-open", f"after rejected Writer({kw}, {flag})")
            with Reader(path, verbose=False) as r:
                ctx.check(r.is_valid(), "invalid-file", "existing file after rejected call")
            ctx.count("rejected_ctor")
            ctx.seen("ctor", tuple(kw), str(kw.get("mode")), tuple(flag))
    # foreign content can neither be modified nor read, and stays
    foreign = ctx.dir / "foreign.h5"
    foreign.write_bytes(npr.bytes(rng.choice([10, 300, 5000])))
    for fn in (lambda: Writer(foreign, modify_existing=True, verbose=False), lambda: Reader(foreign, verbose=False), lambda: DReader(foreign)):
        h = rec.file_hash(foreign)
        ctx.rejects(fn, "foreign-accepted", "foreign file opened as recording")
        ctx.eq(rec.file_hash(foreign), h, "foreign-changed", "foreign file")


def case_reader(ctx):
    """Exceptions inside a reading session close the file and pass through."""
    rng, npr = ctx.rng, ctx.np_rng()
    src = rec.rich_h5(ctx.dir / "r.h5", rng, npr, n=20_000).resolve()
    h = rec.file_hash(src)
    for cls in (Reader, DReader):
        boom, caught = exc_obj(rng), None
        try:
            with cls(src, verbose=False) as r:
                if rng.random() < 0.5:
                    next(r.read_buffers())
                raise boom
        except BaseException as e:  # noqa: BLE001
            caught = e
        ctx.check(caught is boom, "exception-changed", f"{boom!r} became {caught!r}")
        ctx.eq(open_fds(src), 0, "file-left-open", "after failed reading session")
        ctx.eq(rec.file_hash(src), h, "source-changed", "after failed reading session")
        ctx.count("crash_points")
        ctx.seen("reader", cls.__module__, type(boom).__name__)


def case_source(ctx):
    """Simulations of unreadable sources leave the recording alone that they would have replaced."""
    from shepherd_core.data_models import VirtualHarvesterConfig
    from shepherd_core.data_models import VirtualSourceConfig
    from shepherd_core.vsource import simulate_harvester
    from shepherd_core.vsource import simulate_source
    from shepherd_core.vsource.target_model import ResistiveTarget
    from shepherd_data.ivonne import Reader as IReader

    rng, npr = ctx.rng, ctx.np_rng()
    out = ctx.dir / "out.h5"
    rec.rich_h5(out, rng, npr, n=10_000)
    good = ctx.dir / "good.h5"
    with Writer(good, verbose=False) as w:
        execute(w, ("append", rec.iv_arrays(npr, 10_000), True))
    kinds = ["missing", "dir", "text", "cut", "empty", "no_data", "no_current", "no_voltage", "no_time", "same", "none"]
    for kind in rng.sample(kinds, 6):
        src = ctx.dir / f"src_{kind}.h5"
        if kind == "dir":
            src.mkdir()
        elif kind == "text":
            src.write_text("no recording")
        elif kind == "cut":
            src.write_bytes(good.read_bytes()[: rng.choice([100, 2000, good.stat().st_size // 2])])
        elif kind == "empty":
            src.write_bytes(b"")
        elif kind.startswith("no_"):
            src.write_bytes(good.read_bytes())
            with h5py.File(src, "r+") as f:
                del f["data" if kind == "no_data" else f"data/{kind[3:]}"]
        elif kind == "same":
            src = out
        elif kind == "none":
            src = None
        calls = {
            "harvester": lambda src=src: simulate_harvester(VirtualHarvesterConfig(name="cv20"), src, out),
            "source": lambda src=src: simulate_source(VirtualSourceConfig(name="dio_cap"), ResistiveTarget(1000), src, out),
        }

        def convert(src=src):
            with IReader(src, verbose=False) as rd:
                rng.choice([rd.convert_2_ivcurves, rd.upsample_2_isc_voc, rd.convert_2_ivsamples])(out)

        calls["ivonne"] = convert
        for name, call in calls.items():
            h = rec.file_hash(out)
            # errors have many reasons, only their absence is wrong
            ctx.rejects(call, "unreadable-accepted", f"{name} of {kind}")
            ctx.eq(rec.file_hash(out), h, "file-changed-by-rejected-call", f"{name} of unreadable source ({kind})")
            gc.collect()
            ctx.count("unreadable_sources")
            ctx.seen("source", name, kind)
    with Reader(out, verbose=False) as r:
        ctx.check(r.is_valid(), "invalid-file", "existing file after rejected calls")


FAMILIES = {
    "crash": Family(case_crash, quick=60, thorough=1500),
    "storage_fault": Family(case_storage_fault, quick=24, thorough=500),
    "bad_append": Family(case_bad_append, quick=16, thorough=300),
    "ctor": Family(case_ctor, quick=16, thorough=200),
    "reader": Family(case_reader, quick=8, thorough=100),
    "source": Family(case_source, quick=8, thorough=100),
}
