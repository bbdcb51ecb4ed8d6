"""C08: cutting and down-sampling keep the requested time span and signal."""
import h5py
import numpy as np
from shepherd_core import CalibrationSeries
from shepherd_core import Writer as CoreWriter
from shepherd_data import Reader

from vlib import rec
from vlib.core import Family

PROPERTY = "C08"
TECHNIQUE = "trace-conformance monitor: reduced recordings are opened plainly and compared with the span, grid and analytic content of the source signal, across block lengths"
LEVEL_NOTE = "Time grid and cut samples are exact comparisons; filtered values are judged on signals with known low-passed content (constants, slow and fast tones) within a few percent."
RULE = ("A case builds a source recording (constants, slow sines, fast tones, random), span limits inside/outside/at the edges, a factor (1, integer, fractional) and a block "
        "length and compares the result. Signature: factor, span class, signal kind, block length class, rate.")
REQUIRED = {"time_grids": 80, "cut_files": 40, "signals": 60, "impossible": 20, "block_pairs": 40}
ASSUMPTIONS = ["resample() is documented as unfinished and not judged",
               "recordings at the default rate are trimmed to complete buffers when closed (C01)",
               "signal fidelity is judged away from the ends of the filtered span"]


class Src:
    """in-memory dataset, so that block lengths can be chosen freely"""

    def __init__(self, arr):
        self.arr = arr
        self.shape = arr.shape

    def __getitem__(self, k):
        return self.arr[k]


def make(ctx, n, dt, kind, other=0):
    rng, npr = ctx.rng, ctx.np_rng()
    path = ctx.dir / rng.choice(["s.h5", "rec_1.h5"])
    t0 = rng.choice([0, 1_650_000_000_000_000_000])
    t = (t0 + np.arange(n, dtype=np.uint64) * dt).astype(np.uint64)
    if kind == "rand":
        v, c = npr.integers(0, 2**31, n), npr.integers(0, 2**31, n)
    elif kind == "const":
        v, c = np.full(n, rng.choice([0, 1, 5000, 10**9])), np.full(n, rng.choice([1, 77, 2 * 10**9]))
    else:
        x = np.arange(n)
        v = 10**9 + 4e8 * np.sin(2 * np.pi * x / 2000)
        c = 3e8 + 2e8 * np.cos(2 * np.pi * x / 3000)
    kw = {}
    if rng.random() < 0.3:
        kw["config"] = "{virtual_source: {name: x, C: 5}}\n"
    gains = (1e-9, 10 ** rng.uniform(-9, -5), 10 ** rng.uniform(-12, -8))
    offs = (0.0, rng.choice([0.0, 0.25, -0.5]), rng.choice([0.0, 1e-6]))
    kw["mode"] = rng.choice(["harvester", "emulator"])
    if other and rng.random() < 0.3:
        kw.update(mode="harvester", datatype="isc_voc", window=rng.choice([0, 2]))
        if other > 1 and rng.random() < 0.5:
            kw.update(datatype="ivcurve", window=rng.choice([8, 100, 250]))
        ctx.count("other_datatype")
    rec.raw_h5(path, t=t, v=v.astype("u4"), c=c.astype("u4"),
               gains=gains, offsets=offs, hostname=rng.choice(["sheep1", "unknown", "ünï"]), **kw)
    return path, t, v.astype("u4"), c.astype("u4")


def expected_grid(src, s, e, f):
    part = src[s:e:f]
    return part[: (e - s) // f]


def case_block(ctx):
    """downsample() as library call: grid, block independence, destination kinds"""
    rng, npr = ctx.rng, ctx.np_rng()
    n = rng.choice([1, 2, 9, 100, 999, 5000, 20_000])
    path, t, v, c = make(ctx, n, 10_000, rng.choice(["rand", "const", "sine"]))
    f = rng.choice([1, 1, 2, 3, 5, 7, 10, 64, 1.0, 2.5, 9.99, 100, 1e4])
    fi = max(1, int(f))
    s, e = rng.choice([(0, None), (0, n), (rng.randint(0, n), None), (rng.randint(0, n // 2), rng.randint(n // 2, n)), (rng.randint(0, n // 2), n + 50)])
    e_eff = n if e is None else min(e, n)
    s_eff = min(s, e_eff)
    out = {}
    for me in [None, *rng.sample([1, 7, 64, 100, 1000, 4096, 12_345], 3)]:
        with Reader(path, verbose=False) as r:
            if me:
                r.max_elements = me
            kw = {"start_n": s, "ds_factor": f}
            if e is not None:
                kw["end_n"] = e
            a = r.downsample(r.ds_time if me is None else t, None, is_time=True, **kw)
            b = r.downsample(r.ds_voltage if rng.random() < 0.5 else v, None, **kw)
        if s_eff == e_eff:
            ctx.check(a is None or len(a) == 0, "empty-span", f"empty span gave {a!r}")
            continue
        want = expected_grid(t, s_eff, e_eff, fi)
        ctx.check(len(a) == len(want) and np.array_equal(np.asarray(a).astype(np.float64), want.astype(np.float64)), "time-grid",
                  lambda: f"times {a[:4]}.. ({len(a)}) instead of {want[:4]}.. ({len(want)}) for span {s_eff}:{e_eff}, factor {f}, block {me}")
        ctx.eq(len(b), len(want), "value-count", f"samples of the reduced signal (factor {f}, block {me})")
        ctx.count("time_grids")
        if fi == 1:
            ctx.check(np.array_equal(b, v[s_eff:e_eff].astype(float)), "factor-1", "factor 1 has to keep the samples")
        out[me] = np.array(b, dtype=float)
        # destination given as dataset
        if rng.random() < 0.4:
            with h5py.File(ctx.dir / f"dst{me}.h5", "w") as h, Reader(path, verbose=False) as r:
                if me:
                    r.max_elements = me
                d = h.create_dataset("x", (rng.choice([0, 3, 10 * n]),), dtype="u8", maxshape=(None,), chunks=(100,))
                res = r.downsample(r.ds_time, d, is_time=True, **kw)
                ctx.check(res.shape == want.shape and np.array_equal(res[()], want), "time-grid-dataset",
                          lambda: f"dataset got {res[:4]} ({res.shape}) instead of {want[:4]} ({want.shape}), factor {f}, block {me}")
                ctx.count("dataset_dst")
    if len(out) > 1:
        ref = out[None]
        for me, arr in out.items():
            ctx.check(arr.shape == ref.shape and np.allclose(arr, ref, rtol=1e-6, atol=1), "block-dependence",
                      lambda: f"block {me} gives {arr[:5]}, default {ref[:5]} max diff {np.abs(arr - ref).max() if arr.shape == ref.shape else 'shape'}")
            ctx.count("block_pairs")
    ctx.seen("block", f, s_eff == e_eff, s == 0, e is None, n)


def case_signal(ctx):
    """the reduced signal follows the low-passed source"""
    rng, npr = ctx.rng, ctx.np_rng()
    n = rng.choice([5000, 30_000])
    path, *_ = make(ctx, 100, 10_000, "const")
    f = rng.choice([2, 3, 5, 10, 25, 100])
    kind = rng.choice(["const", "slow", "slow+fast", "ramp"])
    n = max(n, 200 * f)
    x = np.arange(n)
    base = rng.choice([5.0, 1e3, 1e9])
    period = f * rng.choice([40, 80, 150])
    slow = base + 0.4 * base * np.sin(2 * np.pi * x / period + rng.random() * 6)
    if kind == "const":
        sig = np.full(n, base)
        ref = sig.copy()
    elif kind == "slow":
        sig = ref = slow
    elif kind == "ramp":
        sig = ref = base * (1 + x / n)
    else:
        # tone above the new nyquist-frequency, well in the stop-band of the filter
        pf = rng.choice([2.0, rng.uniform(2.0, 2.4)]) if f == 2 else max(2.0, f * rng.uniform(0.75, 1.0))
        sig = slow + 0.3 * base * np.cos(2 * np.pi * x / pf)
        ctx.count("signals_with_fast_tone")
        ref = slow
    s = rng.choice([0, 0, 137])
    if kind == "const" and rng.random() < 0.5:  # constant in the requested span only
        s0, e0 = rng.choice([1, 137, n // 3]), n - rng.choice([1, 55])
        sig2 = sig.copy()
        sig2[:s0] = rng.choice([0.0, 3 * base])
        sig2[e0:] = 7 * base
        ctx.count("other_level_outside")
        with Reader(path, verbose=False) as r:
            b = r.downsample(sig2, None, start_n=s0, end_n=e0, ds_factor=f)
        ctx.check(len(b) == (e0 - s0) // f and np.allclose(b, base, rtol=1e-6), "constant", lambda: f"constant {base} became {b.min()}..{b.max()} (factor {f}, span {s0}:{e0})")
    with Reader(path, verbose=False) as r:
        r.max_elements = rng.choice([50, 1000, 10**6])
        b = r.downsample(sig, None, start_n=s, ds_factor=f)
    want = expected_grid(ref, s, n, f)
    ctx.eq(len(b), len(want), "value-count", "reduced samples")
    if kind == "const":
        ctx.check(np.allclose(b, base, rtol=1e-6), "constant", lambda: f"constant {base} became {b.min()}..{b.max()} (factor {f})")
    else:
        # the filter is causal: allow its delay by finding the best shift (fractions of output samples)
        fine = ref[s:]
        best = np.inf
        idx = np.arange(len(want)) * f
        lo = 30
        for shift in range(0, 6 * f + 1, max(1, f // 8)):
            sel = idx[lo:-lo] - shift
            ok = sel >= 0
            err = np.abs(b[lo:-lo][ok] - fine[sel[ok]]).max() / base
            best = min(best, err)
        lim = 0.05 if kind != "slow+fast" else 0.08
        ctx.check(best < lim, "signal", f"{kind} signal, factor {f}, period {period}: deviates by {best:.1%} from the low-passed source")
        e_src, e_dst = np.mean(fine[: len(want) * f] ** 2), np.mean(b**2)
        if len(want) * f > 8 * period or kind == "ramp":
            ctx.check(abs(e_dst / e_src - 1) < 0.06, "signal-energy", f"{kind}: mean power {e_dst} vs {e_src}, factor {f}")
    ctx.count("signals")
    ctx.seen("signal", kind, f, base, s)


def case_file(ctx):
    rng = ctx.rng
    dt = rng.choice([10_000, 10_000, 20_000, 1_000_000, 100_000])
    n = rng.choice([20_000, 30_000, 20_400])
    if dt == 10_000:
        n = rng.choice([20_000, 50_000, 120_000])
    kind = rng.choice(["rand", "const", "sine"])
    f = rng.choice([1, 1, 1, 2, 3, 5, 10, 2.5])
    path, t, v, c = make(ctx, n, dt, kind, 2 if f == 1 else 1)
    src_hash = rec.file_hash(path)
    rate = 1e9 / dt
    dur = n / rate
    fi = int(f)
    fr = lambda: rng.choice([rng.random(), rng.randint(0, 20) / 20])  # noqa: E731
    span = rng.choice(["full", "start", "end", "both", "outside", "full-explicit"])
    a = {"full": None, "start": dur * 0.5 * fr(), "end": None, "both": dur * 0.4 * fr(), "outside": -1.5, "full-explicit": 0}[span]
    b = {"full": None, "start": None, "end": dur * (0.5 + 0.5 * fr()), "both": dur * (0.6 + 0.4 * fr()), "outside": dur + 10, "full-explicit": dur}[span]
    with Reader(path, verbose=False) as r:
        if rng.random() < 0.5:
            r.max_elements = rng.choice([1000, 4096, 10_000])
        mode, dtyp, win, cal, host, conf = (r.get_mode(), r.get_datatype(), r.get_window_samples(), r.get_calibration_data(), r.get_hostname(), r.get_config())
        s0 = round(max(0, a or 0) * rate)
        e0 = round(min(dur, dur if b is None else b) * rate)
        if (e0 - s0) / f < 1001 and (e0 - s0) / f > 998:
            return
        if (e0 - s0) / f < 1000:
            before = rec.dir_state(ctx.dir)
            ctx.rejects(lambda: r.cut_and_downsample_to_file(a, b, f), "tiny-accepted", f"{e0 - s0} samples, factor {f}", (ValueError,))
            ctx.eq(rec.dir_state(ctx.dir), before, "left-files", "files after rejected span")
            ctx.count("impossible")
            return
        before = set(ctx.dir.iterdir())
        out = r.cut_and_downsample_to_file(a, b, f)
        new = set(ctx.dir.iterdir()) - before
    ctx.eq(rec.file_hash(path), src_hash, "source-changed", "bytes of the source")
    ctx.check(out.exists() and (out.resolve() == path.resolve() or {p.resolve() for p in new} == {out.resolve()}), "output-path", f"returned {out}, new files {new}")
    ctx.check(path.exists(), "source-changed", "source is gone")
    if out.resolve() == path.resolve():
        ctx.check(s0 == 0 and e0 == n and fi == 1, "no-output", f"span {a}..{b}, factor {f} returned the source file")
        ctx.count("uncut")
        return
    with h5py.File(out, "r") as h:
        dst = {k: h["data"][k][()] for k in ("time", "voltage", "current")}
        at = {k: dict(h["data"][k].attrs) for k in dst}
    with Reader(out, verbose=False) as q:
        ctx.eq(q.get_mode(), mode, "metadata", "mode")
        ctx.eq(q.get_datatype(), dtyp, "metadata", "data type")
        ctx.eq(q.get_window_samples(), win, "metadata", "window")
        ctx.eq(q.get_hostname(), host, "metadata", "hostname")
        ctx.eq(q.get_config(), conf, "metadata", "config")
        ctx.check(q.is_valid(), "invalid-output", "reduced recording is judged invalid")
        cal2 = q.get_calibration_data()
        for k in ("time", "voltage", "current"):
            ctx.eq((cal2[k].gain, cal2[k].offset), (cal[k].gain, cal[k].offset), "calibration", k)
        out_rate = q.samplerate_sps
    want = {"time": expected_grid(t, s0, e0, fi)}
    ln = len(want["time"])
    if dt * fi == 10_000:
        ln -= ln % 10_000
    for k in dst:
        ctx.eq(len(dst[k]), ln, "length", f"samples of {k} in span {s0}:{e0}, factor {f} (dt={dt})")
    ctx.check(np.array_equal(dst["time"], want["time"][:ln]), "time-grid",
              lambda: f"first times {dst['time'][:3]} expected {want['time'][:3]}; span {s0}:{e0} factor {f}")
    if ln > 2:
        ctx.check(abs(out_rate - rate / fi) <= 1, "rate", f"rate of result {out_rate}, source {rate}, factor {fi}")
    if fi == 1:
        ctx.check(np.array_equal(dst["voltage"], v[s0:e0][:ln]), "cut-values", f"voltage of cut {s0}:{e0}")
        ctx.check(np.array_equal(dst["current"], c[s0:e0][:ln]), "cut-values", f"current of cut {s0}:{e0}")
    elif kind == "const":
        for k, x in (("voltage", v), ("current", c)):
            ctx.check(ln == 0 or np.abs(dst[k].astype(np.int64) - int(x[0])).max() <= 1 + 1e-6 * int(x[0]), "constant",
                      lambda: f"constant {k} {x[0]} became {dst[k].min()}..{dst[k].max()}")
    elif kind == "sine" and ln > 2000:
        for k, x in (("voltage", v), ("current", c)):
            src = x[s0 : s0 + ln * fi].astype(float)
            ctx.check(abs(dst[k].astype(float).mean() / src.mean() - 1) < 0.02, "mean", f"mean of {k}: {dst[k].mean()} vs {src.mean()}")
            p1, p2 = np.mean(dst[k].astype(float) ** 2), np.mean(src**2)
            ctx.check(abs(p1 / p2 - 1) < 0.03, "signal-energy", f"power of {k}: {p1} vs {p2}")
            if fi <= 10:
                d = np.abs(dst[k].astype(float)[50:-50] - src[::fi][50 : len(dst[k]) - 50]).max() / src.max()
                ctx.check(d < 0.3, "signal", f"{k} deviates by {d:.1%}")
    # repeated call keeps the existing output
    h1 = rec.file_hash(out)
    before = set(ctx.dir.iterdir())
    with Reader(path, verbose=False) as r:
        again = r.cut_and_downsample_to_file(a, b, f)
    ctx.eq(set(ctx.dir.iterdir()), before, "repeat", "files after repeated call")
    ctx.eq(again.resolve(), out.resolve(), "repeat", "path of repeated call")
    ctx.eq(rec.file_hash(out), h1, "repeat", "bytes of existing output")
    ctx.count("cut_files")
    ctx.seen("file", span, f, dt, kind)
    ctx.sample({"span": (a, b), "factor": f, "dt_ns": dt, "n": n, "result": ln})


def case_impossible(ctx):
    rng = ctx.rng
    n = rng.choice([500, 2000, 20_000])
    dt = rng.choice([10_000, 1_000_000])
    path, *_ = make(ctx, n, dt, "const")
    dur = n * dt * 1e-9
    a, b, f = rng.choice([
        (dur * 0.8, dur * 0.2, 1), (None, None, 0.5), (None, None, 0), (None, None, -2), (None, None, n), (dur * 0.9, None, 1 + n / 1000 if n > 2000 else 5),
        (dur, None, 1), (dur * 2, None, 1), (None, 0.0, 1), (None, -1.0, 1), (dur * 0.5, dur * 0.5, 1), (dur * 0.3, dur * 0.3 + 900 * dt * 1e-9, 1),
    ])
    before = rec.dir_state(ctx.dir)
    with Reader(path, verbose=False) as r:
        ctx.rejects(lambda: r.cut_and_downsample_to_file(a, b, f), "impossible-accepted", f"span {a}..{b}, factor {f} on {dur} s", (ValueError,))
    ctx.eq(rec.dir_state(ctx.dir), before, "left-files", f"files after rejected span {a}..{b}, factor {f}")
    ctx.count("impossible")
    ctx.seen("imp", a is None or round(a / dur, 2), b is None or round(b / dur, 2), f, n)


def case_writer_cal(ctx):
    """source made by the library itself, incl. real calibration"""
    rng, npr = ctx.rng, ctx.np_rng()
    path = ctx.dir / "lib.h5"
    cal = CalibrationSeries(voltage={"gain": 2e-6, "offset": 0.01}, current={"gain": 3e-9, "offset": 0})
    n = rng.choice([2, 5]) * 10_000
    with CoreWriter(path, mode=rng.choice(["harvester", "emulator"]), datatype="ivsample", cal_data=cal, verbose=False) as w:
        w.store_hostname("hörnchen")
        w.append_iv_data_raw(1_000_000_000, npr.integers(0, 2**18, n).astype("u4"), npr.integers(0, 2**18, n).astype("u4"))
    f = rng.choice([1, 2, 4])
    with Reader(path, verbose=False) as r:
        e = r.energy()
        out = r.cut_and_downsample_to_file(0.05 if f == 1 else None, None, f)
    with Reader(out, verbose=False) as q:
        ctx.eq(q.get_hostname(), "hörnchen", "metadata", "hostname")
        c2 = q.get_calibration_data()
        ctx.eq((c2.voltage.gain, c2.voltage.offset, c2.current.gain), (2e-6, 0.01, 3e-9), "calibration", "stored calibration")
        if f > 1:
            # white noise: product of means is preserved
            ctx.check(abs(q.energy() / e - 1) < 0.05, "energy", f"energy {q.energy()} vs {e}")
        ctx.check(q.is_valid(), "invalid-output", "judged invalid")
    ctx.count("lib_sources")
    ctx.seen("lib", f, n)


FAMILIES = {
    "block": Family(case_block, quick=240, thorough=9000),
    "signal": Family(case_signal, quick=240, thorough=9000),
    "file": Family(case_file, quick=240, thorough=6000),
    "impossible": Family(case_impossible, quick=120, thorough=1800),
    "lib": Family(case_writer_cal, quick=30, thorough=360),
}
