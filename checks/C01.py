"""C01: recorded samples are read back complete, unchanged and in order."""
import numpy as np
from shepherd_core import Reader
from shepherd_core import Writer
from shepherd_core import CalibrationPair
from shepherd_core import CalibrationSeries
from shepherd_core.data_models.task import Compression
from shepherd_data import Reader as DReader

from vlib import rec
from vlib.core import Family

PROPERTY = "C01"
TECHNIQUE = "history monitor: append/read histories checked against an executable list model"
LEVEL_NOTE = ("Observes thousands of append/read calls on generated histories and compares every yielded block and the file "
              "(re-read with plain h5py) with a list model; says nothing about values beyond the 32-bit raw range.")
RULE = ("A case is a history of 1-3 writer sessions with random append calls (raw or SI, start time or per-sample times, "
        "lengths 0..26k incl. buffer borders and unequal channels) followed by random block reads; non-trivial = at least one sample survived and one block compared. "
        "Signature: (session shapes, append kinds, read parameters).")
REQUIRED = {"large_appends": 8, "appends": 50, "blocks_compared": 200, "samples_compared": 100_000, "reopened_sessions": 5}
ASSUMPTIONS = ["physical values within the representable raw range (clipping above is a documented TODO)"]

T0 = 1_650_000_000_000_000_000


class Model:
    def __init__(self):
        self.t = np.zeros(0, np.uint64)
        self.v = np.zeros(0, np.uint32)
        self.c = np.zeros(0, np.uint32)
        self.t_tol = np.zeros(0)  # in raw units, for SI appended data
        self.v_tol = np.zeros(0)

    def __len__(self):
        return len(self.t)

    def append(self, t, v, c, t_tol=0.0, vc_tol=0.0):
        n = min(len(t), len(v), len(c))
        self.t = np.concatenate([self.t, np.asarray(t[:n]).astype(np.uint64)])
        self.v = np.concatenate([self.v, np.asarray(v[:n]).astype(np.uint32)])
        self.c = np.concatenate([self.c, np.asarray(c[:n]).astype(np.uint32)])
        self.t_tol = np.concatenate([self.t_tol, np.full(n, t_tol)])
        self.v_tol = np.concatenate([self.v_tol, np.full(n, vc_tol)])

    def trim(self):
        n = len(self) // rec.BUF * rec.BUF
        for k in ("t", "v", "c", "t_tol", "v_tol"):
            setattr(self, k, getattr(self, k)[:n])


def rate_of(m: Model):
    if len(m) < 2:
        return 100_000
    d = int(m.t[-1]) - int(m.t[0])
    return 100_000 if d <= 0 else max(round((len(m) - 1) / (d * 1e-9)), 1)


def adiff(a, b):
    a = a.astype(np.int64)
    b = b.astype(np.int64)
    return np.abs(a - b)


def cmp_raw(ctx, m, sl, blk, what, with_ts=True):
    t, v, c = blk
    n = len(m.v[sl])
    ctx.eq((len(v), len(c)), (n, n), "block-length", what)
    if with_ts:
        ctx.eq(len(t), n, "block-length", what + " time")
        ctx.check(np.all(adiff(t, m.t[sl]) <= m.t_tol[sl]), "time-differs", f"{what}: timestamps differ from appended ones",
                  (t[:4], m.t[sl][:4]))
    else:
        ctx.check(t is None, "time-not-omitted", what)
    ctx.check(np.all(adiff(v, m.v[sl]) <= m.v_tol[sl]), "voltage-differs", f"{what}: voltage differs")
    ctx.check(np.all(adiff(c, m.c[sl]) <= m.v_tol[sl]), "current-differs", f"{what}: current differs")
    ctx.count("blocks_compared")
    ctx.count("samples_compared", n)


def cmp_si(ctx, m, sl, blk, cal, what, with_ts=True):
    t, v, c = blk
    n = len(m.v[sl])
    ctx.eq((len(v), len(c)), (n, n), "block-length", what)
    for name, got, raw, tol in (("voltage", v, m.v[sl], m.v_tol[sl]), ("current", c, m.c[sl], m.v_tol[sl])):
        g, o = getattr(cal, name).gain, getattr(cal, name).offset
        want = raw.astype(np.float64) * g + o
        lim = tol * g + 1e-12 * (np.abs(want) + abs(o)) + 1e-18
        ctx.check(np.all(np.abs(got - want) <= lim), f"{name}-si-differs", f"{what}: physical {name} is not raw*gain+offset",
                  (got[:3], want[:3]))
    if with_ts:
        want = m.t[sl].astype(np.float64) * cal.time.gain + cal.time.offset
        ctx.eq(len(t), n, "block-length", what + " time")
        ctx.check(np.all(np.abs(t - want) <= m.t_tol[sl] * cal.time.gain + 1e-15 * np.abs(want) + 1e-12), "time-si-differs", what)
    else:
        ctx.check(t is None, "time-not-omitted", what)
    ctx.count("blocks_compared")
    ctx.count("samples_compared", n)


def rand_cal(rng):
    if rng.random() < 0.4:
        return None, CalibrationSeries()
    cal = CalibrationSeries(
        voltage=CalibrationPair(gain=10 ** rng.uniform(-9, -6), offset=rng.choice([0, rng.uniform(-1e-2, 1e-2)])),
        current=CalibrationPair(gain=10 ** rng.uniform(-12, -9), offset=rng.choice([0, rng.uniform(-1e-4, 1e-4)])),
        time=CalibrationPair(gain=1e-9, offset=rng.choice([0, 0, 0, 1.5, -12.25])),
    )
    return cal, cal


def do_append(ctx, w, m, cal, interval, next_t, *, use_array):
    """One append call; returns start time for the next one."""
    rng, npr = ctx.rng, ctx.np_rng()
    n = rec.rand_len(rng)
    nv = n
    nc = n if rng.random() < 0.75 else max(0, n + rng.choice([-1, 1, -17, 250, -n]))
    v, c = rec.rand_u32(npr, nv), rec.rand_u32(npr, nc)
    k = min(nv, nc)
    gap = 0
    start = next_t + gap
    nt = k
    ts_arr = (start + np.arange(k, dtype=np.uint64) * np.uint64(interval)).astype(np.uint64)
    kind = rng.choice(["raw", "raw", "si"])
    if use_array:
        if rng.random() < 0.3 and k > 3:
            nt = k - rng.randint(1, 3)
        elif rng.random() < 0.3:
            nt = k + 5
        ts_full = (start + np.arange(nt, dtype=np.uint64) * np.uint64(interval)).astype(np.uint64)
    ctx.count("appends")
    ctx.count(f"append_{kind}_{'array' if use_array else 'start'}")
    if kind == "raw":
        cast = rng.choice([np.uint32, np.uint32, np.int64, np.float64])
        vv, cc = v.astype(cast), c.astype(cast)
        snap = (vv.copy(), cc.copy())
        if use_array:
            w.append_iv_data_raw(ts_full, vv, cc)
            m.append(ts_full, v, c)
        else:
            arg = rng.choice([int(start), float(start)])
            w.append_iv_data_raw(arg, vv, cc)
            st = int(arg)
            m.append(st + np.arange(k, dtype=np.uint64) * np.uint64(interval), v, c, 0 if st == start else 1e-6)
        ctx.check(np.array_equal(vv, snap[0]) and np.array_equal(cc, snap[1]), "input-modified", "append changed the caller's arrays")
    else:
        vsi = v.astype(np.float64) * cal.voltage.gain + cal.voltage.offset
        csi = c.astype(np.float64) * cal.current.gain + cal.current.offset
        jit = rng.random() < 0.6
        if jit:  # between two raw steps -> nearest raw value (half a step)
            vsi += npr.uniform(-0.45, 0.45, len(vsi)) * cal.voltage.gain
            csi += npr.uniform(-0.45, 0.45, len(csi)) * cal.current.gain
        snap = (vsi.copy(), csi.copy())
        t_tol = 1100.0  # float64 seconds around 1.65e9 resolve 240 ns, two roundings
        if use_array:
            tsi = ts_full.astype(np.float64) * cal.time.gain + cal.time.offset
            tsnap = tsi.copy()
            w.append_iv_data_si(tsi, vsi, csi)
            ctx.check(np.array_equal(tsi, tsnap), "input-modified", "append changed the caller's timestamps")
            m.append(ts_full, v, c, t_tol, 0 if not jit else 0)
        else:
            w.append_iv_data_si(float(start) * cal.time.gain + cal.time.offset, vsi, csi)
            m.append(ts_arr, v, c, t_tol, 0)
        ctx.check(np.array_equal(vsi, snap[0]) and np.array_equal(csi, snap[1]), "input-modified", "append changed the caller's arrays")
    got = min(k, nt)
    # the step between neighbours must be exact for start-time appends
    if not use_array and got > 1:
        d = np.diff(w.h5file["data"]["time"][-got:].astype(np.int64))
        ctx.check(np.all(d == interval), "time-spacing",
                  f"start-time append: spacing {np.unique(d)[:4]} ns instead of sample interval {interval} ns")
    return start + got * interval, (kind, use_array, rec_bucket(nv), rec_bucket(nc))


def rec_bucket(n):
    return n if n in (0, 1, 9999, 10000, 10001) else int(np.log2(n + 1))


def read_checks(ctx, src, m, cal, rounds):
    rng = ctx.rng
    ctx.eq(src.ds_voltage.shape[0], len(m), "length", "samples in recording")
    for _ in range(rounds):
        nb = rng.choice([None, None, 10_000, 1 + int(10 ** rng.uniform(0, 4.5)), 9_999, 10_001])
        eff = 10_000 if nb is None else nb
        n_blocks = len(m) // eff
        lo = rng.choice([0, 0, rng.randint(0, n_blocks + 1)])
        hi = rng.choice([None, n_blocks, rng.randint(0, n_blocks + 2), lo + 3])
        stop = n_blocks if hi is None else min(hi, n_blocks)
        if stop - lo > 400:  # bound the work for tiny blocks
            lo = rng.randint(0, stop - 300)
            hi = stop = lo + 300
        raw, omit = rng.random() < 0.5, rng.random() < 0.3
        kw = {"is_raw": raw, "omit_ts": omit}
        if nb is not None:
            kw["n_samples_per_buffer"] = nb
        what = f"read_buffers(start={lo}, end={hi}, n={nb}, raw={raw}, omit_ts={omit})"
        gen = src.read_buffers(start_n=lo, end_n=hi, **kw)
        other = src.read_buffers(start_n=0, is_raw=True)  # interleaved second reader
        i = lo
        for blk in gen:
            if rng.random() < 0.05:
                next(other, None)
            sl = slice(i * eff, (i + 1) * eff)
            ctx.check(i < stop, "too-many-blocks", what)
            (cmp_raw(ctx, m, sl, blk, what, not omit) if raw else cmp_si(ctx, m, sl, blk, cal, what, not omit))
            i += 1
        ctx.eq(i - lo, max(0, stop - lo), "block-count", what)
        ctx.count("reads")
        if stop > lo:
            ctx.seen("read", rec_bucket(eff), raw, omit, min(lo, 3), hi is None, min(stop - lo, 5))


def case_history(ctx):
    rng = ctx.rng
    cal_arg, cal = rand_cal(rng)
    path = ctx.dir / rng.choice([".", ".", ".", "day1", "year/day 1"]) / "rec.h5"  # directories are created when missing
    m = Model()
    sessions = rng.choice([1, 1, 2, 3])
    default_rate = rng.random() < 0.75
    interval = 10_000 if default_rate else rng.choice([1_000_000, 250_000, 123_457, 5_000, 9_950, 10_050])
    next_t = rng.choice([T0, T0, 0, 1, 2**62])
    compression = rng.choice([Compression.default, Compression.lzf, Compression.gzip1, Compression.null, None])
    sig = []
    for s in range(sessions):
        n_app = rng.choice([0, 1, 1, 2, 3, 5, 9])
        kw = {} if s else {"cal_data": cal_arg, "compression": compression}
        if cal.time.offset != 0 and next_t < 10**12:
            next_t = 10**12
        with Writer(path, modify_existing=s > 0, verbose=False, **kw) as w:
            ctx.eq(w.file_path.name, "rec.h5", "path", "target file")
            if s:
                ctx.count("reopened_sessions")
                read_checks(ctx, w, m, cal, 1)
            for _ in range(n_app):
                use_array = (not default_rate) or rng.random() < 0.4
                if s and m.t_tol.any():  # float seconds blur the interval measured from a short file
                    use_array = True
                next_t, asig = do_append(ctx, w, m, cal, interval, next_t, use_array=use_array)
                sig.append(asig)
                if rng.random() < 0.3:
                    read_checks(ctx, w, m, cal, 1)
        d = rec.h5_data(path)
        blurred = m.t_tol.any() and abs(rate_of(m) - 100_000) < 3000
        if blurred and len(d["time"]) != len(m):
            m.trim()  # measured rate is only near the default one: both outcomes are legitimate
        elif not blurred and (rate_of(m) == 100_000 or len(m) < 2):
            m.trim()
        ctx.eq([len(d[k]) for k in d], [len(m)] * 3, "length-after-close", f"channel lengths (rate {rate_of(m)})")
        ctx.check(str(d["time"].dtype) == "uint64" and str(d["voltage"].dtype) == "uint32" and str(d["current"].dtype) == "uint32",
                  "dtype", "container types of the channels")
        cmp_raw(ctx, m, slice(None), (d["time"], d["voltage"], d["current"]), "file content (plain h5py)")
        if len(m):
            next_t = int(m.t[-1]) + interval
    for cls in (Reader, DReader):
        with cls(path, verbose=False) as r:
            read_checks(ctx, r, m, cal, 3)
    if len(m):
        ctx.seen(sessions, default_rate, str(compression), tuple(sig))
        ctx.sample({"sessions": sessions, "interval_ns": interval, "appends": sig, "samples_kept": len(m)})


def case_si_step(ctx):
    """Physical values come back within half a conversion step; negative raw clips to zero."""
    rng, npr = ctx.rng, ctx.np_rng()
    cal_arg, cal = rand_cal(rng)
    n = 10_000
    path = ctx.dir / "si.h5"
    hi_v = cal.voltage.gain * (2**32 - 2)
    hi_c = cal.current.gain * (2**32 - 2)
    v = npr.uniform(0, 1, n) ** rng.choice([1, 4, 12]) * hi_v + cal.voltage.offset
    c = npr.uniform(0, 1, n) ** rng.choice([1, 4, 12]) * hi_c + cal.current.offset
    neg = npr.integers(0, n, 20)
    v[neg] = cal.voltage.offset - npr.uniform(0, 1, 20)
    c[neg] = cal.current.offset - npr.uniform(0, 1e-3, 20)
    with Writer(path, cal_data=cal_arg, verbose=False) as w:
        w.append_iv_data_si(1.6e9, v, c)
    with Reader(path, verbose=False) as r:
        blks = list(r.read_buffers())
    ctx.eq(len(blks), 1, "block-count", "one buffer")
    for name, got, want in (("voltage", blks[0][1], v), ("current", blks[0][2], c)):
        p = getattr(cal, name)
        pos = np.ones(n, bool)
        pos[neg] = False
        err = np.abs(got - want)[pos]
        ctx.check(np.all(err <= p.gain * 0.5 * (1 + 1e-6) + 1e-12 * np.abs(want[pos])), f"{name}-resolution",
                  f"{name} off by {err.max() / p.gain:.3f} conversion steps")
        ctx.check(np.allclose(got[neg], p.offset, rtol=1e-12, atol=1e-18), f"{name}-clip", "negative raw values clip to zero")
    ctx.count("samples_compared", 2 * n)
    ctx.count("si_resolution_cases")
    ctx.seen("si", round(np.log10(cal.voltage.gain), 1), round(np.log10(cal.current.gain), 1))


def case_large(ctx):
    """One append that carries several seconds of data (a long capture handed over at once)."""
    rng, npr = ctx.rng, ctx.np_rng()
    cal_arg, cal = rand_cal(rng)
    path = ctx.dir / "large.h5"
    m = Model()
    n = rng.choice([430_000, 650_000, 1_000_000]) + rng.randint(0, 20_000)
    start = rng.choice([T0, T0 + 4_294_967_296, 10**12])
    small = rng.choice([0, 137, 10_000])
    iv = np.uint64(10_000)
    kind = rng.choice(["raw", "raw_array", "si", "si_array"])
    with Writer(path, cal_data=cal_arg, verbose=False, compression=rng.choice([Compression.lzf, Compression.null])) as w:
        nxt = start
        for k in (small, n, 10_000):
            v, c = rec.rand_u32(npr, k), rec.rand_u32(npr, k)
            t = np.uint64(nxt) + np.arange(k, dtype=np.uint64) * iv
            if kind == "raw":
                w.append_iv_data_raw(int(nxt), v, c)
                m.append(t, v, c)
            elif kind == "raw_array":
                w.append_iv_data_raw(t, v, c)
                m.append(t, v, c)
            else:
                vs = v.astype(np.float64) * cal.voltage.gain + cal.voltage.offset
                cs = c.astype(np.float64) * cal.current.gain + cal.current.offset
                ts = t.astype(np.float64) * cal.time.gain + cal.time.offset if kind == "si_array" else nxt * cal.time.gain + cal.time.offset
                w.append_iv_data_si(ts, vs, cs)
                m.append(t, v, c, 1100.0, 0)
            if k and not kind.endswith("array"):
                d = np.diff(w.h5file["data"]["time"][-k:].astype(np.int64))
                ctx.check(np.all(d == 10_000), "time-spacing",
                          f"start-time append of {k} samples: spacing {np.unique(d)[:4]} ns instead of 10000 ns")
            nxt += k * 10_000
            ctx.count("appends")
    ctx.count("large_appends")
    d = rec.h5_data(path)
    full = len(m)
    if len(d["time"]) != full:
        m.trim()
    if kind.startswith("raw"):  # exact times -> rate is the default one, fixed border applies
        m.trim()
    ctx.eq([len(d[k]) for k in d], [len(m)] * 3, "length-after-close", f"channel lengths of {full} appended samples")
    cmp_raw(ctx, m, slice(None), (d["time"], d["voltage"], d["current"]), "file content (plain h5py)")
    with Reader(path, verbose=False) as r:
        read_checks(ctx, r, m, cal, 2)
    ctx.seen("large", kind, n // 100_000, small, start == 10**12)


FAMILIES = {
    "large": Family(case_large, quick=12, thorough=120),
    "history": Family(case_history, quick=400, thorough=8000),
    "si_step": Family(case_si_step, quick=40, thorough=800),
}
