"""C25: imported solar traces become physically faithful recordings."""
from __future__ import annotations

import contextlib
import io
import pickle
from pathlib import Path

import h5py
import numpy as np

from vlib.core import Ctx
from vlib.core import Family
from vlib.rec import file_hash

PROPERTY = "C25"
TECHNIQUE = "runtime monitoring of imports: every recording is audited against an independent single-diode model of the source entries"
LEVEL_NOTE = "Generated traces (rates on and beside the sample grid, dark and flickering light, offsets, short traces, all trackers, small internal blocks) are imported, every source instant and the envelope in between is compared with an own model."
RULE = ("A case imports a random trace with one of the three converters and audits all samples. Signature: converter, tracker, rate class, light class, trimmed, block count, offset.")
REQUIRED = {"imports": 100, "instants": 4000, "curves": 150, "trimmed": 30, "multi_block": 30, "offgrid_rates": 20, "dark_entries": 30, "short_traces": 8, "tracker_rows": 400, "rejected": 20,
            "existing_kept": 8, "envelope_samples": 10**6, "tracker_order": 20}
ASSUMPTIONS = [
    "between the entries of a source any smooth interpolation is accepted that stays near the neighbouring entries, the entries themselves have to be met",
    "the recording covers the time between the first and the last used entry, in complete buffers of 0.1 s",
]


def model(v, a, b, c):
    """Single diode: current never negative."""
    return np.maximum(0.0, a - b * (np.exp(c * v) - 1.0))


def rand_source(ctx: Ctx, n: int, dt: float, t0: float):
    import pandas as pd

    rng, npr = ctx.rng, ctx.np_rng()
    k = np.arange(n)
    light = rng.choice(["smooth", "noise", "flicker", "dark", "partial"])
    a0 = 10 ** rng.uniform(-5, -2)
    a = np.full(n, a0)
    if light == "smooth":
        a = a0 * (1 + 0.5 * np.sin(k * rng.uniform(0.02, 0.3)))
    elif light == "noise":
        a = a0 * npr.uniform(0.7, 1.3, n)
    elif light == "flicker":
        a = np.where((k // rng.randint(1, 9)) % 2, a0, 0.2 * a0)
    elif light == "dark":
        a = np.zeros(n)
    else:
        a = np.where((k // rng.randint(2, 12)) % 2, a0, 0.0)
    b = a0 * 10 ** rng.uniform(-6, -2.5) * npr.uniform(0.8, 1.2, n)
    c = rng.uniform(1.2, 6) * npr.uniform(0.95, 1.05, n)
    df = pd.DataFrame({"time": t0 + dt * k, "a": a, "b": b, "c": c})
    if rng.random() < 0.3:
        df = df[rng.sample(list(df.columns), 4)]
    ctx.count("dark_entries", int((a == 0).sum()))
    return df, light


def expectation(kind: str, df, v_max: float, tracker):
    """Values of both channels at every source entry."""
    a, b, c = (df[x].to_numpy() for x in "abc")
    voc = np.minimum(np.log(a / b + 1) / c, v_max)
    if kind == "isc_voc":
        return voc, a, voc
    vp = np.linspace(0, tracker.v_max, tracker.pts_per_curve)
    v, i = np.empty(len(a)), np.empty(len(a))
    for k in range(len(a)):
        cur = model(vp, a[k], b[k], c[k])
        if tracker.__class__.__name__ == "OptimalTracker":
            pos = int(np.argmax(vp * cur))
        else:
            pos = max(0, int((vp < tracker.ratio * voc[k]).sum()) - 1)
        v[k], i[k] = vp[pos], cur[pos]
    return v, i, voc


@contextlib.contextmanager
def blocks(mod, block: int | None):
    """The importer works in blocks of that many output-samples."""
    if block is None:
        yield
        return
    orig = mod.Writer

    class Small(orig):
        def __init__(self, *a, **kw) -> None:
            super().__init__(*a, **kw)
            self.max_elements = block

    mod.Writer = Small
    try:
        yield
    finally:
        mod.Writer = orig


def read(path: Path):
    with h5py.File(path, "r") as f:
        d = f["data"]
        r = {k: d[k][()] for k in ("time", "voltage", "current")}
        r["cal"] = {k: (float(d[k].attrs["gain"]), float(d[k].attrs["offset"])) for k in ("time", "voltage", "current")}
        r["meta"] = (f.attrs["mode"], d.attrs["datatype"], int(d.attrs["window_samples"]), f.attrs.get("hostname"))
    return r


def f_import(ctx: Ctx) -> None:
    from shepherd_core import Reader as CoreReader
    from shepherd_data import ivonne
    from shepherd_data import mppt

    rng = ctx.rng
    kind = rng.choice(["ivcurve", "ivsample", "ivsample", "isc_voc"])
    sps = rng.choice([50, 50, 50, 100, 25, 1000, 60, 49, 7, 33])
    ctx.count("offgrid_rates", sps in (60, 49, 7, 33))
    short = rng.random() < 0.12
    n = rng.randint(1, 5) if short else max(6, int(sps * rng.uniform(0.15, 1.3))) + rng.randint(0, 4)
    n = min(n, 500)
    ctx.count("short_traces", short)
    t0 = rng.choice([0.0, 0.0, 0.0, 12.5, 3.12345, 1000.0])
    df, light = rand_source(ctx, n, 1.0 / sps, t0)
    src = ctx.dir / "trace.iv"
    with src.open("wb") as f:
        pickle.dump(df, f)
    h0 = file_hash(src)
    dur = None
    if rng.random() < 0.5:
        dur = rng.choice([round(rng.uniform(0.02, 1.5), 2), rng.choice([0.1, 0.2, 0.3, 0.4, 0.7, 1.1, 1.3]), 5, 1])
    v_max = rng.choice([5.0, 5.0, 3.0, 4.5])
    pts = rng.choice([1000, 1000, 100, 300, 500, 250, 77]) if kind == "ivcurve" else None
    block = rng.choice([None, None, 10_000, 20_000, 35_000, 60_000])
    block = None if block is None else max(block, 2 * 100_000 // sps + 1)
    tracker = None
    if kind == "ivsample" and rng.random() < 0.75:
        p = rng.choice([1000, 200, 50])
        tracker = mppt.OpenCircuitTracker(v_max=v_max, pts_per_curve=p, ratio=rng.choice([0.8, 0.76, 0.5, 0.95, 1.0])) if rng.random() < 0.55 else mppt.OptimalTracker(v_max=v_max, pts_per_curve=p)
    out = ctx.dir / "out.h5"
    exists = rng.random() < 0.08
    if exists:
        out.write_bytes(b"something")
    kw = {"v_max": v_max, "duration_s": dur}
    with ivonne.Reader(src, samplerate_sps=None if sps == 50 else sps, verbose=False) as r, blocks(ivonne, block), contextlib.redirect_stderr(io.StringIO()):
        ctx.check(abs(r.runtime_s - n / sps) < 1e-3, "runtime", lambda: f"{n} entries with {sps} Hz reported as {r.runtime_s} s")
        if kind == "ivcurve":
            r.convert_2_ivcurves(out, pts_per_curve=pts, **kw)
        elif kind == "ivsample":
            r.convert_2_ivsamples(out, tracker=tracker, **kw)
        else:
            r.upsample_2_isc_voc(out, **kw)
    ctx.eq(file_hash(src), h0, "source-modified", "trace file")
    if exists:
        ctx.check(out.read_bytes() == b"something", "existing-overwritten", "import overwrote an existing file")
        ctx.eq(sorted(p.name for p in ctx.dir.iterdir()), sorted({out.name, src.name}), "existing-overwritten", "import beside an existing file left something else")
        ctx.count("existing_kept")
        return
    ctx.count("imports")
    what = f"{kind} of {n} entries @{sps} Hz ({light}), t0={t0}, duration={dur}, block={block}, pts={pts}"
    o = read(out)
    ctx.eq(o["meta"], ("harvester", kind, pts or 0, "IVonne"), "metadata", what)
    with CoreReader(out, verbose=False) as cr:
        ctx.check(cr.is_valid(), "invalid-recording", what)
        ctx.check(cr.check_timediffs(), "time-jumps", what)
        ctx.check(abs(cr.runtime_s - len(o["time"]) * 1e-5) < 1e-6, "runtime", what)
    # expected range
    used = n - 1
    trimmed = dur is not None and round(n / sps, 3) > dur
    if trimmed:
        used = min(n - 1, round(dur * sps))
        ctx.count("trimmed")
    span = used / sps
    step = 1e-5 * (pts or 1)
    m = int(np.ceil(round(span / step, 3))) * (pts or 1) if used > 0 else 0
    m = m // 10_000 * 10_000
    ctx.check(len(o["time"]) == len(o["voltage"]) == len(o["current"]) == m, "duration", lambda: f"{what}: {len(o['time'])} samples instead of {m} ({span} s)")
    if m == 0:
        return
    ctx.count("multi_block", block is not None and m > block)
    gt = o["cal"]["time"]
    t = o["time"].astype(float) * gt[0] + gt[1] - t0
    want_t = np.arange(m) * 1e-5
    ctx.check(np.abs(t - want_t).max() < 2e-9, "times", lambda: f"{what}: times deviate by {np.abs(t - want_t).max()} s")
    gv, gi = o["cal"]["voltage"], o["cal"]["current"]
    v = o["voltage"] * gv[0] + gv[1]
    i = o["current"] * gi[0] + gi[1]
    ctx.check(v.min() >= 0 and i.min() >= 0, "negative", what)
    # source entries that fall on the grid
    rel = df["time"].to_numpy() - t0
    q = rel / step
    on = np.nonzero((np.abs(q - np.round(q)) < 2e-4) & ((np.round(q) + 1) * (pts or 1) <= m))[0]
    if kind == "ivcurve":
        vp = np.linspace(0, v_max, pts)
        full = m // pts * pts  # last curve can be cut
        cv, ci = v[:full].reshape(-1, pts), i[:full].reshape(-1, pts)
        ctx.check(np.abs(cv - vp).max() <= gv[0], "curve-voltages", lambda: f"{what}: voltage ramp deviates {np.abs(cv - vp).max()}")
        ctx.count("curves", len(cv))
        isc = df["a"].to_numpy()
        rows = df[["a", "b", "c"]].to_numpy()
        for k in on:
            w = model(vp, *rows[k])
            ctx.count("instants")
            d = np.abs(ci[int(round(q[k]))] - w).max()
            ctx.check(d <= gi[0] + 1e-4 * isc.max() * (0 if light == "dark" else 1) * (1e-3 + abs(q[k] - round(q[k]))), "curve-currents", lambda: f"{what}: curve of entry {k} deviates {d} A", {"entry": rows[k].tolist()})
        ctx.check((np.diff(ci, axis=1) <= gi[0] * 1.01).all() or light in ("flicker", "partial", "noise"), "curve-rising", lambda: f"{what}: current of a curve rises with voltage")
        envelope(ctx, "short-circuit current", np.arange(len(ci)) * step, ci[:, 0], rel, isc, gi[0], what)
    else:
        tr = tracker or mppt.OptimalTracker(v_max)
        ev, ei, voc = expectation(kind, df, v_max, tr)
        for k in on:
            p = int(round(q[k]))
            ctx.count("instants")
            if kind == "ivsample" and tr.__class__.__name__ == "OptimalTracker":
                # point of the curve with that power
                ctx.check(abs(v[p] * i[p] - ev[k] * ei[k]) <= gv[0] * ei[k] + gi[0] * ev[k] + 1e-12 + 1e-9 * ev[k] * ei[k], "optimum-missed", lambda: f"{what}: entry {k} delivers {v[p]} V * {i[p]} A, maximum is {ev[k]} V * {ei[k]} A")
                ctx.check(abs(i[p] - model(v[p], *df[["a", "b", "c"]].to_numpy()[k])) <= gi[0] + 1e-7 * ei[k] + gv[0] * 10 * ei[k], "off-characteristic", lambda: f"{what}: entry {k} {v[p]} V {i[p]} A is not on its curve")
            else:
                ctx.check(abs(v[p] - ev[k]) <= gv[0] + 1e-9 and abs(i[p] - ei[k]) <= gi[0] + 1e-9 * ei[k], "entry-values", lambda: f"{what}: entry {k} gives {v[p]} V {i[p]} A instead of {ev[k]} V {ei[k]} A")
            ctx.check(v[p] <= voc[k] + gv[0] and i[p] <= df["a"].to_numpy()[k] + gi[0], "outside-limits", lambda: f"{what}: entry {k} {v[p]} V / {voc[k]} V, {i[p]} A")
        envelope(ctx, "voltage", want_t, v, rel, ev, gv[0], what)
        envelope(ctx, "current", want_t, i, rel, ei, gi[0], what)
    ctx.seen(kind, type(tracker).__name__, sps, light, trimmed, block, t0 > 0, short)
    ctx.sample({"what": what})


def envelope(ctx: Ctx, name: str, tq, x, ts, xs, step: float, what: str) -> None:
    """Interpolated values stay near the neighbouring source entries."""
    n = len(xs)
    if n < 2:
        return
    j = np.clip(np.searchsorted(ts, tq + 1e-9, side="right") - 1, 0, n - 2)
    lo = np.minimum.reduce([xs[np.clip(j + d, 0, n - 1)] for d in range(-5, 8)])
    hi = np.maximum.reduce([xs[np.clip(j + d, 0, n - 1)] for d in range(-5, 8)])
    near_lo, near_hi = np.minimum(xs[j], xs[j + 1]), np.maximum(xs[j], xs[j + 1])
    tol = 0.8 * (hi - lo) + 2e-3 * (xs.max() - xs.min()) + 2 * step + 1e-6 * hi
    bad = np.nonzero((x < near_lo - tol) | (x > near_hi + tol))[0]
    ctx.count("envelope_samples", len(x))
    ctx.check(bad.size == 0, "leaves-envelope", lambda: f"{what}: {name} {x[bad[0]]} at {tq[bad[0]]} s between entries {xs[j[bad[0]]]} and {xs[j[bad[0]] + 1]} ({bad.size} samples)")


def f_tracker(ctx: Ctx) -> None:
    """Trackers on bare coefficient tables."""
    import pandas as pd
    from shepherd_data import mppt

    rng = ctx.rng
    n = rng.choice([1, 2, 4, 5, 7, 30, 60])
    df, light = rand_source(ctx, n, 0.02, 0.0)
    df = df.set_index(pd.Index(range(10, 10 + n))) if rng.random() < 0.3 else df
    v_max, pts = rng.choice([5.0, 3.0, 1.0]), rng.choice([1000, 300, 64])
    ratio = rng.choice([0.8, 0.76, 0.5, 0.99])
    with_voc = rng.random() < 0.6
    inp = df.copy()
    if with_voc:
        inp["voc"] = np.minimum(np.log(df["a"] / df["b"] + 1) / df["c"], v_max)
    opt = mppt.OptimalTracker(v_max, pts).process(inp.copy())
    ocv = mppt.OpenCircuitTracker(v_max, pts, ratio).process(inp.copy())
    vp = np.linspace(0, v_max, pts)
    for k in range(n):
        a, b, c = (float(df[x].iloc[k]) for x in "abc")
        cur = model(vp, a, b, c)
        ctx.count("tracker_rows")
        v_oc = float(np.log(a / b + 1) / c)
        near = np.concatenate([v_oc + np.linspace(-0.02, 0.02, 41), [0.0, v_oc * 1.5]])
        exact = np.maximum(a - b * (np.exp(c * near) - 1.0), 0.0)
        got = np.asarray(mppt.iv_model(near.copy(), df.iloc[k]))
        single = np.array([float(mppt.iv_model(float(x), df.iloc[k])) for x in near])
        ctx.check(bool((got >= 0).all() and (single >= 0).all()), "outside-limits", lambda: f"modelled current below zero around {v_oc} V")
        ctx.check(np.allclose(got, exact, rtol=1e-6, atol=1e-12) and np.allclose(single, exact, rtol=1e-6, atol=1e-12), "single-diode", lambda: f"model deviates around {v_oc} V")
        ctx.count("model_points", len(near))
        for res, nm in ((opt, "optimal"), (ocv, "open-circuit")):
            v, i = float(res["v"].iloc[k]), float(res["i"].iloc[k])
            ctx.check(0 <= v <= v_max and i >= 0, "outside-limits", lambda: f"{nm}: {v} V {i} A")
            ctx.check(abs(i - float(model(np.float64(v), a, b, c))) <= 1e-9 * (a + 1e-12) + 1e-15, "off-characteristic", lambda: f"{nm}: {v} V {i} A not on curve {a} {b} {c}")
        pm = float((vp * cur).max())
        po = float(opt["v"].iloc[k] * opt["i"].iloc[k])
        pc = float(ocv["v"].iloc[k] * ocv["i"].iloc[k])
        ctx.check(abs(po - pm) <= 1e-9 * pm, "optimum-missed", lambda: f"{po} W of {pm} W")
        ctx.check(pc <= po * (1 + 1e-9), "better-than-optimum", lambda: f"{pc} W of {po} W")
        ctx.count("tracker_order")
        v = float(ocv["v"].iloc[k])
        step = v_max / (pts - 1)
        voc = min(np.log(a / b + 1) / c, v_max)
        if with_voc:
            ctx.check(v <= ratio * voc + 1e-9 and v >= ratio * voc - step * 1.001 - 1e-9, "open-circuit-ratio", lambda: f"tracks {v} V, {ratio} of {voc} V is {ratio * voc} V")
        else:
            # found in the curve itself: voltage where the current got small
            v5 = min(np.log(0.95 * a / b + 1) / c, v_max) if a > 0 else 0.0
            ctx.check(v <= ratio * (v5 + 2 * step) + 1e-9 and v >= ratio * v5 - 2 * step - 1e-9, "open-circuit-ratio", lambda: f"tracks {v} V, {ratio} of {v5} V is {ratio * v5} V")
    ctx.seen("tracker", n, light, with_voc, v_max, pts)


def f_reject(ctx: Ctx) -> None:
    from shepherd_data import ivonne

    rng = ctx.rng
    df, _ = rand_source(ctx, 30, 0.02, 0.0)
    src = ctx.dir / "a.iv"
    with src.open("wb") as f:
        pickle.dump(df, f)
    out = ctx.dir / "o.h5"
    calls = [lambda r: r.convert_2_ivcurves(out), lambda r: r.convert_2_ivsamples(out), lambda r: r.upsample_2_isc_voc(out)]
    for c in calls:
        ctx.rejects(lambda c=c: c(ivonne.Reader(src, verbose=False)), "unopened-source", "source that was not opened")
        ctx.count("rejected")

    def enter(p):
        out.unlink(missing_ok=True)
        with ivonne.Reader(p, verbose=False) as r:
            rng.choice(calls)(r)

    ctx.rejects(lambda: enter(ctx.dir / "missing.iv"), "missing-source", "missing source", (FileNotFoundError,))
    txt = ctx.dir / "t.iv"
    txt.write_bytes(rng.choice([b"", b"abc", rng.randbytes(100), src.read_bytes()[: rng.randint(1, 300)]]))
    ctx.rejects(lambda: enter(txt), "foreign-source", "foreign or truncated source")
    bad = ctx.dir / "b.iv"
    drop = rng.choice(["a", "b", "c", "time"])
    with bad.open("wb") as f:
        pickle.dump(df.drop(columns=[drop]), f)
    ctx.rejects(lambda: enter(bad), "incomplete-source", f"source without {drop}")
    dup = ctx.dir / "d.iv"
    with dup.open("wb") as f:
        d2 = df.copy()
        d2["time"] = 1.0
        pickle.dump(d2, f)
    ctx.rejects(lambda: enter(dup), "timeless-source", "source without advancing time")
    ctx.count("rejected", 4)
    ctx.seen("reject", drop)


FAMILIES = {
    "import": Family(f_import, quick=420, thorough=4000, cpu_s=200),
    "tracker": Family(f_tracker, quick=120, thorough=1000),
    "reject": Family(f_reject, quick=8, thorough=60),
}
