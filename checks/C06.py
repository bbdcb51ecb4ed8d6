"""C06: energy, runtime and statistics match the recorded samples."""
import numpy as np
from shepherd_core import CalibrationPair
from shepherd_core import CalibrationSeries
from shepherd_core import Reader
from shepherd_core import Writer
from shepherd_data import Reader as DReader

from vlib import rec
from vlib.core import Family

PROPERTY = "C06"
TECHNIQUE = "reference computation on the raw samples plus metamorphic monitors (block length, splitting)"
LEVEL_NOTE = "Reported figures are compared with an independent numpy computation on the plain file content for many internal block lengths and splits."
RULE = ("A case records generated samples (rates, lengths, calibrations) and compares energy/runtime/rate/statistics for several internal block lengths; "
        "or splits one recording in parts. Signature: (length class, rate, calibration, block lengths).")
REQUIRED = {"energies": 150, "statistics": 60, "splits": 10}


def rel(a, b, tol):
    return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-30


def rand_setup(ctx):
    rng, npr = ctx.rng, ctx.np_rng()
    n = rng.choice([0, 1, 2, 3, 10, 1000, 9_999, 10_000, 10_001, 40_000, 50_001, 123_456])
    rate = rng.choice([100_000, 100_000, 100_000, 1000, 50_000, 10, 1, 250_000])
    dt = 10**9 // rate
    t = (np.uint64(1_650_000_000_000_000_000) + np.arange(n, dtype=np.uint64) * np.uint64(dt)).astype(np.uint64)
    v, c = rec.rand_u32(npr, n), rec.rand_u32(npr, n)
    gains = (1e-9, 10 ** rng.uniform(-10, -6), 10 ** rng.uniform(-13, -9))
    offs = (rng.choice([0.0, 0.0, 2.5]), rng.choice([0.0, rng.uniform(-1e-2, 1e-2)]), rng.choice([0.0, rng.uniform(-1e-5, 1e-5)]))
    return n, rate, dt, t, v, c, gains, offs


def si(raw, g, o):
    return raw.astype(np.float64) * g + o


def case_figures(ctx):
    rng = ctx.rng
    n, rate, dt, t, v, c, gains, offs = rand_setup(ctx)
    path = ctx.dir / "e.h5"
    if rng.random() < 0.5:
        rec.raw_h5(path, t=t, v=v, c=c, gains=gains, offsets=offs)
    else:
        cal = CalibrationSeries(voltage=CalibrationPair(gain=gains[1], offset=offs[1]), current=CalibrationPair(gain=gains[2], offset=offs[2]),
                                time=CalibrationPair(gain=1e-9, offset=offs[0]))
        with Writer(path, cal_data=cal, verbose=False) as w:
            w.append_iv_data_raw(t, v, c)
            if n:
                ctx.check(rel(w.energy(), float((si(v, gains[1], offs[1]) * si(c, gains[2], offs[2])).sum() * 1e-5), 1e-9) or rate != 100_000,
                          "energy-in-session", "energy reported inside the session")
        d = rec.h5_data(path)
        t, v, c = d["time"], d["voltage"], d["current"]
        n = len(t)
    vs, cs = si(v, gains[1], offs[1]), si(c, gains[2], offs[2])
    eff_rate = rate if n > 1 else 100_000
    interval = dt * 1e-9 if n > 1 else 1e-5
    e_ref = float((vs * cs).sum() * interval)
    e_abs = float(np.abs(vs * cs).sum() * interval)
    for cls in (Reader, DReader):
        with cls(path, verbose=False) as r:
            ctx.eq(r.samplerate_sps, eff_rate, "samplerate", f"{n} samples every {dt} ns")
            ctx.check(rel(r.sample_interval_s, interval, 1e-9), "sample-interval", f"{r.sample_interval_s} s instead of {interval} s ({n} samples)")
            ctx.eq(r.sample_interval_ns, round(interval * 1e9), "sample-interval", "in ns")
            ctx.check(abs(r.runtime_s - n / eff_rate) <= 0.0500001, "runtime", f"{r.runtime_s} s for {n} samples at {eff_rate}")
            ctx.eq(r.buffers_n, n // rec.BUF, "buffer-count", "complete buffers")
            ctx.eq(r.file_size, path.stat().st_size, "file-size", "size of file")
            default = r.max_elements
            for me in (default, 1 + n // 2, rng.choice([1, 7]) if n < 2000 else 1000, rng.randint(1000, 60_000), max(n, 1), n + 1):
                r.max_elements = me
                e = r.energy()
                ctx.check(abs(e - e_ref) <= 1e-9 * e_abs + 1e-30, "energy", f"{e} Ws instead of {e_ref} Ws ({n} samples, block {me})")
                ctx.check(isinstance(e, float), "energy-type", str(type(e)))
                ctx.count("energies")
            r.max_elements = rng.choice([default, default, max(1, n // 3), max(1, n - 1)]) if n > 500 or n == 0 else default
            split = r.max_elements < n
            md = r.get_metadata()
            gi = md["data"]["_group_info"]
            ctx.check(abs(gi["energy_Ws"] - e_ref) <= 1e-9 * e_abs + 1e-30, "metadata-energy", f"{gi}")
            ctx.check(abs(gi["runtime_s"] - n / eff_rate) <= 0.0500001, "metadata-runtime", f"{gi}")
            ctx.eq(gi["valid"], True, "metadata-valid", "")
            for name, arr in (("voltage", vs), ("current", cs)):
                st = md["data"][name]["_dataset_info"]["statistics"]
                if n == 0:
                    ctx.eq(st, {}, "statistics", "empty dataset")
                    continue
                scale = np.abs(arr).max() + 1e-30
                ctx.check(abs(st["min"] - arr.min()) <= 1e-12 * scale and abs(st["max"] - arr.max()) <= 1e-12 * scale, "min-max",
                          f"{name}: {st} but samples span {arr.min()}..{arr.max()} (block {r.max_elements})")
                ctx.eq(st.get("si_converted"), True, "statistics", f"{name} is calibrated")
                if not split:
                    ctx.check(abs(st["mean"] - arr.mean()) <= 1e-9 * scale and abs(st["std"] - arr.std()) <= 1e-6 * scale, "mean-std",
                              f"{name}: {st} but mean={arr.mean()} std={arr.std()}")
                ctx.count("statistics")
    ctx.seen(n, rate, round(np.log10(gains[1])), bool(offs[0]), bool(offs[1]))
    ctx.sample({"samples": n, "rate": rate, "gains": gains, "offsets": offs, "energy": e_ref})


def case_split(ctx):
    """Energies of consecutive parts add up to the energy of the whole."""
    rng, npr = ctx.rng, ctx.np_rng()
    n = rng.choice([20_000, 50_000, 100_000])
    t, v, c = rec.iv_arrays(npr, n, kind=rng.choice(["rand", "sine", "const"]))
    cuts = sorted(rng.sample(range(2, n - 2), rng.randint(1, 4)))
    parts = [0, *cuts, n]
    rec.raw_h5(ctx.dir / "all.h5", t=t, v=v, c=c)
    with Reader(ctx.dir / "all.h5", verbose=False) as r:
        whole = r.energy()
    total = 0.0
    for i, (a, b) in enumerate(zip(parts[:-1], parts[1:])):
        if b - a < 2:
            return
        p = rec.raw_h5(ctx.dir / f"p{i}.h5", t=t[a:b], v=v[a:b], c=c[a:b])
        with Reader(p, verbose=False) as r:
            total += r.energy()
    ctx.check(rel(total, whole, 1e-9), "energy-not-additive", f"parts {parts}: {total} Ws, whole {whole} Ws")
    ctx.count("splits")
    ctx.seen("split", len(parts), n)


def case_growing(ctx):
    """Figures follow the recording while it grows."""
    rng, npr = ctx.rng, ctx.np_rng()
    path = ctx.dir / "g.h5"
    t, v, c = rec.iv_arrays(npr, 60_000)
    with Writer(path, verbose=False) as w:
        done = 0
        for _ in range(4):
            k = rng.choice([1, 2, 10_000, 10_001, 15_000])
            w.append_iv_data_raw(t[done:done + k], v[done:done + k], c[done:done + k])
            done += k
            done = min(done, 60_000)
            md = w.get_metadata()
            ref = float((si(v[:done], 3e-9, 0) * si(c[:done], 250e-12, 0)).sum() * 1e-5)
            ctx.check(rel(md["data"]["_group_info"]["energy_Ws"], ref, 1e-9), "energy-growing", f"after {done} samples")
            ctx.check(abs(w.runtime_s - done / 1e5) <= 0.0500001, "runtime-growing", f"after {done} samples: {w.runtime_s}")
            ctx.count("energies")
    ctx.seen("grow")


FAMILIES = {
    "figures": Family(case_figures, quick=360, thorough=15000),
    "split": Family(case_split, quick=96, thorough=3000),
    "growing": Family(case_growing, quick=48, thorough=1500),
}
