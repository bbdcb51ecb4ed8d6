"""C09: GPIO traces convert to waveforms without losing or inventing edges."""
import h5py
from fractions import Fraction

import numpy as np
import yaml
from shepherd_core import Reader
from shepherd_data import Reader as DReader

from vlib import rec
from vlib.core import Family

PROPERTY = "C09"
TECHNIQUE = "replay monitor: extracted waveforms are replayed against an independent walk over the recorded port states"
LEVEL_NOTE = "All edges of every pin of generated traces (random, sparse, glitchy, constant, empty, single entry) are compared exactly, including time stamps."
RULE = ("A case records a port trace with up to 16 named pins (gaps and overlapping names allowed) and compares every extracted waveform with a reference walk; single pins are "
        "also queried by name. Signature: pins, trace length class, kind, undescribed active bits, query kind.")
REQUIRED = {"partial_queries": 20, "edges": 2000, "pins": 200, "queries": 100, "no_gpio": 3, "empty_traces": 3, "csv": 20, "csv_times": 2000}
ASSUMPTIONS = ["a name that matches no pin exactly may resolve to a pin containing it (documented)", "times in a trace are non-decreasing"]

NAMES = ["tgt_io0", "tgt_io1", "tgt_io10", "tgt_io11", "uart", "uart_rx", "swd_clk", "swd_io", "gpio0", "gpio01", "pwr_good", "a", "led", "LED", "io", "x y"]


def walk(times, values, pin):
    out, last = [], None
    for t, v in zip(times, values):
        s = (int(v) >> pin) & 1
        if s != last:
            out.append((int(t), s))
            last = s
    return out


def trace(rng, npr, bits):
    kind = rng.choice(["random", "sparse", "single-pin", "constant", "burst", "glitch"])
    n = rng.choice([0, 1, 2, 3, 10, 100, 600])
    full = sum(1 << b for b in bits) or 1
    if kind == "random":
        v = npr.integers(0, 2**16, n)
    elif kind == "constant":
        v = np.full(n, rng.choice([0, 0xFFFF, full]))
    elif kind == "single-pin":
        b = rng.choice(bits)
        v = npr.integers(0, 2, n) << b
    elif kind == "sparse":
        v = np.where(npr.random(n) < 0.9, rng.getrandbits(16), npr.integers(0, 2**16, n))
    else:
        v = np.cumsum(npr.integers(0, 2, n)) * rng.choice([1, 3, 255]) % 2**16
    t0 = rng.choice([0, 1_650_000_000_000_000_001, 2**60 + 3])
    dt = npr.integers(0 if kind == "burst" else 1, rng.choice([2, 1000, 10**9]) + 1, n)
    return kind, (t0 + np.cumsum(dt)).astype(np.uint64), v.astype(np.uint16)


def case_wave(ctx):
    rng, npr = ctx.rng, ctx.np_rng()
    path = ctx.dir / "g.h5"
    t, v, c = rec.iv_arrays(npr, 10)
    rec.raw_h5(path, t=t, v=v, c=c, mode=rng.choice(["emulator", "harvester"]))
    bits = rng.sample(range(16), rng.choice([1, 2, 4, 16]))
    names = rng.sample(NAMES, len(bits))
    pins = dict(zip(bits, names))
    kind, times, values = trace(rng, npr, bits)
    rec.add_gpio(path, times, values, pins)
    before = rec.file_hash(path)
    cls = rng.choice([Reader, DReader])
    with cls(path, verbose=False) as r:
        wfs = r.gpio_to_waveforms()
        ctx.eq(sorted(wfs), sorted(names), "pins", "names of extracted waveforms")
        for pin, name in pins.items():
            want = walk(times, values, pin)
            wf = wfs[name]
            got = [(int(a), int(b)) for a, b in wf]
            ctx.check(got == want, "waveform", lambda: f"pin {pin} '{name}': got {got[:6]} ({len(got)}) want {want[:6]} ({len(want)}) [{kind}]")
            ctx.count("edges", len(want))
            ctx.count("pins")
            # replay: state at each recorded instant (last entry for equal times)
            if len(times):
                idx = np.searchsorted(np.array([g[0] for g in got], np.uint64), times[-1], side="right") - 1
                ctx.eq(got[idx][1], (int(values[-1]) >> pin) & 1, "replay", f"state of '{name}' at the end")
            ctx.eq(r.get_gpio_pin_num(name), pin, "pin-number", f"number of '{name}' in {pins}")
            single = r.gpio_to_waveforms(name)
            ctx.eq(list(single), [name], "single", "names of single query")
            ctx.check(np.array_equal(single[name], wf), "single", f"single query of '{name}' differs")
            ctx.count("queries")
            # unambiguous part of a name
            lo = rng.randint(0, len(name) - 1)
            part = name[lo : rng.randint(lo + 1, len(name))]
            if [x for x in names if part in x] == [name]:
                ctx.eq(r.get_gpio_pin_num(part), pin, "pin-number", f"number of '{part}' in {pins}")
                ps = r.gpio_to_waveforms(part)
                ctx.check(len(ps) == 1 and np.array_equal(next(iter(ps.values())), wf), "single", f"query of '{part}' (part of '{name}') differs")
                ctx.count("partial_queries")
        if len(times) == 0:
            ctx.count("empty_traces")
        # unknown pin: error or empty result, never another pin's waveform
        unk = "no_such_pin_42"
        ctx.eq(r.get_gpio_pin_num(unk), None, "unknown-pin", "number of unknown pin")
        try:
            res = r.gpio_to_waveforms(unk)
        except Exception:  # noqa: BLE001
            res = {}
        ctx.check(len(res) == 0 or res.get(unk) is None, "unknown-pin", f"waveform for unknown pin: {res}")
        # repeated query gives the same result
        again = r.gpio_to_waveforms()
        ctx.check(all(np.array_equal(again[k], wfs[k]) for k in wfs), "repeat", "second extraction differs")
        name = rng.choice(names)
        if " " not in name:
            sep = rng.choice([",", ",", ";", "\t"])
            r.waveform_to_csv(name, wfs[name], *([] if sep == "," and rng.random() < 0.7 else [sep]))
            head, *rows = path.with_suffix(f".waveform.{name}.csv").read_text().splitlines()
            ctx.check(name in head and sep in head, "csv-head", head)
            rows = [x.replace(sep, ",") for x in rows]
            for x, (ts, _) in zip(rows, wfs[name].tolist()):
                # float resolves 0.24 us in current time (and is rounded twice)
                ctx.check(abs(Fraction(x.split(",")[0]) * 10**9 - ts) <= max(1, 2e9 * float(np.spacing(ts / 1e9))), "csv-time", lambda: f"{x} for {ts} ns")
                ctx.counts["csv_times"] += 1
            ctx.eq(len(rows), len(wfs[name]), "csv-rows", "rows of waveform csv")
            ctx.eq([int(x.split(",")[1]) for x in rows], [int(x[1]) for x in wfs[name]], "csv-rows", "states of waveform csv")
            ctx.count("csv")
    ctx.eq(rec.file_hash(path), before, "source-changed", "recording")
    ctx.seen(len(bits), min(len(times), 4), kind, bool(np.any(values & ~np.uint16(sum(1 << b for b in bits)))) if len(values) else None, cls is Reader)
    ctx.sample({"pins": pins, "kind": kind, "events": len(times)})


def case_filter(ctx):
    rng, npr = ctx.rng, ctx.np_rng()
    n = rng.choice([0, 1, 2, 5, 300])
    mx = rng.choice([2, 2, 3, 5])
    data = npr.integers(0, mx, n)
    if mx == 2 and rng.random() < 0.6:
        data = data.astype(bool)
    mask = Reader.get_filter_for_redundant_states(data)
    got = [x for x, m in zip(data.tolist(), mask.tolist()) if m]
    want = [x for i, x in enumerate(data.tolist()) if i == 0 or data[i] != data[i - 1]]
    ctx.eq(len(mask), n, "filter-length", "mask")
    ctx.eq(got, want, "filter", f"states kept of {data[:10]}")
    ctx.rejects(lambda: Reader.get_filter_for_redundant_states(np.zeros((3, 2))), "filter-2d", "2D input")
    ctx.count("filters")
    ctx.seen(n, mx, str(data.dtype))


def case_none(ctx):
    rng, npr = ctx.rng, ctx.np_rng()
    path = ctx.dir / "n.h5"
    t, v, c = rec.iv_arrays(npr, 10)
    rec.raw_h5(path, t=t, v=v, c=c)
    with Reader(path, verbose=False) as r:
        ctx.eq(len(r.gpio_to_waveforms()), 0, "no-gpio", "waveforms of recording without gpio")
        ctx.eq(len(r.gpio_to_waveforms("uart")), 0, "no-gpio", "waveforms of recording without gpio")
        ctx.eq(r.get_gpio_pin_num("uart"), None, "no-gpio", "pin of recording without gpio")
        ctx.eq(r.gpio_to_uart(), None, "no-gpio", "uart of recording without gpio")
    ctx.count("no_gpio")
    ctx.seen("none", ctx.index)


FAMILIES = {
    "wave": Family(case_wave, quick=480, thorough=30000),
    "filter": Family(case_filter, quick=240, thorough=6000),
    "none": Family(case_none, quick=4, thorough=4),
}
