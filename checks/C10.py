"""C10: UART decoding of a sampled line returns exactly the transmitted text."""
import numpy as np
from shepherd_core import Reader
from shepherd_core.decoder_waveform import Uart

from vlib import rec
from vlib.core import Family

PROPERTY = "C10"
TECHNIQUE = "reference-transmitter monitor: an independent 8N1 transmitter makes line waveforms with known content and the decoder's symbols, times and lines are compared"
LEVEL_NOTE = "Every transmitted character, its start time and every line are compared for generated texts, baud rates, pauses, polarities, jitter, time origins and input paths (array, csv, gpio trace)."
RULE = ("A case transmits 1..200 characters with chosen baud rate, pauses, polarity, levels, jitter and origin and decodes the edges. Signature: baud class, "
        "detected/explicit parameters, polarity, pause class, jitter, alphabet, path.")
REQUIRED = {"symbols": 5000, "lines": 300, "malformed": 40, "gpio": 20, "csv": 10, "high_bytes": 200, "long_frames": 100}
ASSUMPTIONS = ["auto-detection needs what its documentation asks for: single-tick states and (for the polarity) a pause over 80 ticks within the first 1000 events",
               "jitter is limited to 3 % of a bit per edge (1 % and over 120 edges when the baud rate is detected from the data)",
               "array input: time resolution of a float has to resolve the bits (gpio traces have no such limit)"]

BAUDS = [300, 1200, 9600, 19_200, 38_400, 57_600, 115_200, 230_400, 250_000, 460_800, 921_600, 1_000_000, 1234, 77_777, 333_333]


def transmit(rng, chars, baud, *, gaps, jitter, inverted, lead, n_bits=8, tail=True):
    """-> edges [(t, state)], start times; line idles HIGH, LSB first"""
    tick = 1.0 / baud
    t = lead * tick
    states = [(0.0, 1)]
    starts = []
    for ch, gap in zip(chars, gaps):
        t += gap * tick
        starts.append(t)
        bits = [0, *[(ch >> i) & 1 for i in range(n_bits)], 1]
        for i, b in enumerate(bits):
            if b != states[-1][1]:
                states.append((t + i * tick, b))
        t += len(bits) * tick
    out = []
    for i, (ts, s) in enumerate(states):
        j = 0 if i == 0 else rng.uniform(-jitter, jitter) * tick
        out.append((ts + j, s ^ 1 if inverted else s))
    if tail:
        out.append((t + 200 * tick, out[-1][1]))
    return out, starts


def rand_chars(rng, n):
    alpha = rng.choice(["ascii", "lines", "bytes", "dense", "few"])
    if alpha == "ascii":
        ch = [rng.randint(32, 126) for _ in range(n)]
    elif alpha == "lines":
        ch = [rng.choice([10, 13, 10, 13, *b"abcXYZ 01"]) for _ in range(n)]
    elif alpha == "bytes":
        ch = [rng.randint(1, 255) for _ in range(n)]
    elif alpha == "dense":
        ch = [rng.choice([0x55, 0xAA, 0x2A, 0xD5]) for _ in range(n)]
    else:
        ch = [rng.choice([1, 0x7F, 0xFF, 0x80, 0x40, 0xFE, 0xF0, 0x0F, 65]) for _ in range(n)]
    return alpha, ch


def ref_lines(chars, starts):
    out, cur, ts = [], "", None
    i = 0
    while i < len(chars):
        c = chr(chars[i])
        if ts is None:
            ts = starts[i]
        cur += c
        if c == "\n" or (c == "\r" and not (i + 1 < len(chars) and chars[i + 1] == 10)):
            out.append((ts, cur))
            cur, ts = "", None
        i += 1
    if cur:
        out.append((ts, cur))
    return out


def setup(ctx, *, max_baud=10**7):
    rng = ctx.rng
    n = rng.choice([3, 5, 20, 60, 200])
    alpha, chars = rand_chars(rng, n)
    baud = rng.choice([b for b in BAUDS if b <= max_baud])
    pause = rng.choice(["none", "integer", "fraction", "long", "mixed"])
    gaps = []
    for _ in range(n):
        g = {"none": 0, "integer": rng.randint(0, 5), "fraction": rng.choice([0, rng.uniform(0.5, 30)]),
             "long": rng.choice([0, rng.uniform(90, 5000)]), "mixed": rng.choice([0, 1, 7, 8, 9, rng.uniform(0.5, 200)])}[pause]
        gaps.append(g)
    inverted = rng.random() < 0.4
    jitter = rng.choice([0, 0, 0.01, 0.03])
    lead = rng.choice([0.5, 85, 100, 1000.5, 3.2])
    edges, starts = transmit(rng, chars, baud, gaps=gaps, jitter=jitter, inverted=inverted, lead=lead)
    return alpha, chars, baud, pause, inverted, jitter, edges, starts


def detectable_baud(edges, baud):
    ts = np.array([e[0] for e in edges])[:1000]
    d = np.diff(ts) * baud
    d = d[d > 1e-9]
    single = (np.abs(d - 1) < 0.2).mean()
    dirty = ((d > 1.2) & (d < 1.45)).sum()
    return len(d) > 20 and single > 0.15 and dirty == 0


def detectable_pol(edges, baud):
    ts = np.array([e[0] for e in edges])
    d = np.diff(ts)[:-1][:900] * baud
    return bool((d[:900] > 84).any())


def compare(ctx, uart, chars, starts, tick, origin, label, jitter):
    sym = uart.get_symbols()
    got = "".join(str(s) for s in sym[:, 1])
    want = "".join(map(chr, chars))
    ctx.check(got == want, "symbols", lambda: f"{label}: decoded {got[:60]!r} ({len(got)}) sent {want[:60]!r} ({len(want)})")
    tol = (jitter + 1e-3) * tick + 1e-15 + abs(origin) * 4e-16
    for (ts, _), want_t in zip(sym, starts):
        ctx.check(abs(float(ts) - origin - want_t) <= tol, "start-time", f"{label}: {ts} instead of {origin + want_t} (tick {tick})")
    ctx.count("symbols", len(chars))
    ctx.count("high_bytes", sum(c > 127 for c in chars))
    lines = uart.get_lines()
    compare_lines(ctx, lines, chars, starts, tol, origin, label)
    ctx.eq(uart.get_text(), want, "text", label)
    ctx.eq(uart.get_text(force_redo=True), want, "text", label + " (redo)")


def compare_lines(ctx, lines, chars, starts, tol, origin, label):
    want = ref_lines(chars, starts)
    got = [(float(a), str(b)) for a, b in lines]
    ctx.check([g[1] for g in got] == [w[1] for w in want], "lines", lambda: f"{label}: lines {[g[1] for g in got][:8]} sent {[w[1] for w in want][:8]}")
    for (gt, gl), (wt, _) in zip(got, want):
        ctx.check(abs(gt - origin - wt) <= tol, "line-time", f"{label}: line {gl!r} at {gt} instead of {origin + wt}")
    ctx.count("lines", len(want))


def case_array(ctx):
    rng = ctx.rng
    alpha, chars, baud, pause, inverted, jitter, edges, starts = setup(ctx)
    tick = 1 / baud
    origin = rng.choice([0, 0, 1.5, 1000.0] + ([1.65e9] if baud <= 38_400 else []))
    lo, hi = rng.choice([(0, 1), (0.0, 3.3), (-1.2, 1.2), (1, 5), (0, 255)])
    rows = []
    for t, s in edges:
        rows.append((t + origin, hi if s else lo))
        if rng.random() < 0.1:  # redundant sample of the same state
            rows.append((t + origin + 0.1 * tick, hi if s else lo))
    if len(edges) < 9:
        return
    arr = np.array(rows)
    if rng.random() < 0.2 and (lo, hi) == (0, 1) and len(arr):
        arr = arr.astype(np.float64)
    kw = {}
    auto_b = detectable_baud(edges, baud) and (jitter == 0 or (jitter < 0.02 and len(edges) > 120)) and rng.random() < 0.6
    if not auto_b:
        kw["baud_rate"] = baud
    auto_p = (not inverted or detectable_pol(edges, baud)) and rng.random() < 0.7
    if not auto_p:
        kw["inversion"] = inverted
    keep = arr.copy()
    u = Uart(arr, **kw)
    ctx.check(np.array_equal(arr, keep), "input-modified", "caller's waveform was changed by the constructor")
    if auto_b:
        ctx.check(abs(u.baud_rate / baud - 1) < 0.02, "baud", f"detected {u.baud_rate} for {baud}")
    if auto_p:
        ctx.eq(bool(u.inversion), inverted, "polarity", "detected inversion")
    compare(ctx, u, chars, starts, tick, origin, f"{alpha} {baud} Bd pause={pause} inv={inverted} jit={jitter} auto={auto_b, auto_p} org={origin}", jitter)
    ctx.check(np.array_equal(arr, keep), "input-modified", "caller's waveform was changed while decoding")
    # second decoder on the same waveform
    u2 = Uart(arr, **kw)
    ctx.eq(u2.get_text(), u.get_text(), "repeat", "second decoding of the same waveform")
    # other time origin
    arr2 = arr.copy()
    arr2[:, 0] += rng.choice([-0.5, 100.0, 3.7])
    ctx.eq(Uart(arr2, **kw).get_text(), u.get_text(), "origin", "shifted waveform")
    ctx.seen(alpha, baud, pause, inverted, jitter, auto_b, auto_p, origin > 0)
    ctx.sample({"text": "".join(map(chr, chars))[:40], "baud": baud, "pause": pause, "inverted": inverted})


def case_csv(ctx):
    rng = ctx.rng
    alpha, chars, baud, pause, inverted, jitter, edges, starts = setup(ctx, max_baud=400_000)
    if len(edges) < 9:
        return
    path = ctx.dir / "w.csv"
    path.write_text("Time [s],UART\n" + "".join(f"{t:.9f},{s}\n" for t, s in edges))
    before = rec.file_hash(path)
    u = Uart(path, baud_rate=baud, inversion=inverted)
    tick = 1 / baud
    compare(ctx, u, chars, starts, tick, 0, f"csv {alpha} {baud}", jitter + 1e-9 / tick)
    ctx.eq(rec.file_hash(path), before, "source-changed", "csv")
    ctx.count("csv")
    ctx.seen("csv", alpha, baud, inverted)


def case_gpio(ctx):
    """edges recorded as gpio trace with nanosecond epoch times"""
    rng, npr = ctx.rng, ctx.np_rng()
    alpha, chars, baud, pause, _, _, _, _ = setup(ctx)
    if alpha in {"few", "bytes"}:
        chars = [rng.randint(33, 126) for _ in chars]
    gaps = [rng.choice([0, 0, 1, 100]) for _ in chars]
    edges, starts = transmit(rng, chars, baud, gaps=gaps, jitter=0, inverted=False, lead=rng.choice([90, 1000]))
    if len(edges) < 12 or not detectable_baud(edges, baud):
        return
    t0 = rng.choice([0, 1_650_000_000_000_000_000, 1_722_222_222_123_456_789])
    pin = rng.randint(0, 15)
    others = [b for b in range(16) if b != pin]
    times, values, state = [], [], 0
    for t, s in edges:
        # toggles of other pins in between
        state = (rng.getrandbits(16) & ~(1 << pin)) | (s << pin) if rng.random() < 0.5 else (state & ~(1 << pin)) | (s << pin)
        times.append(t0 + round(t * 1e9))
        values.append(state)
    path = ctx.dir / "g.h5"
    t, v, c = rec.iv_arrays(npr, 10)
    rec.raw_h5(path, t=t, v=v, c=c)
    names = {pin: rng.choice(["uart", "uart_rx", "tgt_A_uart", "target_uart_msg"]), rng.choice(others): "io_1"}
    rec.add_gpio(path, np.array(times, np.uint64), np.array(values, np.uint16), names)
    with Reader(path, verbose=False) as r:
        lines = r.gpio_to_uart()
    ctx.check(lines is not None, "gpio-none", f"no uart found: {alpha} {baud} Bd, {len(edges)} edges")
    compare_lines(ctx, lines, chars, starts, 1e-8 + t0 * 4e-25 + 1e-6 * (t0 > 0), t0 * 1e-9, f"gpio {alpha} {baud} Bd t0={t0}")
    ctx.count("gpio")
    ctx.count("symbols", len(chars))
    ctx.seen("gpio", alpha, baud, t0 > 0, pin)


def case_frames(ctx):
    """Data frames of other lengths, as told to the decoder."""
    rng = ctx.rng
    n_bits = rng.choice([5, 6, 7, 9, 10, 12, 16, 17, 20, 32, 33, 48, 64])
    top = min(2**n_bits, 0x110000)
    usable = [x for x in (1, 2, 10, 13, 31, 65, top - 1, top // 2, 2**min(n_bits, 20) - 2, 255, 256, 0x155, 0xFF00) if 0 < x < top and not 0xD800 <= x < 0xE000]
    chars = []
    while len(chars) < rng.choice([4, 12, 40]):
        x = rng.choice(usable) if rng.random() < 0.4 else rng.randrange(1, top)
        if not 0xD800 <= x < 0xE000:
            chars.append(x)
    baud = rng.choice(BAUDS)
    gaps = [rng.choice([0, 0, 1, 2, rng.uniform(0.5, 300)]) for _ in chars]
    jitter = rng.choice([0, 0, 0.02])
    inverted = rng.random() < 0.3
    edges, starts = transmit(rng, chars, baud, gaps=gaps, jitter=jitter, inverted=inverted, lead=rng.choice([3.2, 100]), n_bits=n_bits, tail=rng.random() < 0.5)
    if len(edges) < 9:
        return
    u = Uart(np.array(edges), baud_rate=baud, inversion=inverted, frame_length=n_bits)
    compare(ctx, u, chars, starts, 1 / baud, 0, f"{n_bits} bit frames, {baud} Bd inv={inverted} jit={jitter}", jitter)
    ctx.count("long_frames", n_bits > 8)
    ctx.seen("frames", n_bits, inverted, jitter, len(chars))


def case_nul(ctx):
    """NUL characters"""
    rng = ctx.rng
    chars = [65, 66, *[rng.choice([0, 67, 10]) for _ in range(20)], 0, 0, 68]
    edges, _ = transmit(rng, chars, 9600, gaps=[0] * len(chars), jitter=0, inverted=False, lead=100)
    got = Uart(np.array(edges), baud_rate=9600).get_text()
    ctx.check(got.replace("\0", "") == "".join(map(chr, chars)).replace("\0", ""), "symbols", f"{got!r} instead of {chars}")
    ctx.check(got == "".join(map(chr, chars)), "nul-character-lost", f"{got!r} instead of {chars}")


def case_malformed(ctx):
    rng = ctx.rng
    n = rng.choice([20, 20, 400, 3000])
    good, _ = transmit(rng, [rng.randint(33, 120) for _ in range(n)], 9600, gaps=[1] * n, jitter=0, inverted=False, lead=100)
    arr = np.array(good)
    kind = rng.choice(["short", "columns", "time", "one-column", "frame", "empty"])
    kw = {}
    if kind == "short":
        arr = arr[: rng.randint(1, 7)]
    elif kind == "columns":
        arr = np.column_stack((arr, np.zeros(len(arr))))
    elif kind == "one-column":
        arr = arr[:, :1]
    elif kind == "empty":
        arr = np.zeros((0, 2))
    elif kind == "time":
        i = rng.choice([rng.randint(0, len(arr) - 2), len(arr) - 2])
        arr[i, 0], arr[i + 1, 0] = arr[i + 1, 0], arr[i, 0]
    else:
        kw["frame_length"] = rng.choice([0, -1, 65, 100])
    ctx.rejects(lambda: Uart(arr, **kw), "malformed-accepted", f"{kind} {kw}", (TypeError, ValueError, IndexError))
    ctx.count("malformed")
    ctx.seen("mal", kind, str(kw), len(arr))


FAMILIES = {
    "array": Family(case_array, quick=1600, thorough=60000),
    "csv": Family(case_csv, quick=240, thorough=6000),
    "gpio": Family(case_gpio, quick=480, thorough=12000),
    "frames": Family(case_frames, quick=300, thorough=8000),
    "nul": Family(case_nul, quick=10, thorough=10),
    "malformed": Family(case_malformed, quick=300, thorough=300),
}
