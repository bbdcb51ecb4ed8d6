"""C12: measured calibration and converter formulas invert the hardware transfer."""
import numpy as np
from shepherd_core import calibration_hw_def as hw
from shepherd_core.data_models.base.cal_measurement import CalMeasurementCape
from shepherd_core.data_models.base.cal_measurement import CalMeasurementEmulator
from shepherd_core.data_models.base.cal_measurement import CalMeasurementHarvester
from shepherd_core.data_models.base.cal_measurement import meas_to_cal
from shepherd_core.data_models.base.calibration import CalibrationCape

from vlib.core import Family

PROPERTY = "C12"
TECHNIQUE = "inversion monitors over the whole count range and least-squares reference for measured calibrations (runtime observation of the real functions)"
LEVEL_NOTE = "Every count of the 16 bit DAC and a stratified sample (thorough: all) of the 18 bit ADC are inverted; fits are compared with the known generating line."
RULE = ("Counts, voltages and currents inside, at and beyond the limits are converted back and forth; calibration measurements are generated from known lines (shuffled, duplicated, noisy, "
        "degenerate). Signature: converter, region, or measurement kind and number of pairs.")
REQUIRED = {"counts": 60_000, "physical": 1500, "fits": 150, "degenerate": 40, "capes": 20}
ASSUMPTIONS = ["measured pairs are exact or carry noise small enough to pass the documented correlation threshold"]

# documented hardware constants (cape v2.4)
DAC_LSB = 2.5 * 2 / 2**16
ADCV_LSB = 1.25 * 4.096 / 2**18
ADCC_LSB = 1.25 * 4.096 / 2**18 / (2.0 * 48)
CONV = {
    "dac_v": (hw.dac_voltage_to_raw, hw.dac_raw_to_voltage, DAC_LSB, 2**16 - 1),
    "adc_v": (hw.adc_voltage_to_raw, hw.adc_raw_to_voltage, ADCV_LSB, 2**18 - 1),
    "adc_c": (hw.adc_current_to_raw, hw.adc_raw_to_current, ADCC_LSB, 2**18 - 1),
}
CHUNKS = 16


def case_counts(ctx):
    """chunks of the count range (quick: stratified, thorough: complete)"""
    chunk = ctx.index % CHUNKS
    for name, (to_raw, to_phy, lsb, top) in CONV.items():
        step = 1 if (name == "dac_v" or ctx.tier == "thorough") else 8
        size = (top + 1) // CHUNKS
        lo = chunk * size
        prev = None
        off = ctx.rng.randrange(step)
        for r in range(lo + off, lo + size, step):
            p = to_phy(r)
            if abs(p - r * lsb) > 1e-12 * (1 + abs(p)):
                ctx.fail("raw-to-physical", f"{name}: count {r} -> {p!r}, expected {r * lsb!r}")
            if prev is not None and p <= prev:
                ctx.fail("monotone", f"{name}: not increasing at count {r}")
            prev = p
            b = to_raw(p)
            if abs(b - r) > 1 or not isinstance(b, int) or not 0 <= b <= top:
                ctx.fail("inverse", f"{name}: count {r} -> {p!r} -> {b!r}")
            # mid of the step belongs to the count
            m = to_raw((r + 0.5) * lsb)
            if m != r:
                ctx.fail("inverse", f"{name}: {(r + 0.5) * lsb!r} -> {m}, expected {r}")
        ctx.count("counts", size // step)
        ctx.seen(name, chunk)
    ctx.counts["assertions"] += 1


def case_physical(ctx):
    rng = ctx.rng
    for name, (to_raw, to_phy, lsb, top) in CONV.items():
        full = lsb * (top + 1)
        xs = sorted([0.0, full, full - lsb, -full, 2 * full, *[rng.uniform(-0.5 * full, 1.5 * full) for _ in range(12)], *[rng.uniform(0, full) for _ in range(12)],
                     10 ** rng.uniform(-12, 6), rng.choice([1, 0, 3])])
        lim = [to_raw(x) for x in xs]
        unl = [to_raw(x, limited=False) for x in xs]
        ctx.check(all(a <= b for a, b in zip(lim, lim[1:])) and all(a <= b for a, b in zip(unl, unl[1:])), "monotone", f"{name}: {xs} {lim}")
        for x, a, b in zip(xs, lim, unl):
            ctx.check(isinstance(a, int) and 0 <= a <= top, "limit", f"{name}: {x} -> {a!r}")
            ctx.check(abs(b - x / lsb) <= 1 + 1e-12 * abs(x / lsb), "physical-to-raw", f"{name}: {x} -> {b}, exact {x / lsb}")
            ctx.eq(a, min(max(b, 0), top), "limit", f"{name}: limited and unlimited disagree for {x}")
            if 0 <= x < full:
                ctx.check(abs(to_phy(a) - x) <= lsb * (1 + 1e-9), "inverse", f"{name}: {x} -> {a} -> {to_phy(a)}")
            ctx.count("physical")
        for r in (-1, -1000, top + 1, 10 * top, 0, top):
            p = to_phy(r)
            ctx.check(abs(p - min(max(r, 0), top) * lsb) < 1e-9, "limit", f"{name}: count {r} -> {p}")
            p = to_phy(r, limited=False)
            ctx.check(abs(p - r * lsb) < 1e-9 * (1 + abs(p)), "unlimited", f"{name}: count {r} -> {p}")
        ctx.seen("phy", name, tuple(sorted({(x < 0, x >= full) for x in xs})))


def rand_pairs(rng, npr, n, noise=0.0):
    gain = 10 ** rng.uniform(-9, 0)
    top = rng.choice([2**16, 2**18, 1000])
    xs = [rng.uniform(1, top) for _ in range(n)] if rng.random() < 0.5 else [float(v) for v in rng.sample(range(1, top), n)]
    while max(xs) - min(xs) < 0.1 * top:
        xs = [rng.uniform(1, top) for _ in range(n)]
    off = rng.choice([0, 1, -1]) * gain * rng.uniform(0, top / 3)
    ys = [gain * x + off + noise * gain * top * rng.uniform(-1, 1) for x in xs]
    return gain, off, top, [{"shepherd_raw": x, "reference_si": y} for x, y in zip(xs, ys)]


def scattered(rng, n):
    """Pairs that follow a line only roughly (r-squared between 0.8 and 0.998)."""
    for _ in range(20):
        amp = rng.choice([0.05, 0.1, 0.2, 0.4])
        xs = np.array([100.0 * k + rng.uniform(0, 50) for k in range(n)])
        ys = 1e-3 * (xs + xs.max() * amp * np.array([rng.uniform(-1, 1) for _ in range(n)]))
        if 0.8 < np.corrcoef(xs, ys)[0, 1] ** 2 < 0.998 and ys.min() > 0:
            return [{"shepherd_raw": float(x), "reference_si": float(y)} for x, y in zip(xs, ys)]
    return None


def case_fit(ctx):
    rng, npr = ctx.rng, ctx.np_rng()
    n = rng.choice([2, 2, 3, 5, 20, 100])
    noise = rng.choice([0, 0, 1e-5, 1e-4])
    gain, off, top, pairs = rand_pairs(rng, npr, n, noise)
    if rng.random() < 0.2:
        pairs = pairs + rng.sample(pairs, 1)
    cal = meas_to_cal(pairs, "test")
    span = max(p["shepherd_raw"] for p in pairs) - min(p["shepherd_raw"] for p in pairs)
    if noise == 0:
        ctx.check(abs(cal.gain / gain - 1) < 1e-9, "fit-gain", f"gain {cal.gain}, line has {gain} ({n} pairs)")
        ctx.check(abs(cal.offset - off) < 1e-9 * gain * top, "fit-offset", f"offset {cal.offset}, line has {off}")
        for p in pairs:
            ctx.check(abs(cal.raw_to_si(p["shepherd_raw"]) - p["reference_si"]) < 1e-9 * gain * top, "fit-pair", f"{p} -> {cal.raw_to_si(p['shepherd_raw'])}")
    else:
        # reference: closed-form least squares around the mean
        x = np.array([p["shepherd_raw"] for p in pairs])
        y = np.array([p["reference_si"] for p in pairs])
        dx, dy = x - x.mean(), y - y.mean()
        g = (dx * dy).sum() / (dx * dx).sum()
        ctx.check(abs(cal.gain / g - 1) < 1e-8, "fit-gain", f"gain {cal.gain}, least squares {g}")
        ctx.check(abs(cal.offset - (y.mean() - g * x.mean())) < 1e-8 * gain * top, "fit-offset", f"offset {cal.offset}")
        ctx.check(abs(cal.gain / gain - 1) < 4 * noise * top / span * 2 + 1e-9, "fit-gain", "noisy fit is off the line")
    # scatter beyond the documented correlation threshold
    bad = scattered(rng, max(n, 5))
    if bad:
        ctx.rejects(lambda: meas_to_cal(bad, "test"), "degenerate-accepted", f"scattered pairs {bad[:6]}")
        ctx.count("scattered")
    mixed = pairs[:]
    rng.shuffle(mixed)
    cal2 = meas_to_cal(mixed, "test")
    ctx.check(abs(cal2.gain / cal.gain - 1) < 1e-9 and abs(cal2.offset - cal.offset) < 1e-9 * gain * top, "fit-order", f"{cal} vs {cal2} for shuffled pairs")
    ctx.count("fits")
    ctx.seen("fit", n, noise, off > 0, off < 0, len(pairs))
    ctx.sample({"pairs": pairs[:3], "gain": gain, "offset": off})


def case_degenerate(ctx):
    rng, npr = ctx.rng, ctx.np_rng()
    _, _, top, pairs = rand_pairs(rng, npr, rng.choice([2, 3, 6]))
    kind = rng.choice(["one", "none", "same", "same-x", "same-y", "falling", "random", "zero-raw", "negative-raw", "nan"])
    if kind == "one":
        pairs = pairs[:1]
    elif kind == "none":
        pairs = []
    elif kind == "same":
        pairs = [pairs[0]] * rng.randint(2, 5)
    elif kind == "same-x":
        pairs = [{**p, "shepherd_raw": 55.0} for p in pairs]
    elif kind == "same-y":
        pairs = [{**p, "reference_si": 0.1 * rng.randint(0, 9)} for p in pairs]
        pairs = [{**p, "reference_si": pairs[0]["reference_si"]} for p in pairs]
    elif kind == "falling":
        pairs = [{"shepherd_raw": p["shepherd_raw"], "reference_si": -p["reference_si"] - 1} for p in pairs]
    elif kind == "random":
        pairs = [{"shepherd_raw": float(i + 1), "reference_si": [0.0, 5.0][i % 2]} for i in range(rng.randint(5, 30))]
    elif kind == "zero-raw":
        pairs = [{**pairs[0], "shepherd_raw": 0}, *pairs]
    elif kind == "negative-raw":
        pairs = [{**pairs[0], "shepherd_raw": -5}, *pairs]
    else:
        pairs = [{**pairs[0], "reference_si": float("nan")}, *pairs]
    ctx.rejects(lambda: meas_to_cal(pairs, "x"), "degenerate-accepted", f"{kind}: {pairs[:4]}")
    ctx.count("degenerate")
    ctx.seen("deg", kind, len(pairs))


HRV = ["dac_V_Hrv", "dac_V_Sim", "adc_V_Sense", "adc_C_Hrv"]
EMU = ["dac_V_A", "dac_V_B", "adc_C_A", "adc_C_B"]


def case_cape(ctx):
    rng, npr = ctx.rng, ctx.np_rng()
    lines = {}

    def meas(names):
        out = {}
        for nm in names:
            g, o, top, pairs = rand_pairs(rng, npr, rng.choice([2, 4, 4, 30, 120, 600]))
            lines[nm] = (g, o, top)
            sparse = rng.random()
            if sparse < 0.4 and len(pairs) > 4:
                # dense on one end, so dropping some is visible
                pairs = sorted(pairs, key=lambda p: p["shepherd_raw"], reverse=rng.random() < 0.5)
            mean = sum(p["shepherd_raw"] for p in pairs) / len(pairs)
            if len(pairs) > 4:
                # two levels of noise that cancel out for the complete measurement only
                x = np.array([p["shepherd_raw"] for p in pairs])
                d = (x - mean) ** 2 / top**2
                basis = np.stack([np.ones_like(x), x / top], axis=1)
                d = d - basis @ np.linalg.lstsq(basis, d, rcond=None)[0]
                pairs = [{**p, "reference_si": p["reference_si"] + 0.05 * g * top * float(e)} for p, e in zip(pairs, d)]
            out[nm] = pairs
        return out

    kw = {}
    which = rng.choice(["both", "hrv", "emu", "none"])
    if which in {"both", "hrv"}:
        kw["harvester"] = CalMeasurementHarvester(**meas(HRV))
    if which in {"both", "emu"}:
        kw["emulator"] = CalMeasurementEmulator(**meas(EMU))
    if rng.random() < 0.5:
        kw["cape"] = {"serial_number": f"S{rng.randint(0, 999)}"}
        kw["host"] = "sheep7"
    m = CalMeasurementCape(**kw)
    via_file = rng.random() < 0.5
    if via_file:
        m = CalMeasurementCape.from_file(m.to_file(ctx.dir / "m.yaml"))
    cal = m.to_cal()
    ctx.check(isinstance(cal, CalibrationCape), "cape-type", "result")
    dflt = CalibrationCape()
    for grp, names in (("harvester", HRV), ("emulator", EMU)):
        for nm in names:
            pair = cal[grp][nm]
            if nm in lines:
                g, o, top = lines[nm]
                ctx.check(abs(pair.gain / g - 1) < 1e-9 and abs(pair.offset - o) < 1e-8 * g * top, "cape-channel", f"{nm}: {pair} measured line {g}, {o}")
            else:
                ctx.check(pair.gain == dflt[grp][nm].gain and pair.offset == dflt[grp][nm].offset, "cape-default", f"{nm} is not the default")
    ctx.eq(cal.host, kw.get("host"), "cape-host", "host")
    ctx.eq(cal.cape.serial_number if cal.cape else None, kw["cape"]["serial_number"] if "cape" in kw else None, "cape-data", "serial number")
    # one bad channel spoils the measurement
    if which != "none":
        grp, names, cls = ("harvester", HRV, CalMeasurementHarvester) if which != "emu" else ("emulator", EMU, CalMeasurementEmulator)
        bad = meas(names)
        bad[rng.choice(names)] = [{"shepherd_raw": float(i + 1), "reference_si": float(i % 2)} for i in range(8)] if rng.random() < 0.5 else scattered(rng, 8) or [{"shepherd_raw": float(i + 1), "reference_si": float(i % 2)} for i in range(8)]
        ctx.rejects(lambda: CalMeasurementCape(**{grp: cls(**bad)}).to_cal(), "degenerate-accepted", "uncorrelated channel")
    ctx.count("capes")
    ctx.seen("cape", which, via_file, "cape" in kw)


FAMILIES = {
    "counts": Family(case_counts, quick=16, thorough=16),
    "physical": Family(case_physical, quick=320, thorough=30000),
    "fit": Family(case_fit, quick=1600, thorough=60000),
    "degenerate": Family(case_degenerate, quick=480, thorough=6000),
    "cape": Family(case_cape, quick=320, thorough=10000),
}
