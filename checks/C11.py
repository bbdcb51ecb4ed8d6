"""C11: calibration converts consistently and survives its storage formats."""
import math
import struct

import numpy as np
from shepherd_core import CalibrationCape
from shepherd_core import CalibrationEmulator
from shepherd_core import CalibrationHarvester
from shepherd_core import CalibrationPair
from shepherd_core import CalibrationSeries
from shepherd_core.calibration_hw_def import adc_current_to_raw
from shepherd_core.calibration_hw_def import adc_voltage_to_raw
from shepherd_core.calibration_hw_def import dac_voltage_to_raw
from shepherd_core.data_models.base.calibration import CapeData

from vlib.core import Family

PROPERTY = "C11"
TECHNIQUE = "round-trip monitors (exact rational reference for conversions, independent struct decoding for EEPROM bytes, fixed-point reference for driver settings)"
LEVEL_NOTE = "Conversion results are compared with an exact rational reference; storage round trips bit by bit for generated calibrations incl. extreme ones."
RULE = ("A case draws calibration pairs over many magnitudes (also integers, zero and negative offsets), converts scalars and arrays of several types in both directions and stores/reloads "
        "complete capes. Signature: gain decade, offset class, value kind, container type.")
REQUIRED = {"conversions": 3000, "probed": 200, "eeprom": 60, "sysfs": 100, "sysfs_rejected": 10, "foreign": 40, "files": 20, "series": 20}

HRV = ["dac_V_Hrv", "dac_V_Sim", "adc_V_Sense", "adc_C_Hrv"]
EMU = ["dac_V_A", "dac_V_B", "adc_C_A", "adc_C_B"]


def rand_pair(rng, *, wide=True):
    gain = 10 ** rng.uniform(-12, 4 if wide else -2)
    if rng.random() < 0.15:
        gain = rng.choice([1, 2, 0.5, 1.0, 1e-9])
    if rng.random() < 0.3:
        off = rng.choice([0, 0.0, 1, -1])
    else:
        off = rng.choice([-1, 1]) * gain * 10 ** rng.uniform(-3, 5)
    return {"gain": gain, "offset": off}


def case_convert(ctx):
    rng, npr = ctx.rng, ctx.np_rng()
    from fractions import Fraction

    p = rand_pair(rng)
    cal = CalibrationPair(**p)
    g, o = Fraction(float(cal.gain)), Fraction(float(cal.offset))
    # probing a linear function (limited to the range of a converter unless told otherwise)
    fg, fo = float(g), float(o)
    if abs(fo) < 1e3:
        def fn(x, *, limited=True):
            y = (x - fo) / fg
            return min(max(y, 0.0), 2**18 - 1.0) if limited else y

        probed = CalibrationPair.from_fn(fn, unit="V")
        tol = 1e-13 * (1 + abs(fo))
        ctx.check(abs(probed.gain / fg - 1) <= tol and abs(probed.offset - fo) <= tol * (1 + abs(fo)) and probed.unit == "V", "probed-function", lambda: f"{probed!r} for gain {fg}, offset {fo}")
        ctx.count("probed")
    kind = rng.choice(["int", "float", "u4", "f8", "np-scalar", "u8small", "2d", "empty"])
    n = rng.choice([1, 5, 40])
    raws = [rng.choice([0, 1, 2, 2**18 - 1, 2**16, 2**32 - 1, rng.getrandbits(32), rng.getrandbits(12)]) for _ in range(n)]
    scale = float(abs(o) + g * max(raws))  # magnitudes involved
    eps = scale * 1e-15

    def to_container(vals):
        if kind == "u4":
            return np.array(vals, np.uint32)
        if kind == "u8small":
            return np.array(vals, np.uint64)
        if kind in {"f8"}:
            return np.array(vals, float)
        if kind == "2d":
            return np.array([vals, vals], np.uint32)
        return None

    # --- raw -> si (-> raw)
    if kind in {"int", "float", "np-scalar"}:
        for r in raws:
            x = {"int": r, "float": float(r), "np-scalar": np.float64(r)}[kind]
            si = cal.raw_to_si(x)
            want = g * r + o
            ctx.check(abs(Fraction(float(si)) - want) <= Fraction(eps), "raw-to-si", f"{r} -> {si!r}, exact {float(want)!r} ({p})")
            ctx.check(isinstance(si, float), "scalar-type", f"result is a {type(si)}")
            back = cal.si_to_raw(si)
            # offsets below the resolution of the float keep the result off by what float resolves
            slack = int(scale * 2**-51 / float(g)) if scale * 2**-51 / float(g) >= 0.5 else 0
            if want >= 0 or True:
                ctx.check(abs(int(back) - r) <= slack, "identity", f"raw {r} -> {si!r} -> {back!r} ({p})")
            pos = cal.raw_to_si(x, allow_negative=False)
            ctx.check(float(pos) == max(float(si), 0.0), "no-negative", f"{pos!r} for {si!r}")
            ctx.count("conversions")
    elif kind == "empty":
        e = np.empty(0, np.uint32)
        ctx.check(len(cal.raw_to_si(e)) == 0 and len(cal.si_to_raw(np.empty(0))) == 0, "empty", "empty array")
        ctx.count("conversions")
    else:
        arr = to_container(raws)
        keep = arr.copy()
        si = cal.raw_to_si(arr)
        ctx.check(np.array_equal(arr, keep) and arr.dtype == keep.dtype, "input-modified", "raw_to_si changed its input")
        flat = np.ravel(si)
        for r, s in zip(np.ravel(keep).tolist(), flat.tolist()):
            ctx.check(abs(Fraction(s) - (g * int(r) + o)) <= Fraction(eps), "raw-to-si", f"{r} -> {s!r} ({p})")
            ctx.check(s == cal.raw_to_si(int(r)), "scalar-array", f"scalar and array conversion of {r} differ ({p})")
            ctx.count("conversions")
        keep_si = si.copy()
        back = cal.si_to_raw(si)
        ctx.check(np.array_equal(si, keep_si), "input-modified", "si_to_raw changed its input")
        slack = max(0.0, scale * 2**-51 / float(g))
        slack = slack if slack >= 0.5 else 0
        ctx.check(back.shape == arr.shape and np.abs(back - keep.astype(float)).max() <= slack, "identity", lambda: f"{keep[:5]} -> {si[:5]} -> {back[:5]} ({p})")
        neg = cal.raw_to_si(arr, allow_negative=False)
        ctx.check(np.array_equal(neg, np.maximum(si, 0)), "no-negative", "allow_negative=False")
        ctx.check(np.array_equal(arr, keep), "input-modified", "raw_to_si changed its input")
    # --- si -> raw -> si
    vals = sorted(float(o) + float(g) * 10 ** rng.uniform(-1, 9) * rng.choice([1, 1, 1, -1]) for _ in range(n))
    raw_s = [cal.si_to_raw(v) for v in vals]
    keep = np.array(vals)
    work = keep.copy()
    raw_a = cal.si_to_raw(work)
    ctx.check(np.array_equal(work, keep), "input-modified", "si_to_raw changed its input")
    ctx.check(np.array_equal(np.array(raw_s, float), np.asarray(raw_a, float)), "scalar-array", f"scalar and array conversion differ {vals[:3]}")
    for v, r in zip(vals, raw_s):
        ctx.check(r >= 0 and float(r) == math.floor(r), "raw-range", f"{v} -> {r!r}")
        exact = (Fraction(v) - o) / g
        tol = Fraction(1, 2) + Fraction(4 * 2.0**-52 * (abs(v) + abs(float(o))) / float(g)) + Fraction(float(abs(exact)) * 1e-15)
        ctx.check(abs(Fraction(int(r)) - max(exact, 0)) <= tol, "si-to-raw", f"{v!r} -> {r}, exact {float(exact)} ({p})")
        if exact >= 0:
            s2 = cal.raw_to_si(r)
            ctx.check(abs(Fraction(float(s2)) - Fraction(v)) <= tol * g, "half-step", f"{v!r} -> {r} -> {s2!r} (gain {float(g)})")
        ctx.count("conversions")
    ctx.check(all(a <= b for a, b in zip(raw_s, raw_s[1:])), "monotone", f"{vals} -> {raw_s}")
    ctx.seen(kind, round(math.log10(float(g))), float(o) == 0, float(o) < 0, isinstance(p["offset"], int), n)
    ctx.sample({"pair": p, "kind": kind})


def rand_cape_data(rng):
    kw = {"serial_number": rng.choice(["A1", "2024-01-01", "0123456789AB", "on", "1e5", "12", "0x1F"])}
    if rng.random() < 0.5:
        kw["version"] = rng.choice(["24B0", "1", "null", "1.0"])
        kw["cal_date"] = rng.choice(["2023-01-01", "1999-12-31"])
        kw["header"] = rng.choice([b"\xaa\x55\x33\xee", b"\x00\x01", b"abcd"])
    return CapeData(**kw)


def rand_cape(rng, *, wide=True):
    kw = {}
    if rng.random() < 0.85:
        kw["harvester"] = CalibrationHarvester(**{k: rand_pair(rng, wide=wide) for k in HRV if rng.random() < 0.9})
    if rng.random() < 0.85:
        kw["emulator"] = CalibrationEmulator(**{k: rand_pair(rng, wide=wide) for k in EMU if rng.random() < 0.9})
    if rng.random() < 0.5:
        kw["cape"] = rand_cape_data(rng)
        kw["host"] = rng.choice(["sheep01", "null", "h"])
    return CalibrationCape(**kw)


def values(cal):
    return [float(x) for grp, names in ((cal.harvester, HRV), (cal.emulator, EMU)) for nm in names for x in (grp[nm].gain, grp[nm].offset)]


def case_eeprom(ctx):
    rng = ctx.rng
    cal = rand_cape(rng)
    data = cal.to_bytestr()
    ctx.eq(len(data), 16 * 8, "eeprom-size", "bytes written")
    ctx.eq(list(struct.unpack(">16d", data)), values(cal), "eeprom-content", "documented layout: big endian doubles in field order")
    cape = rand_cape_data(rng) if rng.random() < 0.5 else None
    back = CalibrationCape.from_bytestr(data, cape)
    ctx.eq(values(back), values(cal), "eeprom-roundtrip", "calibration after reload")
    ctx.eq(back.cape, cape, "eeprom-cape", "given cape data")
    ctx.eq(back.to_bytestr(), data, "eeprom-stable", "bytes of reloaded calibration")
    ctx.eq(values(CalibrationCape()), DEFAULTS, "defaults-changed", "default calibration after round trip")
    # foreign content
    bad = rng.choice(["short", "long", "empty", "negative", "nan", "zero", "ff", "erased"])
    blob = {"short": data[:-1], "long": data + b"\0" * rng.choice([1, 8]), "empty": b"", "negative": None, "nan": None, "zero": bytes(128), "ff": b"\xff" * 128, "erased": b"\xff" * 64 + data[64:]}[bad]
    if blob is None:
        i = rng.randrange(8) * 2
        vals = values(cal)
        vals[i] = {"negative": -vals[i], "nan": float("nan")}[bad]
        blob = struct.pack(">16d", *vals)
    ctx.rejects(lambda: CalibrationCape.from_bytestr(blob), "foreign-accepted", f"{bad} EEPROM content")
    ctx.count("foreign")
    ctx.count("eeprom")
    ctx.seen("eeprom", bad, cal.cape is None, cape is None)


DEFAULTS = values(CalibrationCape())


def case_file(ctx):
    rng = ctx.rng
    cal = rand_cape(rng)
    path = cal.to_file(ctx.dir / rng.choice(["cal", "cal.yaml"]), minimal=rng.random() < 0.5)
    back = CalibrationCape.from_file(path)
    ctx.eq(back, cal, "file-roundtrip", "calibration reloaded from file")
    ctx.eq(values(back), values(cal), "file-roundtrip", "values reloaded from file")
    ctx.rejects(lambda: CalibrationHarvester.from_file(path), "foreign-accepted", "cape file as harvester")
    txt = path.read_text()
    bad = rng.choice(["type", "negative", "unknown", "text"])
    if bad == "type":
        txt = txt.replace("datatype: CalibrationCape", "datatype: VirtualSourceConfig")
    elif bad == "negative":
        txt += "  emulator:\n    dac_V_A:\n      gain: -1.0\n" if "emulator" not in txt else ""
        txt = txt.replace("gain: ", "gain: -", 1)
    elif bad == "unknown":
        txt = txt.rstrip("\n") + "\n  not_a_field: 5\n" if not txt.rstrip().endswith("{}") else txt.replace("{}", "{not_a_field: 5}")
    else:
        txt = "hello: world\n"
    (ctx.dir / "bad.yaml").write_text(txt)
    ctx.rejects(lambda: CalibrationCape.from_file(ctx.dir / "bad.yaml"), "foreign-accepted", f"{bad}: {txt[:200]}")
    ctx.count("foreign")
    ctx.count("files")
    ctx.seen("file", bad, cal.cape is None)


def case_sysfs(ctx):
    rng = ctx.rng
    cal = rand_cape(rng, wide=rng.random() < 0.5)
    h, e = cal.harvester, cal.emulator
    for who, obj, cur, vol, dac in (("hrv", h, h.adc_C_Hrv, h.adc_V_Sense, h.dac_V_Hrv), ("emu", e, e.adc_C_A, None, e.dac_V_A)):
        exact = {
            "adc_current_gain": 1e9 * 256 * cur.gain,
            "adc_current_offset": 1e9 * cur.offset,
            "adc_voltage_gain": 1e6 * 256 * (vol.gain if vol else 1.0),
            "adc_voltage_offset": 1e6 * (vol.offset if vol else 0.0),
            "dac_voltage_gain": 2**20 / (1e6 * dac.gain),
            "dac_voltage_offset": 1e6 * dac.offset,
        }
        edge = any(abs(abs(v) - lim) < 2 for k, v in exact.items() for lim in (2**32, 2**31))
        fits = all((0 <= v < 2**32 - 1) if "gain" in k else (-(2**31) <= v < 2**31 - 1) for k, v in exact.items())
        try:
            got = obj.export_for_sysfs()
        except (ValueError, OverflowError):
            ctx.check(not fits or edge, "sysfs-rejected", f"{who}: representable values rejected: {exact}")
            ctx.count("sysfs_rejected")
            continue
        ctx.check(fits or edge, "sysfs-wrapped", f"{who}: {got} for unrepresentable {exact}")
        ctx.eq(sorted(got), sorted(exact), "sysfs-keys", "settings")
        for k, v in got.items():
            ctx.check(isinstance(v, int), "sysfs-type", f"{k} = {v!r}")
            ctx.check(abs(v - exact[k]) <= 0.5 + 1e-12 * abs(exact[k]), "sysfs-value", f"{who} {k}: {v} for {exact[k]}")
            ctx.check((0 <= v < 2**32) if "gain" in k else (-(2**31) <= v < 2**31), "sysfs-range", f"{k}={v}")
        ctx.count("sysfs")
        ctx.seen("sysfs", who, tuple(int(math.log2(abs(v) + 1)) // 8 for v in got.values()))


def case_series(ctx):
    rng = ctx.rng
    cal = rand_cape(rng)
    port_a = rng.random() < 0.5
    s = CalibrationSeries.from_cal(cal.harvester)
    ctx.check(s.voltage == cal.harvester.adc_V_Sense and s.current == cal.harvester.adc_C_Hrv, "series", f"harvester series {s}")
    s = CalibrationSeries.from_cal(cal.emulator, emu_port_a=port_a)
    v, c = (cal.emulator.dac_V_A, cal.emulator.adc_C_A) if port_a else (cal.emulator.dac_V_B, cal.emulator.adc_C_B)
    ctx.check(s.voltage == v and s.current == c, "series", f"emulator series, port a: {port_a}")
    ctx.check(s.time.gain == 1e-9 and s.time.offset == 0, "series", "time of series")
    # default calibration agrees with the hardware formulas
    d = CalibrationCape()
    for fn, names, top in ((dac_voltage_to_raw, ("dac_V_Hrv", "dac_V_Sim", "dac_V_A", "dac_V_B"), 5.0), (adc_voltage_to_raw, ("adc_V_Sense",), 5.12),
                           (adc_current_to_raw, ("adc_C_Hrv", "adc_C_A", "adc_C_B"), 0.0533)):
        for nm in names:
            pair = (d.harvester if nm in HRV else d.emulator)[nm]
            x = rng.uniform(0, top)
            ctx.check(abs(pair.si_to_raw(x) - fn(x, limited=False)) <= 2 + x, "default-cal", f"{nm}: {pair.si_to_raw(x)} vs {fn(x, limited=False)} for {x}")
    for bad in ({"gain": 0}, {"gain": -1e-9}, {"gain": float("nan")}, {"gain": 1, "offset": float("inf")}, {"gain": "x"}, {}, {"gain": 1, "foo": 2}):
        ctx.rejects(lambda b=bad: CalibrationPair(**b), "bad-pair", f"{bad}")
    ctx.count("series")
    ctx.seen("series", port_a, ctx.index)


FAMILIES = {
    "convert": Family(case_convert, quick=1800, thorough=180000),
    "eeprom": Family(case_eeprom, quick=480, thorough=30000),
    "file": Family(case_file, quick=240, thorough=9000),
    "sysfs": Family(case_sysfs, quick=900, thorough=45000),
    "series": Family(case_series, quick=180, thorough=3000),
}
