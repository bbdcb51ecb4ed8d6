"""C04: metadata, configuration and calibration survive storing in a recording."""
import math

import h5py
import numpy as np
import yaml
from shepherd_core import CalibrationEmulator
from shepherd_core import CalibrationHarvester
from shepherd_core import CalibrationPair
from shepherd_core import CalibrationSeries
from shepherd_core import Reader
from shepherd_core import Writer
from shepherd_core.data_models import EnergyDType
from shepherd_core.data_models import VirtualHarvesterConfig
from shepherd_core.data_models import VirtualSourceConfig
from shepherd_core.data_models.task import Compression
from shepherd_data import Reader as DReader

from vlib import rec
from vlib.core import Family

PROPERTY = "C04"
TECHNIQUE = "round-trip monitor: stored metadata compared with every reader-side report (getters, attributes, metadata file)"
LEVEL_NOTE = "Generated metadata is written through the writer and compared with all reporting paths of both readers, after re-opening and in the YAML dump."
RULE = ("A case stores a generated set of mode/type/window/calibration/config/hostname/attributes in 1-3 sessions and reads everything back, "
        "or tries an unsupported combination, or records a ramp for the voltage step. Signature: combination and kinds of config/calibration.")
REQUIRED = {"roundtrips": 40, "configs": 30, "rejected_combos": 20, "rejected_reopens": 20, "calibrations_replaced": 10, "steps_checked": 30, "metadata_files": 20}

COMBOS = [("harvester", "ivsample"), ("harvester", "ivcurve"), ("harvester", "isc_voc"), ("emulator", "ivsample")]
SRC_NAMES = ["dio_cap", "BQ25504", "BQ25570", "direct", "BQ25504s", "diode+capacitor"]
HRV_NAMES = ["mppt_opt", "mppt_po", "mppt_voc", "cv20", "ivcurve", "isc_voc"]


def rand_yaml(rng, depth=0):
    k = rng.random()
    if depth < 3 and k < 0.3:
        return {rng.choice("abcdefgh") + str(i): rand_yaml(rng, depth + 1) for i in range(rng.randint(0, 4))}
    if depth < 3 and k < 0.45:
        return [rand_yaml(rng, depth + 1) for _ in range(rng.randint(0, 4))]
    return rng.choice([None, True, False, 0, -5, 10**12, 1.5, -2.5e-9, 1e300, "", "text", "äöü ß €", "multi\nline: x", "yes", "123", "1e5", "- a", "{}", "#c", " lead"])


def rand_config(rng):
    k = rng.choice(["src", "hrv", "rand", "rand", "vh"])
    if k == "src":
        return k, VirtualSourceConfig(name=rng.choice(SRC_NAMES), C_intermediate_uF=rng.uniform(1, 1000)).model_dump()
    if k == "hrv":
        return k, VirtualHarvesterConfig(name=rng.choice(HRV_NAMES)).model_dump(exclude_unset=True)
    if k == "vh":
        return k, {"virtual_harvester": {"voltage_step_mV": rng.choice([1, 5, 12.5, 100]), "name": "x"}}
    c = {f"k{i}": rand_yaml(rng) for i in range(rng.randint(0, 6))}
    c.pop("virtual_harvester", None)
    return k, c


def rand_cal(rng):
    def pair(lo, hi):
        return CalibrationPair(gain=10 ** rng.uniform(lo, hi), offset=rng.choice([0, rng.uniform(-1, 1)]))

    k = rng.choice(["series", "hrv", "emu", "none"])
    if k == "series":
        cal = CalibrationSeries(voltage=pair(-10, -3), current=pair(-13, -6), time=CalibrationPair(gain=10 ** rng.uniform(-10, -6), offset=rng.choice([0, 3.5])))
        return k, cal, (cal.voltage, cal.current, cal.time)
    if k == "hrv":
        cal = CalibrationHarvester(adc_V_Sense=pair(-7, -5), adc_C_Hrv=pair(-9, -6), dac_V_Hrv=pair(-6, -4))
        return k, cal, (cal.adc_V_Sense, cal.adc_C_Hrv, CalibrationSeries().time)
    if k == "emu":
        cal = CalibrationEmulator(dac_V_A=pair(-6, -4), dac_V_B=pair(-6, -4), adc_C_A=pair(-9, -6), adc_C_B=pair(-9, -6))
        return k, cal, (cal.dac_V_A, cal.adc_C_A, CalibrationSeries().time)
    d = CalibrationSeries()
    return k, None, (d.voltage, d.current, d.time)


ATTRS = [0, -7, 2**40, 1.25, -1e-12, "some text", "ünï", "", "0123", "yes", "1_000", "null", "2024-01-02", "2024-99-99", "0x_", "1.50", "-0.25", "1.0e+3", "12:30", "a: b: c", "[1, ", "%x",
         True, [1, 2, 3], [], [0.5], [1.5, -2.0], ["a", "b"]]


def same(a, b):
    if isinstance(b, np.ndarray):
        return a == b.tolist()
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a):
        return math.isnan(b)
    return a == b and type(a) in (type(b), int, float, np.int64, np.float64, np.bool_, str, dict, list, bool)


def report(ctx, src, exp, what):
    ctx.eq(src.get_mode(), exp["mode"], "mode", what)
    ctx.eq(src.get_datatype(), EnergyDType[exp["datatype"]], "datatype", what)
    ctx.eq(src.get_window_samples(), exp["window"], "window", what)
    ctx.check(isinstance(src.get_window_samples(), int), "window", "type of window length")
    ctx.eq(src.get_hostname(), exp["host"], "hostname", what)
    ctx.eq(src.get_config(), exp["config"], "config", what)
    cal = src.get_calibration_data()
    for name, want in zip(("voltage", "current", "time"), exp["cal"]):
        got = getattr(cal, name)
        ctx.eq((got.gain, got.offset), (want.gain, want.offset), "calibration", f"{what}: {name}")
    for k, v in exp["attrs"].items():
        ctx.check(same(v, src[k]), "attribute", f"{what}: attribute {k} is {src[k]!r} instead of {v!r}")
    hc = src.get_hrv_config()
    ctx.eq((hc["datatype"], hc["window_samples"]), (EnergyDType[exp["datatype"]], exp["window"]), "hrv-config", what)
    ctx.check(src.is_valid(), "invalid", f"{what}: recording is not valid")


def case_roundtrip(ctx):
    rng, npr = ctx.rng, ctx.np_rng()
    path = ctx.dir / "m.h5"
    mode, dt = rng.choice(COMBOS)
    window = rng.choice([1, 2, 1000, 65_535]) if dt == "ivcurve" else rng.choice([0, None])
    calk, cal, pairs = rand_cal(rng)
    exp = {"mode": mode, "datatype": dt, "window": window or 0, "host": "unknown", "config": {}, "cal": pairs, "attrs": {}}
    kw = {"mode": mode, "datatype": rng.choice([dt, EnergyDType[dt]]), "window_samples": window, "cal_data": cal}
    if mode == "harvester" and rng.random() < 0.3:
        kw["mode"] = None
    if dt == "ivsample" and rng.random() < 0.3:
        kw["datatype"] = None
    sig = [mode, dt, calk]
    comp = rng.choice(["default", None, "null", "lzf", 1])
    if comp != "default":
        kw["compression"] = {None: None, "null": Compression.null, "lzf": Compression.lzf, 1: Compression.gzip1}[comp]
    sessions = rng.randint(1, 3)
    ivs = rec.iv_arrays(npr, 10_000)
    for s in range(sessions):
        with Writer(path, modify_existing=s > 0, verbose=False, **kw) as w:
            if s == 0:
                w.append_iv_data_raw(*ivs)
            if rng.random() < 0.8:
                k, exp["config"] = rand_config(rng)
                w.store_config(exp["config"])
                sig.append(k)
                ctx.count("configs")
            if rng.random() < 0.8:
                exp["host"] = rng.choice(["sheep0", "unit test", "artificial", "Knoten-ß", "0815", "on", "1e3", "10.42", "2024-13-45", "emu_sim_BQ25570.v2", "sheep1.testbed.local", "UPPER Case", "a/b:c", f"host{rng.randint(0, 999)}", f"x{rng.random()}"])
                w.store_hostname(exp["host"])
            for _ in range(rng.randint(0, 3)):
                key, val = f"attr{rng.randint(0, 3)}", rng.choice(ATTRS)
                w[key] = val
                exp["attrs"][key] = val
            report(ctx, w, exp, f"inside session {s}")
        with h5py.File(path, "r") as f:
            for ds in ("time", "voltage", "current"):
                got = (f["data"][ds].compression, f["data"][ds].compression_opts)
                ctx.eq(got, {None: (None, None), "null": (None, None), 1: ("gzip", 1)}.get(comp, ("lzf", None)), "compression", f"compression of {ds}, requested {comp}")
        kw = {}
        if rng.random() < 0.3:  # explicit change on re-opening
            mode, dt = rng.choice(COMBOS)
            window = rng.randint(1, 99) if dt == "ivcurve" else 0
            exp.update(mode=mode, datatype=dt, window=window)
            kw = {"mode": mode, "datatype": dt, "window_samples": window}
            if rng.random() < 0.5:  # a new calibration replaces the stored one
                calk, cal, pairs = rand_cal(rng)
                if cal is not None:
                    kw["cal_data"] = cal
                    exp["cal"] = pairs
                    ctx.count("calibrations_replaced")
            with Writer(path, modify_existing=True, verbose=False, **kw):
                pass
            # once more with only a part of it named
            part = {k: v for k, v in kw.items() if rng.random() < 0.5 and (k != "datatype" or mode == "emulator" or v != "isc_voc")}
            with Writer(path, modify_existing=True, verbose=False, **part):
                pass
            sig.append("partly")
            kw = {}
            sig.append("changed")
        for cls in (Reader, DReader):
            with cls(path, verbose=False) as r:
                report(ctx, r, exp, f"after session {s}")
        ctx.count("roundtrips")
    metadata(ctx, path, exp)
    ctx.seen(*sig, sessions)
    ctx.sample({"combo": sig, "config": exp["config"], "attrs": exp["attrs"]})


def metadata(ctx, path, exp):
    cls = ctx.rng.choice([Reader, DReader])
    with cls(path, verbose=False) as r:
        md = r.save_metadata()
        mini = r.get_metadata(minimal=True)
    yp = path.with_suffix(".yaml")
    ctx.check(yp.exists(), "metadata-file", "no metadata file was written")
    md2 = yaml.safe_load(yp.read_text(encoding="utf-8-sig"))
    for name, m in (("returned metadata", md), ("metadata file", md2), ("minimal metadata", mini)):
        ctx.eq(m.get("mode"), exp["mode"], "meta-mode", name)
        ctx.eq(m["data"].get("datatype"), exp["datatype"], "meta-datatype", name)
        ctx.eq(m["data"].get("window_samples"), exp["window"], "meta-window", name)
        if exp["host"] != "unknown":
            ctx.eq(m.get("hostname"), exp["host"], "meta-hostname", name)
        if exp["config"] and any(m_ for m_ in exp["config"]):
            got = m.get("config", m["data"].get("config"))
            ctx.eq(got, exp["config"], "meta-config", name)
        for ds, want in zip(("voltage", "current", "time"), exp["cal"]):
            ctx.eq((m["data"][ds]["gain"], m["data"][ds]["offset"]), (want.gain, want.offset), "meta-calibration", f"{name} {ds}")
        for k, v in exp["attrs"].items():
            ctx.eq(m.get(k), v, "meta-attribute", f"{name} {k}")
    ctx.check(set(md2["data"]["time"]) == set(md["data"]["time"]), "metadata-file", "file content differs from the returned metadata")
    ctx.count("metadata_files")


def case_reject(ctx):
    rng, npr = ctx.rng, ctx.np_rng()
    mode = rng.choice(["harvester", "emulator", "emulator", "both", "", "Harvester"])
    dt = rng.choice(["ivsample", "ivcurve", "isc_voc", "isc", "IVSAMPLE"])
    window = rng.choice([None, 0, 5])
    ok = (mode, dt) in COMBOS and not (dt == "ivcurve" and not window)
    path = ctx.dir / "r.h5"

    def make():
        with Writer(path, mode=mode, datatype=dt, window_samples=window, verbose=False) as w:
            w.append_iv_data_raw(*rec.iv_arrays(npr, 10_000))

    if ok:
        make()
        with Reader(path, verbose=False) as r:
            ctx.check(r.is_valid(), "invalid", f"{mode}/{dt}/{window}")
            ctx.eq((r.get_mode(), r.get_datatype().value, r.get_window_samples()), (mode, dt, window or 0), "combo", "accepted combination")
    else:
        ctx.rejects(make, "unsupported-accepted", f"mode={mode!r} datatype={dt!r} window={window}", (ValueError, KeyError))
        ctx.count("rejected_combos")
    # neither may an existing recording be turned into an unsupported combination
    old = rng.choice(COMBOS)
    p2 = ctx.dir / "old.h5"
    with Writer(p2, mode=old[0], datatype=old[1], window_samples=3 if old[1] == "ivcurve" else None, verbose=False) as w:
        w.append_iv_data_raw(*rec.iv_arrays(npr, 10_000))
    part = rng.choice(["mode", "datatype"])
    new = (mode, old[1]) if part == "mode" else (old[0], dt)
    if new not in COMBOS:
        state = rec.file_hash(p2)

        def reopen():
            with Writer(p2, modify_existing=True, verbose=False, **{part: mode if part == "mode" else dt}):
                pass

        ctx.rejects(reopen, "unsupported-accepted", f"re-opening {old} with {part}={new}", (ValueError, KeyError))
        with Reader(p2, verbose=False) as r:
            ctx.eq((r.get_mode(), r.get_datatype().value), old, "rejected-changed", f"{old} after rejected {new}")
            ctx.check(r.is_valid(), "rejected-changed", "recording became invalid by a rejected request")
        ctx.count("rejected_reopens")
    # the reader has to flag the same combination
    rec.raw_h5(ctx.dir / "x.h5", t=[1], v=[1], c=[1], mode=mode, datatype=dt, window=window or 0)
    with Reader(ctx.dir / "x.h5", verbose=False) as r:
        ctx.eq(bool(r.is_valid()), ok, "validity", f"mode={mode!r} datatype={dt!r} window={window}")
    ctx.seen(mode, dt, window)


def case_step(ctx):
    """Voltage step of curve recordings."""
    rng, npr = ctx.rng, ctx.np_rng()
    path = ctx.dir / "s.h5"
    n_w = rng.choice([10, 100, 1000, 909])
    k_step = rng.choice([1, 37, 5_000, 333_333, 1_000_000])
    base = rng.choice([0, 12_345])
    ramp = base + k_step * np.arange(n_w, dtype=np.int64)
    if ramp[-1] >= 2**32:
        k_step = 5
        ramp = base + k_step * np.arange(n_w, dtype=np.int64)
    if rng.random() < 0.5:
        ramp = ramp[::-1]
    hold = rng.choice([1, 1, 1, 4, 150, 700, 1500])  # every voltage may be held for some samples
    v = np.tile(np.repeat(ramp, hold), 20_000 // (n_w * hold) + 1)[:20_000].astype(np.uint32)
    t, _, c = rec.iv_arrays(npr, 20_000)
    gain = 10 ** rng.uniform(-9, -6)
    cal = CalibrationSeries(voltage=CalibrationPair(gain=gain, offset=rng.choice([0, 0.5])))
    cfg = rng.choice([None, None, {"virtual_harvester": {"voltage_step_mV": rng.choice([1, 2.5, 60])}}, {"other": 1}, {"virtual_harvester": {"name": "x"}}])
    with Writer(path, mode="harvester", datatype="ivcurve", window_samples=n_w * hold, cal_data=cal, verbose=False) as w:
        w.append_iv_data_raw(t, v, c)
        if cfg is not None:
            w.store_config(cfg)
    want = k_step * gain
    if cfg and cfg.get("virtual_harvester", {}).get("voltage_step_mV"):
        want = cfg["virtual_harvester"]["voltage_step_mV"] * 1e-3
    for cls in (Reader, DReader):
        with cls(path, verbose=False) as r:
            got = r.get_voltage_step()
            ctx.check(got is not None and abs(got - want) <= 1e-6 * want, "voltage-step", f"reported {got} V, recorded ramp has {want} V (config={cfg})")
            ctx.eq(r.get_hrv_config()["voltage_step_V"], got, "hrv-config", "voltage step")
    ctx.count("steps_checked")
    ctx.seen("step", n_w, hold, k_step, bool(cfg), ramp[0] < ramp[-1])
    with Writer(ctx.dir / "c.h5", verbose=False) as w:
        w.append_iv_data_raw(t, np.full(20_000, 5, np.uint32), c)
    with Reader(ctx.dir / "c.h5", verbose=False) as r:
        ctx.eq(r.get_voltage_step(), None, "voltage-step", "static voltage has no step")


FAMILIES = {
    "roundtrip": Family(case_roundtrip, quick=160, thorough=12500),
    "reject": Family(case_reject, quick=180, thorough=5000),
    "step": Family(case_step, quick=80, thorough=3000),
}
