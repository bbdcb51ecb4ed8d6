"""C16 - emulator register sets represent the requested source faithfully.

Deciding step: for accepted configurations the produced register sets are decoded back to physical
units and compared with the requested configuration to the resolution of the register; requests
that must not be accepted are observed to raise.
"""
from __future__ import annotations

import math

from vlib.core import Ctx
from vlib.core import Family
from vlib.vsrc import fixture_names
from vlib.vsrc import rand_lut1
from vlib.vsrc import rand_vsrc

PROPERTY = "C16"
TECHNIQUE = "runtime monitoring: register sets produced by the real conversion are decoded back to physical units by a monitor (round-trip oracle); contradictory requests must be observed to raise"
LEVEL_NOTE = "real model validation + register conversion for fixtures, random and extreme configurations; every register decoded and compared to its resolution"
RULE = "case = batch of source/harvester configurations incl. all limits of every field; non-trivial: registers decoded, rejected requests"
REQUIRED = {"converter_sets": 300, "harvester_sets": 300, "registers": 20_000, "extreme_fields": 100, "rejections": 400, "fixture_sets": 15, "dv_nonzero": 50, "mode_bits": 300, "window_override": 50}

U32 = 2**32


def near(ctx: Ctx, got, want, res, key, what):
    """Register `got` stands for physical `want` (in register units) to its resolution."""
    ctx.counts["assertions"] += 1
    ctx.counts["registers"] += 1
    if isinstance(got, bool):
        got = int(got)
    if not isinstance(got, int):
        ctx.fail(key, f"{what}: register holds {type(got).__name__} {got!r}")
    if not 0 <= got < U32:
        ctx.fail("register-range", f"{what}: {got} exceeds u32")
    if not abs(got - want) <= res:
        ctx.fail(key, f"{what}: register {got}, configured value stands for {want}")


def surge_mV(c, v):
    cs, co, vo = c.C_intermediate_uF, c.C_output_uF, c.V_output_mV
    if not (cs > 0 and co > 0):
        return 0.0
    rest = v**2 - (co / cs) * vo**2
    if not rest >= 0:
        return 0.0
    return v - math.sqrt(rest)


def judge_converter(ctx: Ctx, c, r, dtype, log_mid) -> None:
    ctx.count("converter_sets")
    storage = c.C_intermediate_uF > 0
    boost = c.enable_boost and storage
    fb = c.enable_feedback_to_hrv and storage and not boost and dtype == "ivcurve"
    mode = int(storage) + 2 * int(boost) + 4 * int(c.enable_buck) + 8 * int(log_mid) + 16 * int(fb)
    ctx.count("mode_bits")
    ctx.eq(int(r.converter_mode), mode, "mode-bits", f"boost={c.enable_boost} buck={c.enable_buck} C={c.C_intermediate_uF} feedback={c.enable_feedback_to_hrv} {dtype}")
    for reg, val, f in (
        ("interval_startup_delay_drain_n", c.interval_startup_delay_drain_ms, 1e2),
        ("V_input_max_uV", c.V_input_max_mV, 1e3), ("I_input_max_nA", c.I_input_max_mA, 1e6), ("V_input_drop_uV", c.V_input_drop_mV, 1e3),
        ("R_input_kOhm_n22", c.R_input_mOhm, 1e-6 * 2**22), ("V_intermediate_init_uV", c.V_intermediate_init_mV, 1e3),
        ("I_intermediate_leak_nA", c.I_intermediate_leak_nA, 1), ("interval_check_thresholds_n", c.interval_check_thresholds_ms, 1e2),
        ("V_pwr_good_enable_threshold_uV", c.V_pwr_good_enable_threshold_mV, 1e3), ("V_pwr_good_disable_threshold_uV", c.V_pwr_good_disable_threshold_mV, 1e3),
        ("V_output_log_gpio_threshold_uV", c.V_output_log_gpio_threshold_mV, 1e3), ("V_input_boost_threshold_uV", c.V_input_boost_threshold_mV, 1e3),
        ("V_intermediate_max_uV", c.V_intermediate_max_mV, 1e3), ("V_output_uV", c.V_output_mV, 1e3), ("V_buck_drop_uV", c.V_buck_drop_mV, 1e3),
    ):
        near(ctx, getattr(r, reg), val * f, 0.5 + 1e-6 * 0 + abs(val * f) * 1e-12, "register-value", f"{reg} for {val}")
    near(ctx, r.immediate_pwr_good_signal, int(c.immediate_pwr_good_signal), 0, "register-value", "immediate_pwr_good_signal")
    cap = max(c.C_intermediate_uF, 0.001)
    const = 1e3 * 2**28 / (cap * 1e5)
    near(ctx, r.Constant_us_per_nF_n28, const, 1 + const * 1e-9, "capacity", f"capacitor-constant for {c.C_intermediate_uF} uF")
    # thresholds
    v_th, v_o = c.V_intermediate_enable_threshold_mV, c.V_output_mV
    if c.enable_buck:
        pre = v_o + c.V_buck_drop_mV
        if v_th > pre:
            dv, en = surge_mV(c, v_th), v_th
        else:
            dv = surge_mV(c, v_o)
            en = pre + dv
        dis = max(pre, c.V_intermediate_disable_threshold_mV)
    else:
        dv, en, dis = surge_mV(c, v_th), v_th, c.V_intermediate_disable_threshold_mV
    ctx.count("dv_nonzero", dv > 0)
    near(ctx, r.dV_enable_output_uV, dv * 1e3, 1.5 + dv * 1e-6, "surge-compensation", f"dV for C {c.C_intermediate_uF}/{c.C_output_uF} V {v_th}/{v_o} buck={c.enable_buck}")
    near(ctx, r.V_enable_output_threshold_uV, en * 1e3, 1.5 + en * 1e-6, "threshold", "enable threshold")
    near(ctx, r.V_disable_output_threshold_uV, dis * 1e3, 0.5 + dis * 1e-9, "threshold", "disable threshold")
    # energy of the surge: E_store(old) - E_out == E_store(new)
    if storage and c.C_output_uF > 0 and dv > 0 and not (c.enable_buck and v_th <= v_o + c.V_buck_drop_mV):
        e_old, e_new = c.C_intermediate_uF * v_th**2, c.C_intermediate_uF * (v_th - r.dV_enable_output_uV * 1e-3) ** 2
        e_out = c.C_output_uF * v_o**2
        ctx.check(abs(e_old - e_new - e_out) <= 1e-3 * e_out + c.C_intermediate_uF * 4 * v_th * 1e-3 * 2, "surge-energy", lambda: f"surge takes {e_old - e_new}, output capacitor holds {e_out}")
    # LUTs: a + 1 of log2 as documented -> cell 0 is for inputs below 2^config
    near(ctx, r.LUT_input_V_min_log2_uV, c.LUT_input_V_min_log2_uV, 0, "lut-scale", "LUT_input_V_min_log2")
    near(ctx, r.LUT_input_I_min_log2_nA, c.LUT_input_I_min_log2_nA - 1, 0, "lut-scale", "LUT_input_I_min_log2")
    near(ctx, r.LUT_output_I_min_log2_nA, c.LUT_output_I_min_log2_nA - 1, 0, "lut-scale", "LUT_output_I_min_log2")
    ctx.eq((len(r.LUT_inp_efficiency_n8), {len(x) for x in r.LUT_inp_efficiency_n8}, len(r.LUT_out_inv_efficiency_n4)), (12, {12}, 12), "lut-shape")
    for a in range(12):
        for b in range(12):
            want = min(255.0, 256 * c.LUT_input_efficiency[a][b])
            got = r.LUT_inp_efficiency_n8[a][b]
            near(ctx, got, want, 0.5 + 1e-9, "lut-input", f"LUT_input[{a}][{b}] = {c.LUT_input_efficiency[a][b]}")
            if got > 255:
                ctx.fail("register-range", f"LUT_input[{a}][{b}] = {got} exceeds u8")
        e = c.LUT_output_efficiency[a]
        want = min(2.0**14, 16 / e) if e > 0 else 2.0**14
        near(ctx, r.LUT_out_inv_efficiency_n4[a], want, 0.5 + 1e-9, "lut-output", f"LUT_output[{a}] = {e}")
    ctx.seen("cnv", mode, dv > 0, en > v_th)


def judge_harvester(ctx: Ctx, h, r, for_emu, dtype, window, step_V) -> None:
    ctx.count("harvester_sets")
    num = {"neutral": 1, "isc_voc": 8, "ivcurve": 16, "cv": 256, "mppt_voc": 4096, "mppt_po": 8192, "mppt_opt": 16384}
    algo = str(getattr(h.algorithm, "value", h.algorithm))
    near(ctx, r.algorithm, num[algo], 0, "algorithm", algo)
    near(ctx, r.hrv_mode, int(for_emu) + 2 * int(h.rising) + 4 * int(h.enable_linear_extrapolation), 0, "mode-bits", f"emu={for_emu} rising={h.rising} ext={h.enable_linear_extrapolation}")
    if window is not None:
        w = window
        ctx.count("window_override")
    elif not for_emu:
        w = h.samples_n
    else:
        w = {"ivsample": 0, "ivcurve": h.samples_n * (1 + h.wait_cycles)}[dtype]
    near(ctx, r.window_size, w, 0, "window", f"{algo} emu={for_emu} {dtype}")
    for reg, val in (("voltage_uV", h.voltage_mV), ("voltage_min_uV", h.voltage_min_mV), ("voltage_max_uV", h.voltage_max_mV), ("current_limit_nA", h.current_limit_uA)):
        near(ctx, getattr(r, reg), val * 1e3, 0.5 + val * 1e-9, "register-value", f"{reg} for {val}")
    st = step_V * 1e3 if step_V is not None else h.voltage_step_mV
    near(ctx, r.voltage_step_uV, st * 1e3, 0.5 + st * 1e-9, "register-value", f"voltage_step for {st} mV")
    near(ctx, r.setpoint_n8, min(255, h.setpoint_n * 256), 0.5, "setpoint", f"setpoint {h.setpoint_n}")
    near(ctx, r.wait_cycles_n, h.wait_cycles, 0, "register-value", "wait_cycles")
    t_min = (1 + h.wait_cycles) / 100
    if for_emu:
        t_min = max(t_min, h.samples_n * (1 + h.wait_cycles) / 100)
    iv = min(1e6, max(h.interval_ms, t_min))
    du = min(iv, max(h.duration_ms, t_min))
    near(ctx, r.interval_n, iv * 100, 0.5 + iv * 1e-7, "interval", f"interval {h.interval_ms} ms")
    near(ctx, r.duration_n, du * 100, 0.5 + du * 1e-7, "duration", f"duration {h.duration_ms} ms of {h.interval_ms} ms")
    ctx.check(r.duration_n <= r.interval_n and r.duration_n >= 1, "interval", lambda: f"duration {r.duration_n} interval {r.interval_n}")
    ctx.check(r.voltage_min_uV <= r.voltage_uV <= r.voltage_max_uV, "contradiction", lambda: f"{r}")
    ctx.seen("hrv", algo, for_emu, dtype, window is None, h.rising, h.enable_linear_extrapolation, du == iv)


V_LIM = {  # documented limits (physical units) of the fields
    "V_input_max_mV": (0, 10_000), "I_input_max_mA": (0, 4.29e3), "V_input_drop_mV": (0, 4.29e6), "R_input_mOhm": (0, 4.29e6),
    "C_intermediate_uF": (0, 100_000), "V_intermediate_init_mV": (0, 10_000), "I_intermediate_leak_nA": (0, 4.29e9),
    "V_intermediate_enable_threshold_mV": (0, 10_000), "V_intermediate_disable_threshold_mV": (0, 10_000), "interval_check_thresholds_ms": (0, 4.29e3),
    "V_pwr_good_enable_threshold_mV": (0, 10_000), "V_pwr_good_disable_threshold_mV": (0, 10_000), "C_output_uF": (0, 4.29e6),
    "V_output_log_gpio_threshold_mV": (0, 4.29e6), "V_input_boost_threshold_mV": (0, 10_000), "V_intermediate_max_mV": (0, 10_000),
    "V_output_mV": (0, 5_000), "V_buck_drop_mV": (0, 5_000), "interval_startup_delay_drain_ms": (0, 10_000),
}


def convert(ctx: Ctx, cfg) -> None:
    from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig

    rng = ctx.rng
    for dtype in ("ivsample", "ivcurve"):
        log_mid = rng.random() < 0.5
        r = ConverterPRUConfig.from_vsrc(cfg, dtype_in=dtype, log_intermediate_node=log_mid)
        judge_converter(ctx, cfg, r, dtype, log_mid)
    convert_hrv(ctx, cfg.harvester)


def convert_hrv(ctx: Ctx, h) -> None:
    from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig

    rng = ctx.rng
    algo = str(getattr(h.algorithm, "value", h.algorithm))
    if algo not in ("isc_voc", "ivcurve"):
        judge_harvester(ctx, h, HarvesterPRUConfig.from_vhrv(h, for_emu=True), True, "ivsample", None, None)
        w, s = rng.choice([8, 100, 2000, 0, rng.randint(2, 10**6)]), rng.uniform(1e-3, 5)
        judge_harvester(ctx, h, HarvesterPRUConfig.from_vhrv(h, for_emu=True, dtype_in="ivcurve", window_size=w, voltage_step_V=s), True, "ivcurve", w, s)
        ctx.rejects(lambda: HarvesterPRUConfig.from_vhrv(h, for_emu=True, dtype_in="ivcurve"), "underspecified-accepted", "ivcurve without window and step")
        ctx.rejects(lambda: HarvesterPRUConfig.from_vhrv(h, for_emu=True, dtype_in="ivcurve", window_size=w), "underspecified-accepted", "ivcurve without step")
        ctx.rejects(lambda: HarvesterPRUConfig.from_vhrv(h, for_emu=True, dtype_in="ivcurve", voltage_step_V=s), "underspecified-accepted", "ivcurve without window")
        ctx.rejects(lambda: HarvesterPRUConfig.from_vhrv(h, for_emu=True, dtype_in="isc_voc"), "unsupported-accepted", "emulation of isc_voc data")
    else:
        ctx.rejects(lambda: HarvesterPRUConfig.from_vhrv(h, for_emu=True), "unsupported-accepted", f"emulation with algorithm {algo}")
    if algo == "neutral":
        ctx.rejects(lambda: HarvesterPRUConfig.from_vhrv(h, for_emu=False), "unsupported-accepted", "harvesting with pass-through")
        return
    judge_harvester(ctx, h, HarvesterPRUConfig.from_vhrv(h, for_emu=False), False, "ivsample", None, None)
    w = rng.choice([0, 1, rng.randint(2, 10**6)])
    judge_harvester(ctx, h, HarvesterPRUConfig.from_vhrv(h, for_emu=False, window_size=w), False, "ivsample", w, None)
    for bad in ({"window_size": -1}, {"window_size": U32}, {"voltage_step_V": 5000.0}, {"voltage_step_V": -1.0}):
        ctx.rejects(lambda bad=bad: HarvesterPRUConfig.from_vhrv(h, **bad), "wrapped-register", f"{bad}")


def rand_hrv(rng) -> dict:
    d = {"name": "h%d" % rng.randrange(10**6), "inherit_from": rng.choice(["cv20", "cv24", "cv33", "mppt_voc", "mppt_po", "mppt_opt", "isc_voc", "ivcurve"])}
    ext = lambda lo, hi: rng.choice([lo, hi, rng.uniform(lo, hi), round(rng.uniform(lo, hi)), math.exp(rng.uniform(math.log(max(lo, 1e-3)), math.log(hi)))])  # noqa: E731
    lo = rng.choice([0, 0, rng.uniform(0, 2000)])
    hi = rng.choice([5000, rng.uniform(lo, 5000), rng.uniform(lo, 5000)])
    d.update(voltage_min_mV=lo, voltage_max_mV=hi, voltage_mV=rng.choice([lo, hi, rng.uniform(lo, hi)]))
    # derived voltage-step has to stay above 1 mV
    n_max = int(max(8, min(2000, hi - lo)))
    d["samples_n"] = rng.choice([8, n_max, rng.randint(8, n_max)])
    if hi - lo < 8:
        d["voltage_step_mV"] = rng.uniform(1, 10)
    d["current_limit_uA"] = ext(1, 50_000)
    d["setpoint_n"] = rng.choice([0, 1.0, rng.random(), 0.999, 0.7])
    d["interval_ms"] = min(1e6, max(0.01, ext(0.01, 1e6)))
    d["duration_ms"] = min(1e6, max(0.01, ext(0.01, 1e6)))
    d["rising"] = rng.random() < 0.5
    d["enable_linear_extrapolation"] = rng.random() < 0.5
    d["wait_cycles"] = rng.choice([0, 1, 100, rng.randint(0, 100)])
    if rng.random() < 0.4:
        d["voltage_step_mV"] = rng.choice([1, 1e6, rng.uniform(1, 5000)])
    return d


def f_random(ctx: Ctx) -> None:
    from shepherd_core.data_models import VirtualHarvesterConfig
    from shepherd_core.data_models import VirtualSourceConfig

    rng = ctx.rng
    for _ in range(8):
        d = rand_vsrc(rng, dynamic=False)
        for f, (lo, hi) in V_LIM.items():
            if rng.random() < 0.12:
                d[f] = rng.choice([lo, hi, rng.uniform(lo, hi), min(hi, 10 ** rng.uniform(-6, 3))])
                ctx.count("extreme_fields", d[f] in (lo, hi))
        h = rand_hrv(rng)
        if h["inherit_from"] not in ("isc_voc", "ivcurve"):
            d["harvester"] = h
        cfg = VirtualSourceConfig(**d)
        for k, v in d.items():
            if k != "harvester":
                ctx.check(getattr(cfg, k) == v, "accepted-value-changed", lambda k=k, v=v: f"{k}: {getattr(cfg, k)} instead of {v}")
        convert(ctx, cfg)
        hc = VirtualHarvesterConfig(**h)
        for k in ("voltage_mV", "voltage_min_mV", "voltage_max_mV", "samples_n", "setpoint_n", "interval_ms", "duration_ms", "rising", "wait_cycles"):
            ctx.check(getattr(hc, k) == h[k], "accepted-value-changed", lambda k=k: f"{k}: {getattr(hc, k)} instead of {h[k]}")
        convert_hrv(ctx, hc)
        step(ctx, h)


def step(ctx: Ctx, h) -> None:
    """Derived voltage-step covers the range with the number of samples (unless given)."""
    from shepherd_core.data_models import VirtualHarvesterConfig

    d = {k: v for k, v in h.items() if k != "inherit_from"}
    d["algorithm"] = ctx.rng.choice(["ivcurve", "cv", "mppt_po", "mppt_voc", "mppt_opt", "isc_voc"])
    hc = VirtualHarvesterConfig(**d)
    if "voltage_step_mV" in h:
        want = h["voltage_step_mV"]
    else:
        want = (h["voltage_max_mV"] - h["voltage_min_mV"]) / (h["samples_n"] - 1)
    ctx.check(want - 1e-6 <= hc.voltage_step_mV <= max(want, 1.0) + 1e-6, "voltage-step", lambda: f"step {hc.voltage_step_mV} mV, requested {want} for {h}")
    convert_hrv(ctx, hc)


def f_fixtures(ctx: Ctx) -> None:
    from shepherd_core.data_models import VirtualHarvesterConfig
    from shepherd_core.data_models import VirtualSourceConfig

    for name in fixture_names("VirtualSourceConfig"):
        convert(ctx, VirtualSourceConfig(name=name))
        ctx.count("fixture_sets")
    for name in fixture_names("VirtualHarvesterConfig"):
        if name == "neutral":
            ctx.rejects(lambda: VirtualHarvesterConfig(name="neutral"), "neutral-accepted", "neutral harvester")
            continue
        convert_hrv(ctx, VirtualHarvesterConfig(name=name))
        ctx.count("fixture_sets")


def f_reject(ctx: Ctx) -> None:
    from shepherd_core.data_models import VirtualHarvesterConfig
    from shepherd_core.data_models import VirtualSourceConfig
    from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
    from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig

    rng = ctx.rng
    for f, (lo, hi) in V_LIM.items():
        for v in (lo - 1e-3, -1, hi * 1.001 + 1e-3, hi * 1e6 + 1, float("nan"), float("inf"), "abc", None):
            base = rand_vsrc(rng)
            base[f] = v
            ctx.rejects(lambda base=base: VirtualSourceConfig(**base), "unrepresentable-accepted", f"{f}={v}")
    base = rand_vsrc(rng)
    for key, v in (
        ("LUT_output_efficiency", 11 * [0.5]), ("LUT_output_efficiency", 13 * [0.5]), ("LUT_output_efficiency", 11 * [0.5] + [1.01]), ("LUT_output_efficiency", 11 * [0.5] + [-0.01]),
        ("LUT_input_efficiency", 11 * [12 * [0.5]]), ("LUT_input_efficiency", 13 * [12 * [0.5]]), ("LUT_input_efficiency", 11 * [12 * [0.5]] + [11 * [0.5]]),
        ("LUT_input_efficiency", 11 * [12 * [0.5]] + [11 * [0.5] + [1.001]]), ("LUT_input_efficiency", 11 * [rand_lut1(rng)] + [11 * [0.5] + [-1]]),
        ("LUT_input_V_min_log2_uV", -1), ("LUT_input_V_min_log2_uV", 21), ("LUT_input_I_min_log2_nA", 0), ("LUT_input_I_min_log2_nA", 21),
        ("LUT_output_I_min_log2_nA", 0), ("LUT_output_I_min_log2_nA", 21), ("unknown_field", 1), ("harvester", {"name": "ivcurve"}), ("harvester", {"name": "isc_voc"}),
        ("harvester", {"name": "neutral"}), ("harvester", {"name": "does_not_exist"}), ("inherit_from", "does_not_exist"),
    ):
        ctx.rejects(lambda key=key, v=v: VirtualSourceConfig(**{**base, key: v}), "unrepresentable-accepted", f"{key}={str(v)[:80]}")
    hb = {"name": "x", "inherit_from": "mppt_voc"}
    for upd in (
        {"voltage_min_mV": 3000, "voltage_max_mV": 2000, "voltage_mV": 2500}, {"voltage_min_mV": 3000, "voltage_mV": 2999.9, "voltage_max_mV": 4000},
        {"voltage_min_mV": 3000, "voltage_mV": 0, "voltage_max_mV": 4000}, {"voltage_min_mV": 0.5, "voltage_mV": 0}, {"voltage_min_mV": 100, "voltage_max_mV": 0, "voltage_mV": 0},
        {"voltage_max_mV": 2000, "voltage_mV": 2001}, {"voltage_mV": -1}, {"voltage_mV": 5001, "voltage_max_mV": 5001}, {"voltage_min_mV": -0.1}, {"voltage_max_mV": 5000.1},
        {"samples_n": 7}, {"samples_n": 2001}, {"samples_n": 1}, {"samples_n": 0}, {"current_limit_uA": 50_001}, {"setpoint_n": 1.001}, {"setpoint_n": -0.001},
        {"interval_ms": 0}, {"interval_ms": 0.009}, {"interval_ms": 1_000_001}, {"duration_ms": 0.009}, {"duration_ms": 1_000_001}, {"wait_cycles": -1}, {"wait_cycles": 101},
        {"voltage_step_mV": 1e6 + 1}, {"algorithm": "unknown"}, {"algorithm": None}, {"rising": "maybe"}, {"whatever": 1}, {"voltage_mV": float("nan")},
    ):
        ctx.rejects(lambda upd=upd: VirtualHarvesterConfig(**{**hb, **upd}), "contradictory-accepted", f"{upd}")
    # direct register sets
    good = ConverterPRUConfig.from_vsrc(VirtualSourceConfig(name="BQ25570")).model_dump()
    for k, v in good.items():
        if isinstance(v, list):
            continue
        for x in (-1, U32, 1.5):
            ctx.rejects(lambda k=k, x=x: ConverterPRUConfig(**{**good, k: x}), "wrapped-register", f"{k}={x}")
    for x in (-1, 256):
        lut = [list(a) for a in good["LUT_inp_efficiency_n8"]]
        lut[rng.randrange(12)][rng.randrange(12)] = x
        ctx.rejects(lambda lut=lut: ConverterPRUConfig(**{**good, "LUT_inp_efficiency_n8": lut}), "wrapped-register", f"LUT {x}")
    good = HarvesterPRUConfig.from_vhrv(VirtualHarvesterConfig(name="mppt_voc"), for_emu=True).model_dump()
    for k in good:
        for x in (-1, U32, 1.5):
            ctx.rejects(lambda k=k, x=x: HarvesterPRUConfig(**{**good, k: x}), "wrapped-register", f"{k}={x}")


FAMILIES = {
    "random": Family(f_random, quick=900, thorough=18000),
    "fixtures": Family(f_fixtures, quick=6, thorough=60),
    "reject": Family(f_reject, quick=30, thorough=360),
}
