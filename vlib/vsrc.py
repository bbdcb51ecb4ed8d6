"""Workload generators shared by the virtual-source checks (C13-C17)."""
from __future__ import annotations

import math

import numpy as np

VSRC_NAMES = [
    "direct", "neutral", "diode+capacitor", "diode+resistor+capacitor",
    "BQ25504", "BQ25504s", "BQ25570", "BQ25570s", "BQ25504-Schmitt", "BQ25570-Schmitt",
    "dio_cap", "dio_res_cap",
]
HRV_EMU = ["cv20", "cv24", "cv33", "mppt_voc", "mppt_bq_solar", "mppt_bq_thermoelectric", "mppt_po", "mppt_opt"]


def fixture_names(model: str) -> list[str]:
    """Names in the fixture database, read independently of the library."""
    import glob

    import yaml

    from vlib.core import SRC_CORE

    out = []
    for f in sorted(glob.glob(str(SRC_CORE / "data_models" / "**" / "*_fixture.yaml"), recursive=True)):
        for e in yaml.safe_load(open(f)):
            if e["datatype"].lower() == model.lower():
                n = e["parameters"].get("name")
                if n:
                    out.append(n)
    return out


def rand_lut1(rng):
    mode = rng.randrange(4)
    if mode == 0:
        return [round(rng.random(), rng.randint(1, 4)) for _ in range(12)]
    if mode == 1:
        return sorted(rng.uniform(0.01, 1.0) for _ in range(12))
    if mode == 2:
        return [rng.choice([0.0, 1.0, 0.5, 0.996, 0.999, 1e-3, 1e-4]) for _ in range(12)]
    return [1.0] * 12


def rand_vsrc(rng, dynamic: bool = True) -> dict:
    """Parameters of an acceptable virtual source whose dynamics unfold within a few 100 steps."""
    d: dict = {"name": "vt" + str(rng.randrange(10**6))}
    kind = rng.choice(["direct", "diocap", "diocap", "diorescap", "boost", "boost", "buckboost", "buckboost", "buckonly"])
    d["enable_boost"] = "boost" in kind
    d["enable_buck"] = "buck" in kind
    d["enable_feedback_to_hrv"] = rng.random() < 0.5
    if kind in ("direct", "buckonly"):
        d["C_intermediate_uF"] = 0
        if rng.random() < 0.3:
            d["enable_boost"] = True  # must be ignored
    else:
        lo, hi = (-0.5, 2.3) if dynamic else (-4, 5)
        d["C_intermediate_uF"] = round(10 ** rng.uniform(lo, hi), rng.choice([0, 1, 3])) or 1.0
        if rng.random() < 0.1:
            d["C_intermediate_uF"] = rng.choice([1, 2.2, 10, 47, 100])
    d["C_output_uF"] = rng.choice([0, 1.0, round(rng.uniform(0, d["C_intermediate_uF"] or 1), 2), round(rng.uniform(0, 20), 2)])
    v_nom = rng.uniform(1500, 4500)
    d["V_intermediate_init_mV"] = round(v_nom + rng.uniform(-400, 400), rng.choice([0, 3]))
    if rng.random() < 0.05:
        d["V_intermediate_init_mV"] = rng.choice([0, 1, 10_000])
    d["V_intermediate_max_mV"] = round(rng.choice([10_000, v_nom + rng.uniform(100, 1500)]), 0)
    d["V_intermediate_enable_threshold_mV"] = round(v_nom + rng.uniform(0, 300), rng.choice([0, 2]))
    d["V_intermediate_disable_threshold_mV"] = round(v_nom - rng.uniform(0, 600), rng.choice([0, 2]))
    if rng.random() < 0.15:
        d["V_intermediate_enable_threshold_mV"] = 1
        d["V_intermediate_disable_threshold_mV"] = 0
    d["V_pwr_good_enable_threshold_mV"] = round(v_nom + rng.uniform(-200, 300), 0)
    d["V_pwr_good_disable_threshold_mV"] = round(v_nom - rng.uniform(0, 500), 0)
    d["immediate_pwr_good_signal"] = rng.random() < 0.5
    d["interval_check_thresholds_ms"] = rng.choice([0, 0, 0.01, 0.02, 0.05, 0.13, 0.4, 65])
    d["interval_startup_delay_drain_ms"] = rng.choice([0, 0, 0, 0.01, 0.3, 2])
    d["V_input_max_mV"] = rng.choice([10_000, 10_000, round(rng.uniform(500, 5000))])
    d["I_input_max_mA"] = rng.choice([4200, 4200, round(rng.uniform(0.1, 100), 2)])
    d["V_input_drop_mV"] = rng.choice([0, 0, round(rng.uniform(0, 700)), 300])
    d["R_input_mOhm"] = rng.choice([0, 0, 1, 10_000, round(rng.uniform(1, 1e5)), round(rng.uniform(1, 3e6))]) if "res" in kind or rng.random() < 0.2 else 0
    d["I_intermediate_leak_nA"] = rng.choice([0, 0, round(rng.uniform(1, 1e4), 1), round(rng.uniform(1e4, 1e7))])
    d["V_output_log_gpio_threshold_mV"] = rng.choice([0, 1400, round(rng.uniform(500, 4000))])
    d["V_input_boost_threshold_mV"] = rng.choice([0, 0, 130, round(rng.uniform(50, 3000))])
    d["V_output_mV"] = rng.choice([round(v_nom - rng.uniform(-500, 1200)), 3000, 2400, 1800, 0])
    d["V_output_mV"] = min(5000, max(0, d["V_output_mV"]))
    d["V_buck_drop_mV"] = rng.choice([0, 0, round(rng.uniform(0, 500))])
    if rng.random() < 0.8:
        d["LUT_input_efficiency"] = [rand_lut1(rng) for _ in range(12)]
        d["LUT_output_efficiency"] = [max(0.05, x) for x in rand_lut1(rng)] if rng.random() < 0.8 else rand_lut1(rng)
    d["LUT_input_V_min_log2_uV"] = rng.choice([0, 7, 17, 18, 19, 20, rng.randint(0, 20)])
    d["LUT_input_I_min_log2_nA"] = rng.choice([1, 8, 12, 16, 20, rng.randint(1, 20)])
    d["LUT_output_I_min_log2_nA"] = rng.choice([1, 8, 12, 16, 20, rng.randint(1, 20)])
    return d


def curve(nprng, n: int, *, voc: float, isc: float, falling: bool, vmax: float | None = None, noise: float = 0.0, shape: str = "diode"):
    """One IV characteristic, n samples, in (uV, nA) integer arrays."""
    vmax = voc * 1.1 if vmax is None else vmax
    v = np.linspace(0, vmax, n)
    if shape == "diode":
        k = nprng.uniform(0.03, 0.25)
        i = isc * (1 - np.expm1(np.minimum(v / k / voc, 300)) / np.expm1(1 / k))
    elif shape == "linear":
        i = isc * (1 - v / voc)
    else:  # partially shaded: two knees
        i = isc * (0.6 * (v < voc * 0.5) + 0.4) * (1 - (v / voc) ** 8)
    i = np.maximum(i, 0) * (1 + noise * nprng.standard_normal(n))
    i = np.maximum(i, 0)
    if falling:
        v, i = v[::-1], i[::-1]
    return (v * 1e6).astype(np.int64), (i * 1e9).astype(np.int64)


def floor_log2(x: int) -> int:
    return int(x).bit_length() - 1


def close(a: float, b: float, rel: float = 1e-9, abs_: float = 1e-6) -> bool:
    return math.isclose(a, b, rel_tol=rel, abs_tol=abs_)


class SourceTwin:
    """A complete source put together from its stages, as sample_emulator() of the device does.

    harvester -> input stage -> ADC -> output stage -> storage -> switching -> DAC, and the request of
    the input stage back to the harvester where the register set asks for it.
    """

    def __init__(self, cfg, cal, dtype, window, step_V, log_mid=False):
        from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
        from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig
        from shepherd_core.vsource.virtual_converter_model import PruCalibration
        from shepherd_core.vsource.virtual_converter_model import VirtualConverterModel
        from shepherd_core.vsource.virtual_harvester_model import VirtualHarvesterModel

        self.cal = cal
        self.log_mid = log_mid
        regs = ConverterPRUConfig.from_vsrc(cfg, dtype_in=dtype, log_intermediate_node=log_mid)
        self.feedback = bool(int(regs.converter_mode) & 16)
        self.cnv = VirtualConverterModel(regs, PruCalibration(cal))
        self.hrv = VirtualHarvesterModel(
            HarvesterPRUConfig.from_vhrv(cfg.harvester, for_emu=True, dtype_in=dtype, window_size=window, voltage_step_V=step_V)
        )
        self.w_in = self.w_out = 0.0

    def step(self, v, i, i_out):
        v, i = self.hrv.ivcurve_sample(v, i)
        self.w_in += self.cnv.calc_inp_power(v, i)
        self.w_out += self.cnv.calc_out_power(self.cal.adc_C_A.si_to_raw(i_out * 1e-9))
        mid = self.cnv.update_cap_storage()
        raw = self.cnv.update_states_and_output()
        if self.feedback:
            self.hrv.voltage_set_uV = self.cnv.V_input_request_uV
        return mid if self.log_mid else self.cal.dac_V_A.raw_to_si(raw) * 1e6


def judge_composition(ctx, cfg, cal, dtype, window, step_V, vs, is_, load, log_mid=False, what=""):
    """Run the complete source model next to its twin.

    load(n, v_out_uV, power_good) -> current in nA. Single rounded ADC codes may differ, therefore
    the traces are judged as a whole.
    """
    from shepherd_core.vsource import VirtualSourceModel

    src = VirtualSourceModel(cfg, cal, dtype_in=dtype, window_size=window, voltage_step_V=step_V, log_intermediate=log_mid)
    twin = SourceTwin(cfg, cal, dtype, window, step_V, log_mid)
    lsb = abs(cal.dac_V_A.gain) * 1e6
    n_off, first, cur, pgs = 0, None, 0, 0
    pg_last = None
    moved = 0
    req_last = None
    for n, (v, i) in enumerate(zip(vs, is_)):
        a = src.iterate_sampling(V_inp_uV=int(v), I_inp_nA=int(i), I_out_nA=cur)
        b = twin.step(int(v), int(i), cur)
        sa = (float(a), src.cnv.V_mid_uV, src.hrv.voltage_set_uV, src.cnv.P_inp_fW)
        sb = (float(b), twin.cnv.V_mid_uV, twin.hrv.voltage_set_uV, twin.cnv.P_inp_fW)
        if not (close(sa[0], sb[0], 1e-4, 2 * lsb + 2) and all(close(x, y, 1e-4, 50) for x, y in zip(sa[1:], sb[1:]))) or src.cnv.get_power_good() != twin.cnv.get_power_good():
            n_off += 1
            first = first or (n, sa, sb)
        pg = twin.cnv.get_power_good()
        pgs += pg != pg_last
        pg_last = pg
        moved += req_last is not None and twin.hrv.voltage_set_uV != req_last
        req_last = twin.hrv.voltage_set_uV
        cur = load(n, int(b), pg)
    ctx.count("composition_steps", len(vs))
    ctx.count("composition_feedback", twin.feedback and moved > 3)
    ctx.count("composition_curves", dtype == "ivcurve")
    ctx.seen("composition", dtype, twin.feedback, log_mid, pgs > 2, cfg.enable_boost, cfg.enable_buck)
    ctx.check(n_off <= 0.01 * len(vs), "composition", lambda: f"{what}: source differs from its stages in {n_off} of {len(vs)} steps (feedback {twin.feedback}); first: sample {first[0]}: (v_out, v_cap, v_set, P_inp) = {first[1]}, stages give {first[2]}")
    ctx.check(close(src.W_inp_fWs, twin.w_in, 1e-3, 1e3) and close(src.W_out_fWs, twin.w_out, 1e-3, 1e3), "energy-counters", lambda: f"{what}: counters {src.W_inp_fWs}, {src.W_out_fWs} vs sums {twin.w_in}, {twin.w_out}")


def composition_case(ctx, rand_cal=None) -> None:
    """One random source on one random input, compared with its stages."""
    from shepherd_core import CalibrationEmulator
    from shepherd_core.data_models import VirtualSourceConfig

    rng, nr = ctx.rng, ctx.np_rng()
    dtype = rng.choice(["ivcurve", "ivcurve", "ivsample"])
    if rng.random() < 0.4:
        d = {"inherit_from": rng.choice(["dio_cap", "dio_res_cap", "dio_res_cap", "direct", "BQ25504", "BQ25570s"]), "name": "cmp", "C_intermediate_uF": round(rng.uniform(0.5, 20), 2)}
    else:
        d = {**rand_vsrc(rng), "harvester": {"inherit_from": rng.choice(HRV_EMU), "name": "h", "interval_ms": 10, "duration_ms": 1}}
    cfg = VirtualSourceConfig(**d)
    cal = CalibrationEmulator() if rand_cal is None or rng.random() < 0.5 else rand_cal(rng)
    w = 0
    if dtype == "ivcurve":
        w = rng.choice([10, 20, 40])
        a, b = curve(nr, w, voc=rng.uniform(2.2, 4.8), isc=10 ** rng.uniform(-4, -2), falling=rng.random() < 0.4, vmax=5.0)
        n = w * 40
        vs, is_ = np.tile(a, 40), np.tile(b, 40)
    else:
        n = 800
        vs = np.full(n, int(rng.uniform(1e6, 4.6e6)))
        is_ = (10 ** rng.uniform(4, 7) * nr.uniform(0.3, 1.2, n)).astype(int)
    r = 10 ** rng.uniform(2.3, 5)
    off = rng.random() < 0.5
    base = rng.choice([0, 0, 1000])

    def load(k, v_uV, pg):
        return base if off and not pg else int(v_uV / r * 1e3 * (1 + 0.5 * ((k // 50) % 2)))

    judge_composition(ctx, cfg, cal, dtype, w, 5.0 / (w - 1) if w else None, vs.tolist(), is_.tolist(), load, rng.random() < 0.3, f"{cfg.name} ({cfg.harvester.name}) on {dtype}")
