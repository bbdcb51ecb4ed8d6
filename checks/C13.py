"""C13 - the virtual converter obeys its energy and threshold rules at every step.

Deciding step: an online monitor sits around every call of the converter model.  Before a
step it reads the converter's state, afterwards it compares the new state with what the
documented step relation (written here independently, from the configured physical values)
allows, and it keeps an energy ledger in Joule with the capacitor of the *configuration*.
"""
from __future__ import annotations

import math

from vlib.core import Ctx
from vlib.core import Family
from vlib.vsrc import close
from vlib.vsrc import fixture_names
from vlib.vsrc import floor_log2
from vlib.vsrc import rand_vsrc

PROPERTY = "C13"
TECHNIQUE = "runtime monitoring: online state monitor around every converter call (step relation + energy ledger) under randomized configurations and drive waveforms"
LEVEL_NOTE = (
    "the real VirtualConverterModel / VirtualSourceModel is executed step by step; a monitor with its own step relation "
    "derived from the physical configuration judges input stage, storage, thresholds, output, power-good and an energy ledger"
)
RULE = (
    "case = some configurations (random sources of all topologies, every source fixture) each driven over several hundred steps "
    "with charge/discharge/burst/zero/negative waveforms; non-trivial: steps in which charge flows, thresholds fire or limits clamp"
)
REQUIRED = {
    "composition_steps": 20000, "composition_feedback": 5,
    "configs": 100, "steps": 40_000, "turn_on": 100, "turn_off": 100, "pg_rise": 60, "pg_fall": 100,
    "clamped_max": 200, "clamped_low": 20, "boost_steps": 5_000, "below_boost_threshold": 100,
    "res_drop_limited": 100, "feedback_steps": 300, "direct_steps": 2_000, "passthrough_out": 2_000, "regulated_out": 1_000,
    "startup_drain_steps": 100, "ledger_steps": 15_000, "dv_steps": 50, "unchecked_threshold_steps": 2_000,
    "lut_cells": 300, "source_model_steps": 2_000, "residue_steps": 50,
}
ASSUMPTIONS = [
    "energy ledger is judged for steps whose voltage change is below 5 % of the capacitor voltage (first-order step of the model)",
]


class Monitor:
    """Step relation of the documented converter, from physical configuration values."""

    def __init__(self, ctx: Ctx, cfg, cal_emu, feedback: bool):
        self.ctx = ctx
        self.cfg = cfg
        self.cal = cal_emu
        c = cfg
        self.storage = c.C_intermediate_uF > 0
        self.boost = c.enable_boost and self.storage
        self.buck = c.enable_buck
        self.feedback = feedback and c.enable_feedback_to_hrv and self.storage and not self.boost
        r = lambda mv: round(mv * 1e3)  # noqa: E731
        self.v_drop, self.v_in_max, self.i_in_max = r(c.V_input_drop_mV), r(c.V_input_max_mV), round(c.I_input_max_mA * 1e6)
        self.v_boost = r(c.V_input_boost_threshold_mV)
        self.res_kohm = round(c.R_input_mOhm * 1e-6 * 2**22) / 2**22
        self.c_eff_uF = max(c.C_intermediate_uF, 0.001)
        self.k = int((10**3 * (2**28)) // (self.c_eff_uF * 100_000)) / 2**28  # us/nF, register resolution
        self.leak = round(c.I_intermediate_leak_nA)
        self.v_max = r(c.V_intermediate_max_mV)
        self.v_out, self.v_bdrop = r(c.V_output_mV), r(c.V_buck_drop_mV)
        st = self.thresholds()
        self.dv, self.v_en, self.v_dis = (round(x * 1e3) for x in st)
        self.v_en = max(self.v_en, self.dv)
        self.interval = round(c.interval_check_thresholds_ms * 100)
        self.pg_en, self.pg_dis = r(c.V_pwr_good_enable_threshold_mV), r(c.V_pwr_good_disable_threshold_mV)
        self.drain_left = round(c.interval_startup_delay_drain_ms * 100)
        self.v_log = r(c.V_output_log_gpio_threshold_mV)
        # own state
        self.v_mid = float(r(c.V_intermediate_init_mV))
        self.v_out_now = float(self.v_out)
        self.on = False
        self.pg = True
        self.since_check = None  # nothing checked yet
        self.residue = 0
        self.drained_J = 0.0
        self.step_n = 0

    def thresholds(self):
        c = self.cfg
        v_th, v_o, cs, co = c.V_intermediate_enable_threshold_mV, c.V_output_mV, c.C_intermediate_uF, c.C_output_uF

        def surge(v):
            # E_store_new = E_store_old - E_out, expressed as voltage drop
            if not (cs > 0 and co > 0):
                return 0.0
            rest = v**2 - (co / cs) * v_o**2
            return v - math.sqrt(rest) if rest >= 0 else 0.0

        if not c.enable_buck:
            return surge(v_th), v_th, c.V_intermediate_disable_threshold_mV
        pre = v_o + c.V_buck_drop_mV
        if v_th > pre:
            dv, en = surge(v_th), v_th
        else:
            dv = surge(v_o) if (cs > 0 and co > 0) else 0.0
            en = pre + dv
        return dv, en, max(pre, c.V_intermediate_disable_threshold_mV)

    # ------------------------------------------------------------------ stages
    def same(self, got, want, key, what):
        self.ctx.counts["assertions"] += 1
        if not close(float(got), float(want), 1e-9, 1e-3):
            self.ctx.fail(key, f"step {self.step_n}: {what}: observed {got!r} expected {want!r}", self.describe())

    def describe(self):
        d = self.cfg.model_dump(exclude={"harvester", "LUT_input_efficiency", "LUT_output_efficiency"}, exclude_defaults=True)
        return {k: v for k, v in d.items() if k not in ("created", "updated_last", "owner", "group", "id", "description")}

    def lut_in(self, v, i):
        c = self.cfg
        pv = min(11, int(v / 2**c.LUT_input_V_min_log2_uV))
        n = int(i)
        pc = 0 if n < 2**c.LUT_input_I_min_log2_nA else min(11, floor_log2(n) - c.LUT_input_I_min_log2_nA + 1)
        self.ctx.seen("lut", pv, pc)
        return min(255, round(256 * c.LUT_input_efficiency[pv][pc])) / 256

    def lut_out(self, i):
        c = self.cfg
        n = int(i)
        pc = 0 if n < 2**c.LUT_output_I_min_log2_nA else min(11, floor_log2(n) - c.LUT_output_I_min_log2_nA + 1)
        x = c.LUT_output_efficiency[pc]
        return (min(2**14, round(16 / x)) if x > 0 else 2**14) / 16

    def inp(self, cnv, v_in, i_in, ret):
        ctx = self.ctx
        v, i = max(0.0, v_in), max(0.0, i_in)
        v = max(0.0, v - self.v_drop)
        v = min(v, self.v_in_max)
        i = min(i, self.i_in_max)
        if self.boost:
            ctx.count("boost_steps")
            if v < self.v_boost:
                ctx.count("below_boost_threshold")
                p = 0.0
            else:
                p = self.lut_in(v, i) * v * i
        elif self.storage:
            drop = i * self.res_kohm
            usable = v - drop
            if usable < self.v_mid:
                # resistor can only burn the difference, capacitor never gets more than the source offers
                usable = min(v, self.v_mid)
                if drop > 0:
                    ctx.count("res_drop_limited")
            if self.feedback:
                ctx.count("feedback_steps")
                self.same(cnv.V_input_request_uV, self.v_mid + drop + self.v_drop, "feedback-request", "voltage requested from harvester")
            elif usable < self.v_mid:
                usable = 0.0
            p = usable * i
        else:
            ctx.count("direct_steps")
            self.v_mid = v
            p = 0.0
            self.same(cnv.V_mid_uV, v, "direct-input", "intermediate node of a direct connection")
        ctx.check(cnv.P_inp_fW <= max(0, v_in) * max(0, i_in) * (1 + 1e-9) + 1, "energy-from-nowhere",
                  lambda: f"input stage takes {cnv.P_inp_fW} fW from a source offering {v_in} uV * {i_in} nA", self.describe())
        self.same(cnv.P_inp_fW, p, "input-power", f"input power for {v_in} uV, {i_in} nA at V_mid={self.v_mid}")
        ctx.check(abs(ret - cnv.P_inp_fW) <= 0.5 + 1e-6 * abs(ret), "reported-input-power", lambda: f"returned {ret}, state {cnv.P_inp_fW}")

    def out(self, cnv, raw, ret):
        ctx = self.ctx
        raw = min(2**18 - 1, max(0, raw))
        i = (raw * self.cal.adc_C_A.gain + self.cal.adc_C_A.offset) * 1e9
        # cancel negative readings against following positive ones (bounded)
        if self.cal.adc_C_A.offset < 0:
            if i > self.residue:
                i, self.residue = i - self.residue, 0
                ctx.count("residue_steps", self.residue != 0)
            else:
                self.residue = min(self.residue - i, 60_000)
                i = 0
                ctx.count("residue_steps")
        else:
            i = max(0.0, i)
        eta = self.lut_out(i) if self.buck else 1.0
        p = eta * self.v_out_now * i + self.v_mid * self.leak
        if self.drain_left > 0:
            self.drain_left -= 1
            ctx.count("startup_drain_steps")
            p = 0.0
        else:
            ctx.check(cnv.P_out_fW >= self.v_out_now * i * (1 - 1e-9) - 1, "output-for-free", lambda: f"target gets {self.v_out_now * i} fW, converter accounts {cnv.P_out_fW}", self.describe())
        self.same(cnv.P_out_fW, p, "output-power", f"output power for {i} nA at V_out={self.v_out_now}, V_mid={self.v_mid}")
        ctx.check(abs(ret - cnv.P_out_fW) <= 0.5 + 1e-6 * abs(ret), "reported-output-power", lambda: f"returned {ret}, state {cnv.P_out_fW}")
        self.i_out_nA = i

    def cap(self, cnv, ret):
        ctx = self.ctx
        v0, v = self.v_mid, self.v_mid
        p_sum = cnv.P_inp_fW - cnv.P_out_fW
        if self.storage:
            v += p_sum / max(1.0, v) * self.k
        clamped = v
        v = max(1, min(v, self.v_max))
        ctx.count("clamped_max", v < clamped)
        ctx.count("clamped_low", v > clamped)
        self.same(cnv.V_mid_uV, v, "capacitor", f"capacitor voltage after {p_sum} fW at {v0} uV")
        now = cnv.V_mid_uV
        ctx.check(0 <= now <= max(1, self.v_max) + 1e-6, "capacitor-range", lambda: f"V_mid {now} outside 0..{self.v_max}")
        ctx.check(abs(ret - now) <= 0.5 + 1e-6, "reported-capacitor-voltage", lambda: f"returned {ret}, state {now}")
        # energy ledger, in Joule, with the configured capacitor
        if self.storage and self.cfg.C_intermediate_uF >= 0.01:
            c_F = self.cfg.C_intermediate_uF * 1e-6
            de = 0.5 * c_F * ((now * 1e-6) ** 2 - (v0 * 1e-6) ** 2)
            flow = p_sum * 1e-15 * 1e-5
            dv = abs(clamped - v0)
            if dv < 0.05 * v0:
                ctx.count("ledger_steps")
                slack = 0.5 * c_F * (dv * 1e-6) ** 2 * 1.02 + abs(flow) * (1e-3 + 2 / (self.k * 2**28)) + 1e-21
                # float resolution of the difference of squares
                slack += 1e-14 * c_F * (now * 1e-6) ** 2
                if clamped == v:
                    ctx.check(abs(de - flow) <= slack, "energy-balance", lambda: f"step {self.step_n}: capacitor gained {de} J, charge in/out accounts for {flow} J (slack {slack})", self.describe())
                elif clamped > v:
                    ctx.check(de <= flow + slack, "energy-balance", lambda: f"step {self.step_n}: capacitor gained {de} J > {flow} J", self.describe())
            ctx.seen("cap", self.boost, self.feedback, de > 0, clamped > v, dv > 0.05 * v0)
        self.v_mid = now

    def states(self, cnv, ret):
        ctx = self.ctx
        v = self.v_mid
        due = self.since_check is None or self.since_check + 1 >= self.interval
        if due:
            self.since_check = 0
            if self.on:
                if v < self.v_dis:
                    self.on = False
                    ctx.count("turn_off")
            elif v >= self.v_en:
                self.on = True
                ctx.count("turn_on")
                self.v_mid = v - self.dv
                ctx.count("dv_steps", self.dv > 0)
        else:
            self.since_check += 1
            ctx.count("unchecked_threshold_steps")
        self.same(cnv.V_mid_uV, self.v_mid, "surge-compensation", "capacitor voltage after switching")
        self.v_mid = cnv.V_mid_uV
        if due or self.cfg.immediate_pwr_good_signal:
            if self.pg:
                if v <= self.pg_dis:
                    self.pg = False
                    ctx.count("pg_fall")
            elif v >= self.pg_en and self.on:
                self.pg = True
                ctx.count("pg_rise")
        ctx.check(bool(cnv.get_power_good()) == self.pg, "power-good", lambda: f"step {self.step_n}: power-good {cnv.get_power_good()} at V={v} (thresholds {self.pg_dis}/{self.pg_en}, on={self.on}), expected {self.pg}", self.describe())
        if self.on or self.drain_left > 0:
            if self.buck and self.v_mid > self.v_out + self.v_bdrop:
                want = self.v_out
                ctx.count("regulated_out")
            else:
                want = max(0.0, self.v_mid - self.v_bdrop)
                ctx.count("passthrough_out")
        else:
            want = 0.0
        self.same(cnv.V_out_dac_uV, want, "output-voltage", f"output voltage at V_mid={self.v_mid}, on={self.on}, thresholds {self.v_dis}/{self.v_en}")
        if want == 0:
            raw_want = (0,) if not (self.on or self.drain_left > 0) else None
        else:
            raw_want = None
        if raw_want is None:
            x = (want * 1e-6 - self.cal.dac_V_A.offset) / self.cal.dac_V_A.gain
            ok = abs(min(max(x, 0), 2**16 - 1) - ret) <= 1.0
        else:
            ok = ret in raw_want
        ctx.check(ok and 0 <= ret <= 2**16 - 1, "output-dac", lambda: f"dac {ret} for {want} uV")
        ctx.check(bool(cnv.vsource_skip_gpio_logging) == (cnv.V_out_dac_uV < self.v_log), "gpio-logging", lambda: f"skip={cnv.vsource_skip_gpio_logging} at {cnv.V_out_dac_uV} threshold {self.v_log}")
        self.v_out_now = cnv.V_out_dac_uV
        ctx.seen("st", self.boost, self.buck, self.storage, self.on, self.pg, due)
        self.step_n += 1


class Drive:
    """Waveforms that push the converter through charge, discharge, bursts and silence."""

    def __init__(self, rng, mon: Monitor):
        self.rng, self.mon = rng, mon
        self.left = 0

    def next(self):
        rng, m = self.rng, self.mon
        if self.left <= 0:
            self.left = rng.choice([1, 3, 10, 30, 60, 120])
            v_ref = max(1e5, m.v_mid)
            # current that moves the cap by some mV per step
            i_mv = 1e3 / m.k if m.storage else 1e6
            self.mode = rng.choice(["charge", "charge", "discharge", "discharge", "rest", "burst", "edge", "noise", "neg"])
            self.v = rng.choice([v_ref * rng.uniform(0.2, 1.6), rng.uniform(0, 5e6), m.v_boost, m.v_boost + m.v_drop, v_ref + m.v_drop + rng.uniform(-2e5, 6e5)])
            self.i = min(4.2e9, i_mv * rng.choice([0.1, 1, 5, 20]) * rng.uniform(0.5, 1.5) * v_ref / max(1e5, self.v))
            self.o = min(5e7, i_mv * rng.choice([0.1, 1, 5, 20]) * rng.uniform(0.5, 1.5))
        self.left -= 1
        v, i, o = self.v, self.i, self.o
        if self.mode == "charge":
            o = 0
        elif self.mode == "discharge":
            i = rng.choice([0, i * 0.01])
        elif self.mode == "rest":
            v, i, o = rng.choice([(0, 0, 0), (v, 0, 0), (0, i, 0)])
        elif self.mode == "burst":
            o = o if rng.random() < 0.2 else 0
        elif self.mode == "edge":
            v = rng.choice([m.v_drop, m.v_drop + 1, m.v_boost + m.v_drop, m.v_mid, m.v_mid + m.v_drop, 2**17, 2**18 - 1, m.v_in_max + m.v_drop, 2e7])
            i = rng.choice([0, 1, 2**rng.randint(0, 31), 2**rng.randint(1, 31) - 1, m.i_in_max, m.i_in_max + 1])
            if m.storage and rng.random() < 0.8:
                i = min(i, 5e4 / m.k)
        elif self.mode == "noise":
            v, i, o = v * rng.random(), i * rng.random(), o * rng.random()
        elif self.mode == "neg":
            v, i, o = rng.choice([(-v, i, 0), (v, -i, 0), (v, i, -o)])
        return v, i, o


def rand_cal(rng):
    from shepherd_core import CalibrationEmulator

    cal = CalibrationEmulator()
    if rng.random() < 0.3:
        d = cal.model_dump()
        d["adc_C_A"]["offset"] = rng.choice([-1e-6, -3e-6, 1e-6, -20e-6])
        d["adc_C_A"]["gain"] = d["adc_C_A"]["gain"] * rng.uniform(0.95, 1.05)
        d["dac_V_A"]["gain"] = d["dac_V_A"]["gain"] * rng.uniform(0.95, 1.05)
        cal = CalibrationEmulator(**d)
    return cal


def drive_config(ctx: Ctx, cfg, steps: int) -> None:
    from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig
    from shepherd_core.vsource.virtual_converter_model import PruCalibration
    from shepherd_core.vsource.virtual_converter_model import VirtualConverterModel

    rng = ctx.rng
    cal = rand_cal(rng)
    fb = rng.random() < 0.6
    reg = ConverterPRUConfig.from_vsrc(cfg, dtype_in="ivcurve" if fb else "ivsample", log_intermediate_node=rng.random() < 0.3)
    cnv = VirtualConverterModel(reg, PruCalibration(cal))
    mon = Monitor(ctx, cfg, cal, fb)
    ctx.check(close(cnv.V_mid_uV, mon.v_mid), "initial-charge", lambda: f"starts with {cnv.V_mid_uV} uV instead of {mon.v_mid}")
    drive = Drive(rng, mon)
    ctx.count("configs")
    for _ in range(steps):
        v, i, o_nA = drive.next()
        raw = int(o_nA * 1e-9 / cal.adc_C_A.gain) if rng.random() < 0.97 else rng.choice([-5, 0, 1, 2**18 - 1, 2**18, 2**20])
        if cal.adc_C_A.offset < 0 and rng.random() < 0.1:
            raw = rng.choice([0, 1, 10, 40])
        mon.inp(cnv, v, i, cnv.calc_inp_power(v, i))
        mon.out(cnv, raw, cnv.calc_out_power(raw))
        mon.cap(cnv, cnv.update_cap_storage())
        mon.states(cnv, cnv.update_states_and_output())
        ctx.check(abs(cnv.get_V_intermediate_uV() - cnv.V_mid_uV) <= 0.5 + 1e-6, "getter", "V_intermediate getter")
        ctx.counts["steps"] += 1


def f_random(ctx: Ctx) -> None:
    from shepherd_core.data_models import VirtualSourceConfig

    for _ in range(6):
        drive_config(ctx, VirtualSourceConfig(**rand_vsrc(ctx.rng)), 500)
    ctx.count("lut_cells", len(ctx.sigs))


def f_fixtures(ctx: Ctx) -> None:
    """Every shipped source, with its capacitor optionally shrunk so that dynamics unfold quickly."""
    from shepherd_core.data_models import VirtualSourceConfig

    names = fixture_names("VirtualSourceConfig")
    for name in names:
        if name == "neutral":
            continue
        d = {"name": name}
        ref = VirtualSourceConfig(**d)
        if ref.C_intermediate_uF > 0 and ctx.rng.random() < 0.7:
            d = {"inherit_from": name, "name": "small", "C_intermediate_uF": round(ctx.rng.uniform(2, 20), 2)}
            if ctx.rng.random() < 0.5:
                d["V_intermediate_init_mV"] = round(ref.V_intermediate_enable_threshold_mV * ctx.rng.uniform(0.9, 1.05) + 5)
        drive_config(ctx, VirtualSourceConfig(**d), 500)
        ctx.count("fixture_sources")


def f_source_model(ctx: Ctx) -> None:
    """The complete source model steps the converter exactly once per sample, in order."""
    from shepherd_core.data_models import VirtualSourceConfig
    from shepherd_core.vsource import VirtualSourceModel

    rng = ctx.rng
    for _ in range(4):
        cfg = VirtualSourceConfig(**rand_vsrc(rng))
        cal = rand_cal(rng)
        log_mid = rng.random() < 0.4
        src = VirtualSourceModel(cfg, cal, dtype_in="ivsample", log_intermediate=log_mid)
        mon = Monitor(ctx, cfg, cal, False)
        drive = Drive(rng, mon)
        w_in = w_out = 0
        for _n in range(250):
            v, i, o = drive.next()
            v, i, o = int(v), int(i), max(0, int(o))
            p0 = (mon.v_mid, mon.v_out_now)
            got = src.iterate_sampling(V_inp_uV=v, I_inp_nA=i, I_out_nA=o)
            x = (o * 1e-9 - cal.adc_C_A.offset) / cal.adc_C_A.gain
            raw = int(max(0.0, x))
            # exact conversion is the calibration's business (C11); accept the neighbouring code
            cnv = src.cnv
            vm = cnv.V_mid_uV
            # replay stages on a stand-in that exposes the recorded state
            st = _Recorded(cnv, mon, vm)
            mon.inp(st, v, i, round(cnv.P_inp_fW))
            i_ok = []
            for r in (raw, raw + 1):
                r2 = min(2**18 - 1, r)
                i_nA = (r2 * cal.adc_C_A.gain + cal.adc_C_A.offset) * 1e9
                i_ok.append(i_nA)
            if cal.adc_C_A.offset >= 0 and mon.drain_left == 0:
                p_exp = [(mon.lut_out(a) if mon.buck else 1.0) * p0[1] * a + mon.v_mid * mon.leak for a in i_ok]
                ctx.check(any(close(cnv.P_out_fW, p, 1e-6, 10) for p in p_exp), "source-output-power", lambda: f"P_out {cnv.P_out_fW}, expected {p_exp} for {o} nA at {p0[1]} uV", mon.describe())
            else:
                mon.drain_left = max(0, mon.drain_left - 1)
            w_in += round(cnv.P_inp_fW)
            w_out += round(cnv.P_out_fW)
            # storage and switching happen in the same step: judge combined
            v_c = mon.v_mid + ((cnv.P_inp_fW - cnv.P_out_fW) / max(1.0, mon.v_mid) * mon.k if mon.storage else 0)
            v_c = max(1, min(v_c, mon.v_max))
            mon.v_mid = v_c
            dac = got
            want_out = cnv.V_out_dac_uV
            mon.states(cnv, _dac(cal, want_out, mon))
            if log_mid:
                ctx.check(abs(dac - v_c) <= 1.0 + 1e-6 * v_c, "logged-node", lambda: f"log_intermediate returned {dac}, capacitor {v_c}")
            else:
                lim = (2**16 - 1) * cal.dac_V_A.gain * 1e6
                ctx.check(abs(dac - min(want_out, lim)) <= cal.dac_V_A.gain * 1e6 + 2, "logged-node", lambda: f"returned {dac}, output {want_out}")
            ctx.counts["source_model_steps"] += 1
        ctx.check(close(src.W_inp_fWs, w_in, 1e-9, 1) and close(src.W_out_fWs, w_out, 1e-9, 1), "energy-counters", lambda: f"counters {src.W_inp_fWs}/{src.W_out_fWs} vs {w_in}/{w_out}")


def _dac(cal, uv, mon):
    if not (mon.on or mon.drain_left > 0) and uv == 0:
        return 0
    return int(min(max((uv * 1e-6 - cal.dac_V_A.offset) / cal.dac_V_A.gain, 0), 2**16 - 1))


class _Recorded:
    """State as seen right after the input stage (reconstructed from the finished step)."""

    def __init__(self, cnv, mon, vm):
        self.P_inp_fW = cnv.P_inp_fW
        self.V_input_request_uV = cnv.V_input_request_uV
        self._cnv = cnv
        self._mon = mon

    @property
    def V_mid_uV(self):
        return self._mon.v_mid  # judged after the complete step


def f_cold_start(ctx: Ctx) -> None:
    """Charging an (almost) empty capacitor must not create energy either."""
    from shepherd_core import CalibrationEmulator
    from shepherd_core.data_models import VirtualSourceConfig
    from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig
    from shepherd_core.vsource.virtual_converter_model import PruCalibration
    from shepherd_core.vsource.virtual_converter_model import VirtualConverterModel

    cfg = VirtualSourceConfig(name="cold", enable_boost=True, C_intermediate_uF=100, V_intermediate_init_mV=0)
    cnv = VirtualConverterModel(ConverterPRUConfig.from_vsrc(cfg), PruCalibration(CalibrationEmulator()))
    e_in = 0.0
    for _ in range(3):
        cnv.calc_inp_power(1e6, 1e6)  # 1 mW
        cnv.calc_out_power(0)
        cnv.update_cap_storage()
        cnv.update_states_and_output()
        e_in += cnv.P_inp_fW * 1e-15 * 1e-5
    e_cap = 0.5 * 100e-6 * (cnv.V_mid_uV * 1e-6) ** 2
    ctx.count("cold_start")
    ctx.check(e_cap <= e_in * 1.1, "cold-start-energy", lambda: f"empty 100 uF capacitor holds {e_cap} J after receiving {e_in} J")


def f_composition(ctx: Ctx) -> None:
    """The complete source does exactly what its stages do, including the request to the harvester."""
    from vlib.vsrc import composition_case

    for _ in range(4):
        composition_case(ctx, rand_cal)


FAMILIES = {
    "composition": Family(f_composition, quick=30, thorough=600),
    "random": Family(f_random, quick=100, thorough=1200),
    "fixtures": Family(f_fixtures, quick=6, thorough=120),
    "source": Family(f_source_model, quick=10, thorough=300),
    "cold_start": Family(f_cold_start, quick=1, thorough=1),
}
