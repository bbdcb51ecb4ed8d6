"""C17 - target load models draw physically plausible current.

Deciding step: a monitor around every target.step() compares the drawn current with the law of the
target (closed form / independently solved diode equation) and with a fresh twin instance.
"""
from __future__ import annotations

import math

from vlib.core import Ctx
from vlib.core import Family
from vlib.vsrc import rand_vsrc

PROPERTY = "C17"
TECHNIQUE = "runtime monitoring: every step of the real target models is judged against its physical law and a stateless twin"
LEVEL_NOTE = "real target models run over random voltage / power-good histories and inside the real source model; currents are compared with independently solved laws"
RULE = "case = random parametrisations of all target kinds, driven through histories including 0 V, micro-volts and out-of-regulation voltages; non-trivial: steps with current, unpowered steps, zero-voltage steps"
REQUIRED = {
    "steps": 30_000, "zero_voltage": 2_000, "unpowered": 8_000, "diode_steps": 5_000, "diode_below_forward": 1_500, "power_steps": 3_000,
    "current_steps": 3_000, "resistive_steps": 3_000, "bad_params": 40, "source_steps": 3_000, "twin_checks": 5_000,
}


def ref_diode(V: float, vf: float, i_f: float, R: float) -> float:
    """Current through diode + resistor, solved for the logarithm of the current (well conditioned)."""
    c1 = 2 * 1.380649e-23 * 373.15 / 1.6021766e-19
    i_s = i_f / math.expm1(vf / c1)
    if V <= 0:
        return 0.0
    lo, hi = math.log(i_s) - 60, math.log(V / R) + 1e-9
    hi = min(hi, math.log(i_s) + V / c1 + 1e-9)
    lo = min(lo, hi - 100)
    for _ in range(200):
        m = (lo + hi) / 2
        i = math.exp(m)
        # voltage needed for current i
        need = i * R + c1 * math.log1p(i / i_s)
        if need > V:
            hi = m
        else:
            lo = m
    return math.exp((lo + hi) / 2)


def rand_target(rng):
    from shepherd_core.vsource import target_model as tm

    kind = rng.choice(["res", "diode", "diode", "cur", "pow"])
    ctrl = rng.random() < 0.5
    if kind == "res":
        R = rng.choice([0.0011, 0.01, 1.0, 1e3, 10 ** rng.uniform(-2.9, 7)])
        return kind, {"R": R, "ctrl": ctrl}, lambda: tm.ResistiveTarget(R_Ohm=R, controlled=ctrl)
    if kind == "diode":
        vf, i_f, R = rng.uniform(0.21, 3.6), 10 ** rng.uniform(-4, -1), 10 ** rng.uniform(0, 5)
        return kind, {"vf": vf, "if": i_f, "R": R, "ctrl": ctrl}, lambda: tm.DiodeTarget(V_forward_V=vf, I_forward_A=i_f, R_Ohm=R, controlled=ctrl)
    if kind == "cur":
        a, s = 10 ** rng.uniform(-8, -1), rng.choice([0, 10 ** rng.uniform(-9, -5)])
        kw = {} if s == 0 and rng.random() < 0.5 else {"I_sleep_A": s}
        return kind, {"a": a, "s": s}, lambda: tm.ConstantCurrentTarget(I_active_A=a, **kw)
    a, s = 10 ** rng.uniform(-7, -1), rng.choice([0, 10 ** rng.uniform(-9, -5)])
    kw = {} if s == 0 and rng.random() < 0.5 else {"P_sleep_W": s}
    return kind, {"a": a, "s": s}, lambda: tm.ConstantPowerTarget(P_active_W=a, **kw)


def judge(ctx: Ctx, kind, par, v_uV, pg, i_nA) -> None:
    ctx.count("steps")
    ctx.count("zero_voltage", v_uV == 0)
    ctx.count("unpowered", not pg)
    ctx.check(isinstance(i_nA, (int, float)) and not isinstance(i_nA, complex) and math.isfinite(i_nA) and i_nA >= 0,
              "implausible-current", lambda: f"{kind} {par} at {v_uV} uV pg={pg}: {i_nA} nA")
    if kind == "res":
        ctx.count("resistive_steps")
        want = v_uV * 1e-6 / par["R"] * 1e9 if pg or not par["ctrl"] else 0
        tol = 1e-9
    elif kind == "diode":
        ctx.count("diode_steps")
        ctx.count("diode_below_forward", v_uV * 1e-6 < par["vf"])
        want = ref_diode(v_uV * 1e-6, par["vf"], par["if"], par["R"]) * 1e9 if pg or not par["ctrl"] else 0
        # numerical resolution of the resistor current at tiny currents
        tol = 2e-5
    elif kind == "cur":
        ctx.count("current_steps")
        want = (par["a"] if pg else par["s"]) * 1e9
        tol = 1e-9
    else:
        ctx.count("power_steps")
        want = (par["a"] if pg else par["s"]) * 1e15 / v_uV if v_uV > 0 else 0
        tol = 1e-9
    abs_tol = 1e-9
    if kind == "diode":
        abs_tol = 1e-6 + 1e9 * (v_uV * 1e-6) * 2.3e-16 / par["R"]
    ctx.check(abs(i_nA - want) <= tol * abs(want) + abs_tol, f"law-{kind}", lambda: f"{kind} {par} at {v_uV} uV pg={pg}: {i_nA} nA, law gives {want} nA")
    ctx.seen(kind, pg, par.get("ctrl"), v_uV == 0, int(math.log10(want)) if want > 0 else None)


def volts(rng, n):
    v = 0
    out = []
    for _ in range(n):
        m = rng.randrange(8)
        if m == 0:
            v = 0
        elif m == 1:
            v = rng.choice([1, 2, 10, 999])
        elif m == 2:
            v = rng.randrange(0, 5_000_000)
        elif m == 3:
            v = rng.choice([5_000_000, 3_300_000, 1_800_000, 65535 * 76])
        else:
            v = max(0, min(5_000_000, v + rng.randrange(-200_000, 200_000)))
        out.append(v)
    return out


def f_laws(ctx: Ctx) -> None:
    rng = ctx.rng
    fleet = []
    for _ in range(20):
        kind, par, mk = rand_target(rng)
        fleet.append((kind, par, mk, mk()))
    for v in volts(rng, 100):
        pg = rng.random() < 0.6
        # all instances are used interleaved
        for kind, par, mk, t in fleet:
            i = t.step(v, pwr_good=pg)
            judge(ctx, kind, par, v, pg, i)
            if rng.random() < 0.25:
                ctx.count("twin_checks")
                ctx.check(mk().step(v, pwr_good=pg) == i and t.step(v, pwr_good=pg) == i, "state-carried", lambda: f"{kind} {par}: fresh or repeated step differs from {i}")


def f_exemplary(ctx: Ctx) -> None:
    """The shipped target instances are independent of what others do and follow their law."""
    from shepherd_core.vsource import target_model as tm

    rng = ctx.rng
    table = {
        "diode_target_burn": ("diode", {"vf": 2.0, "if": 20e-3, "R": 100, "ctrl": False}),
        "mcu_msp430fr": ("cur", {"a": 16 * 118e-6, "s": 350e-9}),
        "mcu_msp_deep_sleep": ("cur", {"a": 45e-9, "s": 45e-9}),
        "mcu_nrf52840": ("pow", {"a": 9e-3, "s": 3 * 0.97e-6}),
        "mcu_nrf_tx_8dBm": ("pow", {"a": 3 * 16.4e-3, "s": 0}),
        "mcu_nrf_tx_0dBm": ("pow", {"a": 3 * 6.4e-3, "s": 0}),
        "mcu_nrf_rx": ("pow", {"a": 3 * 6.26e-3, "s": 0}),
    }
    for v in volts(rng, 150):
        for name, (kind, par) in table.items():
            t = getattr(tm, name)
            pg = rng.random() < 0.6
            judge(ctx, kind, par, v, pg, t.step(v, pwr_good=pg))
    for t in (v for v in vars(tm).values() if isinstance(v, tm.TargetABC)):
        for v in (0, 1, 3_000_000):
            for pg in (True, False):
                i = t.step(v, pwr_good=pg)
                ctx.check(math.isfinite(i) and i >= 0, "implausible-current", f"{t} {v} {pg} {i}")


def f_in_source(ctx: Ctx) -> None:
    """Loads inside a running source, including brown-outs: never raise, always follow their law."""
    from shepherd_core import CalibrationEmulator
    from shepherd_core.data_models import VirtualSourceConfig
    from shepherd_core.vsource import VirtualSourceModel

    rng = ctx.rng
    for _ in range(3):
        kind, par, mk = rand_target(rng)
        t = mk()
        src = VirtualSourceModel(VirtualSourceConfig(**rand_vsrc(rng)), CalibrationEmulator(), dtype_in="ivsample")
        i = 0
        for n in range(300):
            on = (n // 60) % 2 == 0
            v = src.iterate_sampling(V_inp_uV=3_000_000 if on else 0, I_inp_nA=int(10 ** rng.uniform(3, 7)) if on else 0, I_out_nA=i)
            pg = src.cnv.get_power_good()
            i = t.step(int(v), pwr_good=pg)
            judge(ctx, kind, par, int(v), pg, i)
            ctx.count("source_steps")


def f_bad(ctx: Ctx) -> None:
    from shepherd_core.vsource import target_model as tm

    r = ctx.rng
    bad = [
        lambda: tm.ResistiveTarget(0), lambda: tm.ResistiveTarget(-r.uniform(0, 10)), lambda: tm.ResistiveTarget(1e-3),
        lambda: tm.DiodeTarget(2, 0.02, 0), lambda: tm.DiodeTarget(2, 0.02, -1), lambda: tm.DiodeTarget(0.2, 0.02, 10), lambda: tm.DiodeTarget(-1, 0.02, 10),
        lambda: tm.DiodeTarget(2, 0, 10), lambda: tm.DiodeTarget(2, -1e-3, 10),
        lambda: tm.ConstantCurrentTarget(0), lambda: tm.ConstantCurrentTarget(-1e-3), lambda: tm.ConstantCurrentTarget(1e-3, -1e-9),
        lambda: tm.ConstantPowerTarget(0), lambda: tm.ConstantPowerTarget(-1e-3), lambda: tm.ConstantPowerTarget(1e-3, -1e-9),
    ]
    for n, b in enumerate(bad):
        ctx.count("bad_params")
        ctx.rejects(b, "bad-parameter-accepted", f"physically impossible parameters #{n}", (ValueError,))


FAMILIES = {
    "laws": Family(f_laws, quick=64, thorough=2400),
    "exemplary": Family(f_exemplary, quick=16, thorough=240),
    "in_source": Family(f_in_source, quick=48, thorough=1800),
    "bad": Family(f_bad, quick=10, thorough=10),
}
