"""C14 - virtual harvesters only deliver points of the offered characteristic.

Deciding step: a monitor sees every (voltage, current) sample fed to VirtualHarvesterModel and
every operating point it hands out, keeps the recent windows of the trace, and judges membership,
maximality, limits, sign and the setpoint rules of each tracker.
"""
from __future__ import annotations

from collections import deque

import numpy as np

from vlib.core import Ctx
from vlib.core import Family
from vlib.vsrc import curve
from vlib.vsrc import fixture_names

PROPERTY = "C14"
TECHNIQUE = "runtime monitoring: online monitor over the stream of offered samples and delivered operating points of the real harvester model"
LEVEL_NOTE = (
    "the real VirtualHarvesterModel is fed with synthetic iv-curves (shapes, rising/falling, noise, drift, steps, zero light); "
    "a monitor with the recent windows judges every delivered point and the setpoint rules"
)
RULE = (
    "case = some harvester configurations (fixtures and random limits/intervals/ratios) x traces of 30..120 windows; "
    "non-trivial: delivered points with power, changes of operating point, tracker setpoint updates"
)
REQUIRED = {
    "composition_steps": 15000, "composition_feedback": 5,
    "traces": 150, "points": 150_000, "nonzero_points": 80_000, "passthrough_points": 3_000,
    "opt_points": 20_000, "opt_max_reached": 10_000, "opt_drift_points": 1000, "opt_takeover": 5000, "cv_points": 20_000, "cv_nearest": 8_000, "voc_setpoints": 40, "voc_exact": 40,
    "po_decisions": 500, "po_reversals": 100, "po_doublings": 50, "po_limited": 20, "extrapolated_points": 5_000, "no_extrapolation_points": 40_000, "step_relation": 100_000,
}
ASSUMPTIONS = ["power bound of the voc/po trackers is judged without linear extrapolation (see known finding), their step rule with and without"]


class RefCV:
    """Constant-voltage rule: hold the recorded sample closest to the setpoint at every crossing."""

    def __init__(self, step_uV: int, extrapolate: bool):
        self.near = 4 * step_uV
        self.ext = extrapolate
        self.hold = (0, 0)
        self.delta = (0, 0)
        self.last = (0, 0)
        self.was_below = 0

    def step(self, v, i, setpoint):
        below = v < setpoint
        d_now, d_last = abs(v - setpoint), abs(self.last[0] - setpoint)
        if below != self.was_below and abs(v - self.last[0]) < self.near:
            pick = None
            if d_now < d_last:
                pick = (v, i) if d_now < self.near else None
            elif d_last < d_now:
                pick = self.last if d_last < self.near else None
            if pick is not None:
                self.hold = pick
                self.delta = (v - self.last[0], i - self.last[1])
        elif self.ext:
            dv, di = self.delta
            up = self.hold[0] < setpoint
            if up == (dv > 0):
                self.hold = (self.hold[0] + dv, self.hold[1] + di)
            else:
                self.hold = (max(0, self.hold[0] - dv), max(0, self.hold[1] - di))
        self.last = (v, i)
        self.was_below = below
        return max(0, self.hold[0]), max(0, self.hold[1])


class RefVoc:
    def __init__(self, reg, cv):
        self.reg, self.cv = reg, cv
        self.set = reg.voltage_uV + 1
        self.n = self._start(reg)
        self.now = self.nxt = reg.voltage_max_uV
        self.a_now = self.a_nxt = 0
        self.lo = max(1000, reg.voltage_min_uV)

    @staticmethod
    def _start(reg):
        return reg.interval_n - 2 * reg.window_size if reg.interval_n > 2 * reg.window_size else 2**30

    def step(self, v, i):
        r = self.reg
        self.n = 0 if self.n + 1 >= r.interval_n else self.n + 1
        self.a_now += 1
        self.a_nxt += 1
        if i < r.current_limit_nA and self.lo <= v <= r.voltage_max_uV and v < self.nxt:
            self.nxt, self.a_nxt = v, 0
        if self.nxt <= self.now or self.a_now > 2 * r.window_size:
            self.now, self.a_now = self.nxt, self.a_nxt
            self.nxt, self.a_nxt = r.voltage_max_uV, 0
        out = self.cv.step(v, i, self.set)
        if self.n < r.duration_n:
            self.set = self.now
        elif self.n == r.duration_n:
            self.set = int(self.now * r.setpoint_n8 / 256)
        return out


class RefPO:
    def __init__(self, ctx, reg, cv):
        self.ctx, self.reg, self.cv = ctx, reg, cv
        self.set = reg.voltage_uV + 1
        self.n = RefVoc._start(reg)
        self.rising = bool(reg.hrv_mode & 2)
        self.d = reg.voltage_step_uV
        self.p = 0

    def step(self, v, i):
        r, ctx = self.reg, self.ctx
        self.n = 0 if self.n + 1 >= r.interval_n else self.n + 1
        out = self.cv.step(v, i, self.set)
        if self.n == 0:
            ctx.count("po_decisions")
            p = out[0] * out[1]
            if p > self.p:
                self.set += self.d if self.rising else -self.d
                self.d *= 2
                ctx.count("po_doublings")
            elif p <= 0 and self.set > 0:
                self.rising, self.d = True, r.voltage_step_uV
                self.set -= 4 * r.voltage_step_uV
            else:
                self.rising, self.d = not self.rising, r.voltage_step_uV
                self.set += self.d if self.rising else -self.d
                ctx.count("po_reversals")
            self.p = p
            for lim, hit, rise in ((r.voltage_max_uV, self.set >= r.voltage_max_uV, False),
                                   (r.voltage_min_uV, self.set <= r.voltage_min_uV, True),
                                   (r.voltage_step_uV, self.set <= r.voltage_step_uV, True)):
                if lim == r.voltage_min_uV and rise:
                    hit = self.set <= lim
                if lim == r.voltage_step_uV and rise:
                    hit = self.set <= lim
                if hit:
                    self.set, self.rising, self.d = lim, rise, r.voltage_step_uV
                    ctx.count("po_limited")
        return out


def rand_cfg(rng, name=None, **kw):
    from shepherd_core.data_models import VirtualHarvesterConfig

    algo = name or rng.choice(["cv", "mppt_voc", "mppt_po", "mppt_opt"])
    d = {"name": "vt_h"}
    if algo in ("cv", "mppt_voc", "mppt_po", "mppt_opt"):
        d["inherit_from"] = {"cv": "cv24", "mppt_voc": "mppt_voc", "mppt_po": "mppt_po", "mppt_opt": "mppt_opt"}[algo]
    else:
        d["inherit_from"] = algo
    if rng.random() < 0.75:
        lo = round(rng.choice([0, 0, rng.uniform(0, 1200)]))
        hi = round(rng.choice([5000, 5000, rng.uniform(2600, 5000)]))
        d.update(voltage_min_mV=lo, voltage_max_mV=hi, voltage_mV=round(rng.uniform(lo, hi), rng.choice([0, 3])))
        d["current_limit_uA"] = rng.choice([1, 5, 50, 500, round(rng.uniform(1, 3000))])
        d["setpoint_n"] = round(rng.uniform(0.3, 1.0), 3)
        d["interval_ms"] = rng.choice([0.01, 1, 5, 20, round(rng.uniform(0.5, 40), 2)])
        d["duration_ms"] = rng.choice([0.01, 0.1, 1, round(rng.uniform(0.05, 5), 2)])
        d["rising"] = rng.random() < 0.5
        d["enable_linear_extrapolation"] = rng.random() < 0.4
    d.update(kw)
    return VirtualHarvesterConfig(**d)


def trace(ctx: Ctx, n_win: int, w: int):
    """Concatenated windows and the kind of light profile."""
    rng, nr = ctx.rng, ctx.np_rng()
    kind = rng.choice(["const", "const", "steps", "drift", "noise", "dark", "flicker"])
    falling = rng.random() < 0.4
    voc, isc = rng.uniform(0.5, 4.8), 10 ** rng.uniform(-5, -1.4)
    shape = rng.choice(["diode", "diode", "linear", "shaded"])
    vmax = rng.choice([5.0, 5.0, voc * 1.1, voc * 0.9])
    st = nr.bit_generator.state
    wins = []
    for k in range(n_win):
        if kind in ("const", "steps", "drift", "dark", "flicker"):
            nr.bit_generator.state = st  # same curve
        f = 1.0
        if kind == "steps":
            f = [1.0, 0.4, 1.3, 0.7][(k // 12) % 4]
        elif kind == "drift":
            f = 1.0 - 0.004 * k if k < n_win / 2 else 1.0 - 0.004 * (n_win - k)
        elif kind == "dark":
            f = 0.0 if (k // 10) % 2 else 1.0
        elif kind == "flicker":
            f = rng.uniform(0.2, 1.0)
        v, i = curve(nr, w, voc=voc, isc=max(1e-12, isc * f), falling=falling, vmax=vmax, noise=0.03 if kind == "noise" else 0, shape=shape)
        wins.append((v, i))
    return kind, falling, vmax, wins


def drive(ctx: Ctx, cfg, dtype="ivcurve") -> None:
    from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
    from shepherd_core.vsource.virtual_harvester_model import VirtualHarvesterModel

    rng = ctx.rng
    w = rng.choice([8, 16, 25, 50, 100])
    n_win = rng.choice([30, 50]) if w > 25 else rng.choice([60, 120])
    kind, falling, vmax, wins = trace(ctx, n_win, w)
    step_V = vmax / (w - 1)
    if rng.random() < 0.2:  # real recordings have an odd cut-in: curve does not start at window border
        cut = rng.randrange(w)
    else:
        cut = 0
    reg = HarvesterPRUConfig.from_vhrv(cfg, for_emu=True, dtype_in=dtype, window_size=w, voltage_step_V=step_V)
    hrv = VirtualHarvesterModel(reg)
    algo = str(getattr(cfg.algorithm, "value", cfg.algorithm))
    ext = cfg.enable_linear_extrapolation
    cv = RefCV(reg.voltage_step_uV, ext)
    ref = None
    if algo == "mppt_voc":
        ref = RefVoc(reg, cv)
    elif algo == "mppt_po":
        ref = RefPO(ctx, reg, cv)
    lo, hi = reg.voltage_min_uV, reg.voltage_max_uV
    recent: deque = deque(maxlen=3 * w + 4)
    seen_all: set = {(0, 0)}
    n = 0
    start = True
    last_pt = None
    ctx.count("traces")
    fail_info = lambda: {"algo": algo, "ext": ext, "w": w, "falling": falling, "kind": kind, "reg": reg.model_dump()}  # noqa: E731
    win_max = []  # best power of each complete window within limits
    for k, (vs, is_) in enumerate(wins):
        pw = [int(a) * int(b) for a, b in zip(vs, is_) if lo <= a <= hi]
        for a, b in zip(vs.tolist(), is_.tolist()):
            if start and n < cut and k == 0:
                n += 1
                continue
            start = False
            v, i = hrv.ivcurve_sample(a, b)
            recent.append((a, b))
            seen_all.add((a, b))
            n += 1
            ctx.counts["points"] += 1
            ctx.counts["assertions"] += 4
            if v * i > 0:
                ctx.counts["nonzero_points"] += 1
            if v < 0 or i < 0:
                ctx.fail("negative-point", f"{algo}: handed out {v} uV, {i} nA", fail_info())
            if algo == "mppt_opt":
                ctx.counts["opt_points"] += 1
                if (v, i) != (0, 0) and ((v, i) not in recent):
                    ctx.fail("not-a-recorded-sample", f"opt: {v} uV, {i} nA is no sample of the recent windows", fail_info())
                if (v, i) != (0, 0) and not lo <= v <= hi:
                    ctx.fail("voltage-limit", f"opt: {v} outside {lo}..{hi}", fail_info())
                if lo <= a <= hi:
                    ctx.counts["opt_takeover"] += 1
                    if v * i < int(a) * int(b):
                        ctx.fail("not-optimal", f"opt: stays at {v * i} fW while the present sample offers {int(a) * int(b)}", fail_info())
                if k >= 3 and pw:
                    p = v * i
                    best = [m for m in win_max[-3:] if m is not None] + [max(pw)]
                    if kind == "const":
                        ctx.counts["opt_max_reached"] += 1
                        if p != max(pw):
                            ctx.fail("not-optimal", f"opt: {p} fW instead of {max(pw)} (constant curve, window {k})", fail_info())
                    else:
                        # after a drop of light the old maximum may age, but never longer than two windows
                        ctx.counts["opt_drift_points"] += 1
                        if p > max(best):
                            ctx.fail("more-power-than-offered", f"opt: {p} fW, maxima of the recent windows {best}", fail_info())
                        stable = win_max[-5:] + [max(pw)]
                        if len(stable) == 6 and len(set(stable)) == 1 and p != stable[0]:
                            ctx.fail("not-optimal", f"opt: {p} fW instead of {stable[0]} (light unchanged for 5 windows)", fail_info())
            else:
                if not ext:
                    ctx.counts["no_extrapolation_points"] += 1
                    if (v, i) not in seen_all:
                        ctx.fail("not-a-recorded-sample", f"{algo}: {v} uV, {i} nA was never offered", fail_info())
                elif last_pt is not None and (v, i) != last_pt:
                    ctx.counts["extrapolated_points"] += 1
                if algo == "cv":
                    ctx.counts["cv_points"] += 1
                    want = cv.step(a, b, reg.voltage_uV + 1)
                    ctx.counts["step_relation"] += 1
                    if (v, i) != want:
                        ctx.fail("cv-rule", f"cv: {(v, i)} instead of {want} at sample {n}", fail_info())
                    if k >= 2 and (v, i) not in seen_all and kind != "noise":
                        # toggles between the two samples around the setpoint; drift moves them slightly
                        near = min(abs(v - x) for x in vs.tolist())
                        if near > 2:
                            ctx.fail("not-a-recorded-sample", f"cv: {v} uV is not on the grid of the curve", fail_info())
                    sp = reg.voltage_uV
                    if k >= 2 and (vs.min() + 2 * step_V * 1e6) < sp < (vs.max() - 2 * step_V * 1e6):
                        ctx.counts["cv_nearest"] += 1
                        if abs(v - sp) > step_V * 1e6 + 3:
                            ctx.fail("cv-setpoint", f"cv: operates at {v} uV instead of {sp}", fail_info())
                elif ref is not None:
                    want = ref.step(a, b)
                    ctx.counts["step_relation"] += 1
                    if (v, i) != want or hrv.voltage_set_uV != ref.set:
                        ctx.fail(f"{algo}-rule", f"{(v, i)} set {hrv.voltage_set_uV} instead of {want} set {ref.set} at sample {n}", fail_info())
                    if algo == "mppt_voc":
                        voc_monitor(ctx, ref, reg, k, vs, is_, kind, lo, hi, fail_info)
                    elif not (lo - 1 <= hrv.voltage_set_uV <= max(hi, reg.voltage_step_uV) + 1):
                        ctx.fail("voltage-limit", f"po: setpoint {hrv.voltage_set_uV} outside {lo}..{hi}", fail_info())
            last_pt = (v, i)
            if not ext or algo in ("mppt_opt",):
                pmax = max(x * y for x, y in recent) if n % 7 == 0 and kind == "const" and k > 3 else None
                if pmax is not None and v * i > pmax:
                    ctx.fail("more-power-than-offered", f"{algo}: {v * i} fW offered {pmax}", fail_info())
        win_max.append(max(pw) if pw else None)
        ctx.seen(algo, ext, kind, falling, shape_sig(last_pt, vs))


def shape_sig(pt, vs):
    return int(10 * pt[0] / max(1, int(vs.max()))) if pt else None


def voc_monitor(ctx, ref, reg, k, vs, is_, kind, lo, hi, info):
    """Open-circuit voltage seen by the tracker is the lowest voltage with current under the limit."""
    if kind == "const" and k >= 6 and ref.n == reg.duration_n:
        ctx.counts["voc_setpoints"] += 1
        cand = [int(a) for a, b in zip(vs, is_) if b < reg.current_limit_nA and max(1000, lo) <= a <= hi]
        voc = min(cand) if cand else hi
        want = int(voc * reg.setpoint_n8 / 256)
        ctx.counts["voc_exact"] += 1
        ctx.counts["assertions"] += 1
        if ref.set != want:
            ctx.fail("voc-setpoint", f"setpoint {ref.set} instead of {reg.setpoint_n8}/256 of {voc}", info())


def f_random(ctx: Ctx) -> None:
    for _ in range(5):
        drive(ctx, rand_cfg(ctx.rng))
    drive(ctx, rand_cfg(ctx.rng, "mppt_voc", interval_ms=ctx.rng.choice([1, 2.5, 5]), duration_ms=ctx.rng.choice([0.1, 0.5])))


def f_fixtures(ctx: Ctx) -> None:
    from shepherd_core.data_models import VirtualHarvesterConfig

    for name in fixture_names("VirtualHarvesterConfig"):
        if name in ("neutral", "isc_voc") or name.startswith("ivcurve") or name.startswith("iv"):
            continue
        kw = {} if ctx.rng.random() < 0.5 else {"enable_linear_extrapolation": ctx.rng.random() < 0.5, "interval_ms": 5, "duration_ms": 1}
        drive(ctx, VirtualHarvesterConfig(inherit_from=name, name="vt", **kw) if kw else VirtualHarvesterConfig(name=name))
        ctx.count("fixture_harvesters")


def f_passthrough(ctx: Ctx) -> None:
    """Already harvested samples pass unchanged."""
    from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
    from shepherd_core.vsource.virtual_harvester_model import VirtualHarvesterModel

    for _ in range(6):
        cfg = rand_cfg(ctx.rng)
        kw = {} if ctx.rng.random() < 0.6 else {"window_size": ctx.rng.choice([0, 1])}
        reg = HarvesterPRUConfig.from_vhrv(cfg, for_emu=True, dtype_in=ctx.rng.choice(["ivsample", "ivsamples"]) if not kw else "ivsample", **kw)
        hrv = VirtualHarvesterModel(reg)
        for _n in range(200):
            v, i = ctx.rng.randrange(0, 5_000_000), ctx.rng.choice([0, 1, ctx.rng.randrange(10**8)])
            got = hrv.ivcurve_sample(v, i)
            ctx.counts["passthrough_points"] += 1
            ctx.eq(tuple(got), (v, i), "passthrough", f"{cfg.algorithm}")


def f_overshoot(ctx: Ctx) -> None:
    """Deterministic: default open-circuit tracker on a constant curve."""
    from shepherd_core.data_models import VirtualHarvesterConfig
    from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
    from shepherd_core.vsource.virtual_harvester_model import VirtualHarvesterModel

    cfg = VirtualHarvesterConfig(inherit_from="mppt_voc", name="x", interval_ms=10, duration_ms=2, enable_linear_extrapolation=True)
    v = np.linspace(0, 5.0, 100)
    i = np.maximum(0, 0.01 * (1 - np.expm1(v / 0.08 / 4.0) / np.expm1(1 / 0.08)))
    v, i = (v * 1e6).astype(int), (i * 1e9).astype(int)
    hrv = VirtualHarvesterModel(HarvesterPRUConfig.from_vhrv(cfg, for_emu=True, dtype_in="ivcurve", window_size=100, voltage_step_V=5 / 99))
    pmax = int((v * i).max())
    worst = 0
    for _ in range(100):
        for a, b in zip(v.tolist(), i.tolist()):
            x, y = hrv.ivcurve_sample(a, b)
            worst = max(worst, x * y)
    ctx.count("overshoot_case")
    ctx.check(worst <= pmax, "extrapolation-overshoot", f"mppt_voc hands out {worst / pmax:.3f} x the maximum power of the curve")


def f_composition(ctx: Ctx) -> None:
    """The complete source does exactly what its stages do, including the request to the harvester."""
    from vlib.vsrc import composition_case

    for _ in range(4):
        composition_case(ctx)


FAMILIES = {
    "composition": Family(f_composition, quick=24, thorough=500),
    "random": Family(f_random, quick=360, thorough=7500),
    "fixtures": Family(f_fixtures, quick=24, thorough=1000),
    "passthrough": Family(f_passthrough, quick=12, thorough=200),
    "overshoot": Family(f_overshoot, quick=1, thorough=1),
}
