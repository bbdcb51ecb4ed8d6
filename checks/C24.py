"""C24 - scheduled events and times are exact and consistent.

Deciding step: expanded events are compared with exact rational arithmetic; settings are judged with a
table of requirements; instants of naive times and the local date are compared with the C-library
(mktime, localtime) under many local zones (with/without daylight-saving, in/out of effect today).
"""
from __future__ import annotations

import os
import time
from datetime import datetime
from datetime import timedelta
from datetime import timezone
from fractions import Fraction

from vlib import models as M
from vlib.core import Ctx
from vlib.core import Family

PROPERTY = "C24"
TECHNIQUE = "runtime monitoring: exact-arithmetic oracle over expanded events, requirement table for settings, libc as oracle for local time under generated time zones"
LEVEL_NOTE = "real GpioEvent/GpioActuation/tracing configs, timezone helpers, harvest/emulation/observer tasks"
RULE = "case = set of events, settings or times under one local zone; non-trivial: count > 1 with inexact period, zone with offset != 0"
REQUIRED = {
    "events": 2_000, "instants": 100_000, "inexact": 1_000, "reloaded": 300, "actuations": 100, "settings": 2_000, "accepted": 500, "rejected": 900,
    "zones": 150, "dst_now": 40, "dst_defined_not_now": 40, "dates": 300, "naive_times": 600, "aware_times": 300, "epoch_times": 300, "past": 200, "future": 400, "experiments": 60, "seasons": 40,
}
TOL = Fraction(1, 10**7)  # 1 % of the guaranteed resolution


def fam_events(ctx: Ctx) -> None:
    """Expansion of events."""
    cl = M.classes()
    rng = ctx.rng
    evs = []
    for _ in range(25):
        period = rng.choice([0.1, 0.3, 0.7, 1e-5, 1.1e-5, 1 / 3, 1.0, 2.5, rng.uniform(1e-5, 1), rng.uniform(1, 1000), rng.randint(1, 1000) * 1e-5, rng.randint(1, 99) / 100, 10 ** rng.uniform(-5, 3)])
        period = max(period, 1e-5)
        delay = rng.choice([0.1, 0.2, 1e-5, 1e-9, 1.0, rng.uniform(0, 10), rng.uniform(0, 1e5), rng.randint(1, 99) / 10, 10 ** rng.uniform(-6, 6), period])
        count = rng.choice([1, 1, 2, 3, rng.randint(1, 20), rng.randint(1, 300), rng.randint(1, 4096), 4096])
        kw = {"delay": delay, "gpio": {"name": f"GPIO{rng.randint(0, 3)}"}, "level": rng.choice(["L", "H", "X"])}
        if rng.random() < 0.9:
            kw["period"] = period
        else:
            period = 1.0
        if rng.random() < 0.9:
            kw["count"] = count
        else:
            count = 1
        ev = cl["GpioEvent"](**kw)
        if rng.random() < 0.2:
            ev.to_file("ev.yaml", minimal=rng.random() < 0.5)
            ev = cl["GpioEvent"].from_file("ev.yaml")
            ctx.count("reloaded")
        got = list(ev.get_events())
        ctx.count("events")
        ctx.count("instants", count)
        ctx.count("inexact", Fraction(period).denominator > 2**20 and count > 1)
        ctx.eq(len(got), count, "event-count", f"delay={delay!r} period={period!r} count={count}")
        for k in {0, 1, count - 1, count // 2, rng.randrange(count)}:
            if k >= count:
                continue
            want = Fraction(delay) + k * Fraction(period)
            err = abs(Fraction(float(got[k])) - want)
            ctx.check(err <= TOL + want * Fraction(1, 2**50), "event-time", lambda k=k, err=err: f"event {k} of delay={delay!r} period={period!r} count={count}: {float(got[k])!r}, off by {float(err):.3g} s")
        ctx.check(all(b > a for a, b in zip(got, got[1:])), "event-order", "instants are not increasing")
        ctx.check(list(ev.get_events()) == got, "event-unstable", "second expansion differs")
        evs.append(ev)
        ctx.seen("event", delay, period, count)
    act = cl["GpioActuation"](events=evs)
    ctx.count("actuations")
    ctx.eq({g.name for g in act.get_gpios()}, {e.gpio.name for e in evs}, "actuation-pins", "pins of actuation")
    ctx.eq(len(act.get_gpios()), len({e.gpio.name for e in evs}), "actuation-pins", "number of pins of actuation")
    ctx.sample(f"delay={delay!r} period={period!r} count={count} -> {got[:2]} .. {got[-1]!r}")


NAN, INF = float("nan"), float("inf")


def fam_settings(ctx: Ctx) -> None:
    """Settings are accepted exactly if executable."""
    cl = M.classes()
    rng = ctx.rng
    pins = list(M.fixture_records("gpio").values())

    def judge(name: str, kw: dict, ok: bool, why: str) -> None:
        ctx.count("settings")
        try:
            obj = cl[name](**kw)
        except (ValueError, NotImplementedError) as err:
            ctx.count("rejected")
            ctx.check(not ok, "valid-refused", lambda: f"{name} {why}: {kw} was refused: {str(err)[:300]}")
            return
        ctx.count("accepted")
        ctx.check(ok, "invalid-accepted", lambda: f"{name} {why}: {kw} was accepted")
        ctx.seen("ok", name, repr(sorted(kw.items(), key=str))[:200])
        del obj

    for _ in range(12):
        # events
        base = M.kw_gpio_event(rng)
        judge("GpioEvent", base, True, "base")
        rec = rng.choice(pins)
        ctrl = "gpio" in rec["name"].lower() and rec.get("direction", "IN") in ("IO", "OUT")
        judge("GpioEvent", base | {"gpio": {"name": rec["name"]}}, ctrl, f"pin {rec['name']} {rec.get('direction')}")
        judge("GpioEvent", base | {"gpio": {"id": rec["id"]}}, ctrl, f"pin {rec['name']} by id")
        own = M.kw_gpio(rng)
        nm = rng.choice(["gpio77", "GPIOx", "my_Gpio", "pwr_good", "swd1"])
        dr = rng.choice(["IN", "OUT", "IO", None])
        own["name"] = nm
        own.pop("direction", None)
        if dr:
            own["direction"] = dr
        judge("GpioEvent", base | {"gpio": own}, "gpio" in nm.lower() and dr in ("OUT", "IO"), "own pin")
        d = rng.choice([0, -1, -1e-9, 1e-9, 5, NAN, -INF, "x", None])
        judge("GpioEvent", base | {"delay": d}, isinstance(d, (int, float)) and d > 0, "delay")
        p = rng.choice([0, -1, 9.99e-6, 1e-5, 10, NAN, "x", None])
        judge("GpioEvent", base | {"period": p}, isinstance(p, (int, float)) and p >= 1e-5, "period")
        c = rng.choice([0, -1, 1, 4096, 4097, 2.5, "x", None])
        judge("GpioEvent", base | {"count": c}, c in (1, 4096), "count")
        lv = rng.choice(["L", "H", "X", "low", "", 1, None])
        judge("GpioEvent", base | {"level": lv}, lv in ("L", "H", "X"), "level")
        n = rng.choice([0, 1, 5, 1024, 1025]) if rng.random() < 0.1 else rng.choice([0, 1, 5])
        judge("GpioActuation", {"events": [base] * n}, 1 <= n <= 1024, f"{n} events")
        # tracing
        for name, gen in (("PowerTracing", M.kw_power_tracing), ("GpioTracing", M.kw_gpio_tracing)):
            base = gen(rng)
            judge(name, base, True, "base")
            for key in ("delay", "duration"):
                v = rng.choice([timedelta(seconds=-1), timedelta(microseconds=-1), -1, -0.5, "-PT1S", timedelta(days=-1, hours=23), timedelta(0), 0, 3, 0.5, timedelta(days=3)])
                neg = v == "-PT1S" or (isinstance(v, timedelta) and v < timedelta(0)) or (isinstance(v, (int, float)) and v < 0)
                judge(name, base | {key: v}, not neg, key)
        a, b, pw = (rng.random() < 0.5 for _ in range(3))
        judge("PowerTracing", {"discard_current": a, "discard_voltage": b, "calculate_power": pw}, not (a and b) and not pw, "discard")
        sr = rng.choice([9, 10, 100_000, 100_001, 0, -1])
        judge("PowerTracing", {"samplerate": sr}, 10 <= sr <= 100_000, "samplerate")
        mk = rng.choice([0, 1, 1023, 1024, -1, 0x3FF])
        judge("GpioTracing", {"mask": mk}, 1 <= mk <= 1023, "mask")
        br = rng.choice([2399, 2400, 921_600, 921_601, 0, 115_200])
        judge("GpioTracing", {"uart_baudrate": br}, 2400 <= br <= 921_600, "baudrate")
        n = rng.choice([0, 1, 10, 11])
        judge("GpioTracing", {"gpios": [{"name": f"GPIO{k % 9}"} for k in range(n)]}, 1 <= n <= 10, "pins")


REAL = ["Europe/Berlin", "America/St_Johns", "Australia/Lord_Howe", "Asia/Kathmandu", "America/New_York", "Pacific/Kiritimati", "Pacific/Pago_Pago", "Europe/London", "Europe/Dublin", "Australia/Sydney", "America/Santiago", "Africa/Casablanca", "UTC", "Asia/Kolkata"]


def set_zone(ctx: Ctx) -> str:
    """Switch the local zone of this process, daylight-saving may be defined and may be in effect today."""
    rng = ctx.rng
    if rng.random() < 0.25:
        tz = rng.choice(REAL)
    else:
        off = rng.choice([0, 60, -60, 330, 345, -210, 720, -720, 14 * 60 - 60, rng.randint(-12 * 60, 12 * 60)])

        def fmt(m: int) -> str:  # posix: positive is west
            return f"{'-' if m > 0 else ''}{abs(m) // 60}:{abs(m) % 60:02d}"

        tz = f"STD{fmt(off)}"
        if rng.random() < 0.8:
            shift = rng.choice([60, 60, 60, 30, 120, -60])
            today = time.gmtime().tm_yday
            inside = rng.random() < 0.5
            # changes stay away from today by at least 10 days
            lo, hi = (today - rng.randint(10, 120), today + rng.randint(10, 120)) if inside else (today + rng.randint(10, 60), today + rng.randint(90, 200))
            lo, hi = (lo - 1) % 365 + 1, (hi - 1) % 365 + 1
            if lo == hi:
                hi = hi % 365 + 1
            tz += f"DST{fmt(off + shift)},J{lo}/2,J{hi}/{rng.choice([2, 3, 1])}"
    os.environ["TZ"] = tz
    time.tzset()
    return tz


def libc_instants(naive: datetime) -> set[int]:
    """All epoch-seconds that have this local wall-clock time (either side, if it was skipped)."""
    out = set()
    for isdst in (0, 1, -1):
        t = int(time.mktime((*naive.timetuple()[:6], 0, 0, isdst)))
        out.add(t)
    exact = {t for t in out if time.localtime(t)[:6] == naive.timetuple()[:6]}
    return exact or out


def epoch(dt: datetime) -> Fraction:
    d = dt - datetime(1970, 1, 1, tzinfo=timezone.utc)
    return Fraction(d.days * 86_400 + d.seconds) + Fraction(d.microseconds, 10**6)


def fam_zone(ctx: Ctx) -> None:
    """Local zone, date and start-times."""
    import shepherd_core as sc
    from shepherd_core.data_models.base.timezone import local_iso_date

    cl = M.classes()
    rng = ctx.rng
    old = os.environ.get("TZ")
    try:
        tz = set_zone(ctx)
        ctx.count("zones")
        loc = time.localtime()
        ctx.count("dst_now", loc.tm_isdst > 0)
        ctx.count("dst_defined_not_now", time.daylight and not loc.tm_isdst)
        # -- current
        t0 = time.time()
        now = sc.local_now()
        t1 = time.time()
        ctx.check(now.tzinfo is not None and t0 - 1e-3 <= now.timestamp() <= t1 + 1e-3, "now-differs", f"local_now() is {now} in {tz}")
        ctx.eq(now.utcoffset(), timedelta(seconds=loc.tm_gmtoff), "offset-differs", f"utc-offset of local_now() in {tz}")
        ctx.eq(sc.local_tz().utcoffset(None), timedelta(seconds=loc.tm_gmtoff), "offset-differs", f"utc-offset of local_tz() in {tz}")
        for _ in range(3):
            a = time.strftime("%Y-%m-%d")
            dates = [local_iso_date(), cl["CapeData"](serial_number="x").cal_date]
            b = time.strftime("%Y-%m-%d")
            for got in dates:
                ctx.check(got in (a, b), "date-differs", f"date for records is {got}, local date is {a} in {tz}")
                ctx.count("dates")
        # -- start times of tasks
        for _ in range(12):
            kind = rng.choice(["harvest", "emulation"])
            form = rng.choice(["naive", "naive-str", "aware", "aware-str", "epoch", "epoch-float"])
            how = rng.choice(["far", "far", "near", "past"])
            if how == "far":
                t = int(t0) + rng.randint(2 * 86_400, 10 * 365 * 86_400)
                if rng.random() < 0.4 and len(ch := changes(int(t0), 3 * 366)):
                    t = rng.choice(ch) + rng.randint(-2 * 3600, 2 * 3600)  # around a change
            else:
                t = int(t0) + (1 if how == "near" else -1) * rng.choice([30, 600, 1800, 3 * 3600, 25 * 3600])
            if rng.random() < 0.2:
                t += 0.25
            if form.startswith("naive"):
                naive = datetime(*time.localtime(t)[:6], round((t % 1) * 10**6))
                v = naive
                wants = {Fraction(x) + Fraction(naive.microsecond, 10**6) for x in libc_instants(naive)}
                if rng.random() < 0.15:  # a time that may not exist
                    naive = datetime.fromtimestamp(t) + timedelta(minutes=rng.choice([30, 60]))
                    v, wants = naive, {Fraction(x) + Fraction(naive.microsecond, 10**6) for x in libc_instants(naive)}
                ctx.count("naive_times")
                ctx.count("seasons", abs((datetime.fromtimestamp(t).astimezone().utcoffset() - timedelta(seconds=loc.tm_gmtoff)).total_seconds()) > 0)
            elif form.startswith("aware"):
                v = datetime.fromtimestamp(t, tz=rng.choice([timezone.utc, timezone(timedelta(minutes=rng.randint(-700, 700)))]))
                wants = {Fraction(t)}
                ctx.count("aware_times")
            else:
                v = float(t) if form == "epoch-float" else int(t)
                wants = {Fraction(v)}
                ctx.count("epoch_times")
            if form.endswith("-str"):
                v = v.isoformat(rng.choice([" ", "T"]))
            kw = {"output_path": "o.h5"} if kind == "harvest" else {"input_path": "i.h5", "output_path": "o.h5"}
            past = max(wants) < t0 - 5
            future = min(wants) > time.time() + 15
            try:
                task = cl["HarvestTask" if kind == "harvest" else "EmulationTask"](time_start=v, **kw)
            except ValueError as err:
                ctx.check(not future, "future-refused", lambda: f"{kind} with start {v!r} ({form}) in {tz} was refused: {str(err)[:300]}")
                ctx.count("past")
                continue
            ctx.check(not past, "past-accepted", lambda: f"{kind} with start {v!r} ({form}) in {tz} was accepted, now is {datetime.now()}")
            ctx.count("future")
            got = task.time_start
            ctx.check(got.tzinfo is not None and epoch(got) in wants, "start-differs", lambda: f"start {v!r} ({form}) in {tz} became {got!r}, expected epoch {sorted(map(float, wants))}, got {float(epoch(got)) if got.tzinfo else None}")
            ctx.seen("time", tz, form, kind, t)
        # -- experiment with naive start
        if ctx.index % 2 == 0:
            tgt = rng.choice(sorted(M.testbed_targets()))
            t = int(t0) + rng.randint(86_400, 700 * 86_400)
            naive = datetime(*time.localtime(t)[:6])
            xp = cl["Experiment"](name="xp", time_start=naive if rng.random() < 0.5 else naive.isoformat(), duration=5,
                                  target_configs=[{"target_IDs": [tgt], "energy_env": {"name": "SolarSunny"}, "firmware1": M.kw_firmware(rng, {"name": M.testbed_targets()[tgt]["mcu1"]})}])
            if rng.random() < 0.5:
                xp.to_file("xp.yaml")
                xp = cl["Experiment"].from_file("xp.yaml")
            obt = cl["TestbedTasks"].from_xp(xp).observer_tasks[0]
            ctx.check(epoch(obt.emulation.time_start) in libc_instants(naive), "start-differs", f"experiment with start {naive} in {tz} emulates at {obt.emulation.time_start!r}")
            prep = obt.time_prep if obt.time_prep.tzinfo else obt.time_prep.astimezone()
            ctx.check(epoch(prep) < epoch(obt.emulation.time_start), "prep-late", f"preparation {obt.time_prep!r} isn't before start {obt.emulation.time_start!r}")
            ctx.count("experiments")
        ctx.sample(f"{tz}: {now.isoformat()}")
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()


def changes(t0: int, days: int) -> list[int]:
    """Instants when the utc-offset changes (by hour)."""
    out = []
    last = time.localtime(t0).tm_gmtoff
    for d in range(days):
        cur = time.localtime(t0 + d * 86_400).tm_gmtoff
        if cur != last:
            out.append(t0 + d * 86_400 - 43_200)
            lo, hi = t0 + (d - 1) * 86_400, t0 + d * 86_400
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if time.localtime(mid).tm_gmtoff == last:
                    lo = mid
                else:
                    hi = mid
            out[-1] = hi
            last = cur
    return out


FAMILIES = {"events": Family(fam_events, 150, 2500), "settings": Family(fam_settings, 80, 1500), "zone": Family(fam_zone, 250, 3000)}
