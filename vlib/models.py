"""Workload generators for the data models (C18-C21, C27, C28)."""
from __future__ import annotations

import base64
import glob
import hashlib
import random
from datetime import date
from datetime import datetime
from datetime import timedelta
from datetime import timezone
from pathlib import Path
from uuid import UUID
from uuid import uuid4

from vlib.core import SRC_CORE
from vlib.vsrc import rand_vsrc

TRICKY = [
    "yes", "null", "~", "1.0", "0x1F", "- a", "a: b", "#x", "'", "it's", "{}", "[1, 2]", "!!python/none", "2020-01-01", "2020-01-01 12:00:00",
    "%TAG", "@x", "`x`", "&a", "*a", "|", ">", "1e3", "0o17", "1_000", "12:30:45", ".inf", ".nan", "=", "<<", "true", "? x", "a #b", "\\n", "'a'", "NULL", "---", "...",
]
BAD_NAME = set('<>:;,?"*|/\\')
UNI = ["ä", "ß", "é", "漢", "😀", "\u00a0x", "x\u2028y", "x\u0085y", "\u200b", "µ"]


def safe_str(rng: random.Random, n: int = 60) -> str:
    """Printable ascii."""
    if rng.random() < 0.4:
        return rng.choice(TRICKY)
    s = "".join(chr(rng.randint(32, 126)) for _ in range(rng.randint(1, n))).strip()
    return s or "x"


def name_str(rng: random.Random, n: int = 32) -> str:
    if rng.random() < 0.15:
        c = [t for t in TRICKY if not BAD_NAME & set(t)]
        return rng.choice(c)
    pool = [chr(c) for c in range(33, 127) if chr(c) not in BAD_NAME]
    if rng.random() < 0.2:
        pool = pool + [u for u in UNI if len(u) == 1] * 5
    s = "".join(rng.choice(pool) for _ in range(rng.randint(1, n - 4)))
    return ("n" + s + "q").strip()


def free_str(rng: random.Random, n: int = 80) -> str:
    r = rng.random()
    if r < 0.3:
        return rng.choice(TRICKY)
    if r < 0.6:
        return safe_str(rng, n)
    out = "".join(rng.choice([chr(rng.randint(32, 126)), rng.choice(UNI), "\n", "\t", chr(rng.randint(0xA1, 0xD7FF)), chr(rng.randint(0x10000, 0x1F000))]) for _ in range(rng.randint(1, n)))
    return ("a" + out[:400] + "z")


def pos_float(rng: random.Random, lo: float = 1e-12, hi: float = 1e9) -> float:
    import math

    v = rng.choice([10 ** rng.uniform(math.log10(lo), math.log10(hi)), float(rng.randint(1, 1000)), 0.1, 1e-6, 1 / 3, 1e22, 5e-324, 1.7976931348623157e308])
    return v if lo <= v <= hi else min(max(v, lo), hi)


def rng_float(rng: random.Random, lo: float, hi: float) -> float:
    return rng.choice([lo, hi, rng.uniform(lo, hi), float(round(rng.uniform(lo, hi)))])


def rand_tz(rng: random.Random):
    from zoneinfo import ZoneInfo

    m = rng.randrange(5)
    if m == 0:
        return timezone.utc
    if m == 1:
        return timezone(timedelta(minutes=rng.randint(-14 * 60, 14 * 60)))
    if m == 2:
        return timezone(timedelta(minutes=15 * rng.randint(-48, 56)), rng.choice(["CEST", "CET", "XYZ", "UTC"]))
    if m == 3:
        return ZoneInfo(rng.choice(["Europe/Berlin", "America/St_Johns", "Asia/Kathmandu", "Australia/Lord_Howe", "UTC"]))
    return timezone(timedelta(hours=rng.randint(-12, 12)))


def rand_dt(rng: random.Random, *, future: bool = False, aware: bool | None = None) -> datetime:
    y = rng.randint(2030, 2090) if future else rng.choice([rng.randint(1971, 2037), rng.randint(1000, 9998), 2023])
    d = datetime(y, rng.randint(1, 12), rng.randint(1, 28), rng.randint(4, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, 0, rng.randrange(10**6), 1, 999_999, 500_000, rng.randrange(1000) * 1000]))
    if rng.random() < 0.1:
        d = d.replace(hour=0, minute=0, second=0, microsecond=0)
    if aware is None:
        aware = rng.random() < 0.6
    if not aware:
        return d
    tz = rand_tz(rng)
    while d.year < 1972 and hasattr(tz, "key"):  # historic local mean times have offsets with seconds
        tz = rand_tz(rng)
    return d.replace(tzinfo=tz)


def rand_td(rng: random.Random) -> timedelta:
    """Non-negative time span, up to ~30 years."""
    return rng.choice([
        timedelta(0), timedelta(seconds=rng.randint(0, 10**6)), timedelta(microseconds=rng.randrange(10**6)), timedelta(microseconds=1),
        timedelta(microseconds=rng.randrange(10**12)), timedelta(microseconds=rng.randrange(10**15)), timedelta(milliseconds=rng.randrange(10**7)),
        timedelta(days=rng.randint(0, 1000), microseconds=rng.randrange(10**6)), timedelta(seconds=rng.randint(0, 100), microseconds=500_000),
    ])


def rand_path(rng: random.Random) -> Path:
    parts = ["".join(rng.choice("abcXYZ019 _-.,;'#ä$%&()+=@[]{}~") for _ in range(rng.randint(1, 12))).strip(" .") or "p" for _ in range(rng.randint(1, 5))]
    p = "/".join(parts)
    return Path(rng.choice(["/", "", "./", "../"]) + p)


def rand_id(rng: random.Random):
    return rng.choice([uuid4_r(rng), rng.randrange(10**4, 10**9), 2**127 + rng.randrange(2**126), 0x7FFFFFFF + rng.randrange(2**64)])


def uuid4_r(rng: random.Random) -> UUID:
    return UUID(int=rng.getrandbits(128), version=4)


def maybe(rng: random.Random, d: dict, key: str, fn, p: float = 0.5) -> None:
    if rng.random() < p:
        d[key] = fn()


def content_meta(rng: random.Random) -> dict:
    d: dict = {"name": "vt_" + name_str(rng, 26)}
    maybe(rng, d, "id", lambda: rand_id(rng))
    maybe(rng, d, "description", lambda: safe_str(rng))
    maybe(rng, d, "comment", lambda: rng.choice([None, safe_str(rng)]))
    maybe(rng, d, "created", lambda: rand_dt(rng))
    maybe(rng, d, "updated_last", lambda: rand_dt(rng))
    maybe(rng, d, "owner", lambda: name_str(rng))
    maybe(rng, d, "group", lambda: name_str(rng))
    if "description" in d:
        maybe(rng, d, "visible2group", lambda: rng.random() < 0.5)
        maybe(rng, d, "visible2all", lambda: rng.random() < 0.5)
    return d


def fw_data(content: bytes, level: int = 3) -> str:
    import zstandard as zstd

    return base64.b64encode(zstd.ZstdCompressor(level=level).compress(content)).decode("ascii")


# -- kwargs for each model ----------------------------------------------------

def kw_pair(rng):
    d = {"gain": pos_float(rng)}
    maybe(rng, d, "offset", lambda: rng.choice([0, -0.0, rng.uniform(-10, 10), -1e-9]))
    maybe(rng, d, "unit", lambda: rng.choice(["V", "A", "s", free_str(rng, 8)]))
    return d


def kw_fields(rng, names, fn, p=0.6):
    return {n: fn(rng) for n in names if rng.random() < p}


def kw_cal_hrv(rng):
    return kw_fields(rng, ["dac_V_Hrv", "dac_V_Sim", "adc_V_Sense", "adc_C_Hrv"], kw_pair)


def kw_cal_emu(rng):
    return kw_fields(rng, ["dac_V_A", "dac_V_B", "adc_C_A", "adc_C_B"], kw_pair)


def kw_cal_series(rng):
    return kw_fields(rng, ["voltage", "current", "time"], kw_pair)


def short(rng, n):
    return (safe_str(rng, n)[:n].strip()) or "x"


def kw_cape_data(rng):
    d = {"serial_number": short(rng, 12)}
    maybe(rng, d, "header", lambda: bytes(rng.randrange(256) for _ in range(rng.randint(0, 4))))
    for f, n in (("eeprom_revision", 2), ("board_name", 32), ("version", 4), ("manufacturer", 16), ("part_number", 16), ("cal_date", 12)):
        maybe(rng, d, f, lambda n=n: short(rng, n))
    return d


def kw_cal_cape(rng):
    d = {}
    maybe(rng, d, "cape", lambda: kw_cape_data(rng))
    maybe(rng, d, "host", lambda: free_str(rng, 20))
    maybe(rng, d, "harvester", lambda: kw_cal_hrv(rng))
    maybe(rng, d, "emulator", lambda: kw_cal_emu(rng))
    return d


def kw_meas(rng):
    return [{"shepherd_raw": pos_float(rng, 1e-3, 1e6), "reference_si": rng.uniform(-5, 5)} for _ in range(rng.randint(2, 5))]


def kw_cal_meas_cape(rng):
    d = {}
    maybe(rng, d, "cape", lambda: kw_cape_data(rng))
    maybe(rng, d, "host", lambda: free_str(rng, 20))
    maybe(rng, d, "harvester", lambda: {n: kw_meas(rng) for n in ("dac_V_Hrv", "dac_V_Sim", "adc_V_Sense", "adc_C_Hrv")})
    maybe(rng, d, "emulator", lambda: {n: kw_meas(rng) for n in ("dac_V_A", "dac_V_B", "adc_C_A", "adc_C_B")})
    return d


def kw_eenv(rng, valid: bool | None = None):
    d = content_meta(rng)
    d |= {"data_path": rand_path(rng), "data_type": rng.choice(["ivsample", "ivcurve", "isc_voc"]), "duration": pos_float(rng, 1e-6, 1e9), "energy_Ws": pos_float(rng, 1e-12, 1e9)}
    maybe(rng, d, "data_local", lambda: rng.random() < 0.5)
    maybe(rng, d, "valid", lambda: rng.random() < 0.5)
    for f in ("light_source", "weather_conditions", "location"):
        maybe(rng, d, f, lambda: free_str(rng))
    maybe(rng, d, "indoor", lambda: rng.choice([True, False, None]))
    if valid is not None:
        d["valid"] = valid
    return d


def kw_firmware(rng, mcu=None):
    d = content_meta(rng)
    d["mcu"] = mcu or rng.choice([{"name": "nrf52"}, {"name": "MSP430FR"}, {"id": 1001}, kw_mcu(rng)])
    content = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 50, 3000, 3000, 100_000] if rng.random() < 0.2 else [0, 1, 50, 3000])))
    m = rng.randrange(4)
    if m < 2:
        d["data"] = fw_data(content, rng.choice([1, 3, 19]))
        d["data_type"] = rng.choice(["hex", "elf"])
        maybe(rng, d, "data_hash", lambda: hashlib.sha3_224(content).hexdigest())
    else:
        p = rand_path(rng)
        d["data"] = p if m == 2 else p.as_posix() + "/fw.elf"
        d["data_type"] = rng.choice(["path_hex", "path_elf"])
        maybe(rng, d, "data_hash", lambda: hashlib.sha3_224(content).hexdigest())
    maybe(rng, d, "data_local", lambda: rng.random() < 0.5)
    return d


def kw_mcu(rng):
    d = {"id": rng.randrange(2**100), "name": "vt_" + name_str(rng, 20), "description": safe_str(rng), "platform": name_str(rng), "core": name_str(rng),
         "prog_protocol": rng.choice(["SWD", "SBW", "JTAG", "UART"]), "fw_name_default": free_str(rng, 20)}
    maybe(rng, d, "comment", lambda: safe_str(rng))
    maybe(rng, d, "prog_voltage", lambda: rng_float(rng, 1, 5))
    maybe(rng, d, "prog_datarate", lambda: rng.randint(1, 1_000_000))
    return d


def kw_gpio(rng):
    d = {"id": rng.randrange(2**100), "name": "vt_" + name_str(rng, 20)}
    maybe(rng, d, "description", lambda: safe_str(rng))
    maybe(rng, d, "comment", lambda: safe_str(rng))
    maybe(rng, d, "direction", lambda: rng.choice(["IN", "OUT", "IO"]))
    maybe(rng, d, "dir_switch", lambda: rng.choice([None, short(rng, 32)]))
    m = rng.randrange(3)
    if m != 0:
        d |= {"reg_pru": short(rng, 10), "pin_pru": short(rng, 10)}
    if m != 1:
        d |= {"reg_sys": rng.randint(0, 10**6), "pin_sys": short(rng, 10)}
    return d


def kw_cape(rng):
    d = {"id": rng.randrange(2**100), "name": "vt_" + name_str(rng, 20), "version": name_str(rng), "description": safe_str(rng)}
    maybe(rng, d, "comment", lambda: safe_str(rng))
    maybe(rng, d, "active", lambda: rng.random() < 0.5)
    for f in ("created", "calibrated"):
        maybe(rng, d, f, lambda: rng.choice([rand_dt(rng), date(rng.randint(1000, 9999), rng.randint(1, 12), rng.randint(1, 28))]))
    return d


def kw_target(rng, tid=None):
    d = {"id": rng.randrange(10**9, 2**100) if tid is None else tid, "name": "vt_" + name_str(rng, 20), "version": name_str(rng), "description": safe_str(rng),
         "mcu1": rng.choice(["nRF52", {"name": "MSP430FR"}, kw_mcu(rng)])}
    maybe(rng, d, "mcu2", lambda: rng.choice([None, "MSP430FR", {"id": 1001}, kw_mcu(rng)]))
    maybe(rng, d, "testbed_id", lambda: rng.randrange(2**16))
    maybe(rng, d, "active", lambda: rng.random() < 0.5)
    maybe(rng, d, "created", lambda: rand_dt(rng))
    maybe(rng, d, "comment", lambda: safe_str(rng))
    return d


def kw_observer(rng, i=0):
    d = {"id": i, "name": f"vt_{i}_" + name_str(rng, 16), "description": safe_str(rng),
         "ip": rng.choice([f"10.{rng.randrange(256)}.{i % 256}.{i // 256}", f"fe80::{i:x}:{rng.randrange(65536):x}"]),
         "mac": ":".join(f"{b:02X}" for b in (2, i % 256, i // 256, *(rng.randrange(256) for _ in range(3)))),
         "room": name_str(rng), "eth_port": f"{i}" + name_str(rng, 12)}
    maybe(rng, d, "latitude", lambda: rng_float(rng, -90, 90))
    maybe(rng, d, "longitude", lambda: rng_float(rng, -180, 180))
    maybe(rng, d, "active", lambda: rng.random() < 0.5)
    maybe(rng, d, "cape", lambda: kw_cape(rng), 0.8)
    if "cape" in d:
        maybe(rng, d, "target_a", lambda: kw_target(rng))
        maybe(rng, d, "target_b", lambda: kw_target(rng))
    maybe(rng, d, "created", lambda: rand_dt(rng))
    maybe(rng, d, "alive_last", lambda: rand_dt(rng))
    maybe(rng, d, "comment", lambda: safe_str(rng))
    return d


def kw_testbed(rng):
    d = {"id": rng.randrange(2**100), "name": "vt_" + name_str(rng, 20), "description": safe_str(rng),
         "observers": [kw_observer(rng, 20_000 + k) for k in range(rng.randint(1, 4))], "data_on_server": rand_path(rng), "data_on_observer": rand_path(rng)}
    maybe(rng, d, "url", lambda: rng.choice(["https://ex.org", "http://10.0.0.1:8080/tb?x=1#y", "https://user:pw@host.example:8000/testbed/"]))
    maybe(rng, d, "prep_duration", lambda: rand_td(rng))
    maybe(rng, d, "comment", lambda: safe_str(rng))
    return d


def kw_vhrv(rng, emu_ok: bool = True):
    d = content_meta(rng)
    d["algorithm"] = rng.choice(["cv", "mppt_voc", "mppt_po", "mppt_opt"]) if emu_ok else rng.choice(["isc_voc", "ivcurve", "cv", "mppt_voc", "mppt_po", "mppt_opt"])
    lo, hi = sorted((rng_float(rng, 0, 5000), rng_float(rng, 0, 5000)))
    maybe(rng, d, "samples_n", lambda: rng.randint(8, 2000))
    if hi - lo < 2 * d.get("samples_n", 8):
        lo, hi = 0, 5000
    if rng.random() < 0.6:
        d |= {"voltage_min_mV": lo, "voltage_max_mV": hi, "voltage_mV": rng_float(rng, lo, hi)}
    maybe(rng, d, "current_limit_uA", lambda: rng_float(rng, 1, 50_000))
    maybe(rng, d, "voltage_step_mV", lambda: rng_float(rng, 1, 1e5))
    maybe(rng, d, "setpoint_n", lambda: rng_float(rng, 0, 1))
    maybe(rng, d, "interval_ms", lambda: rng_float(rng, 0.01, 1e6))
    maybe(rng, d, "duration_ms", lambda: rng_float(rng, 0.01, 1e6))
    maybe(rng, d, "rising", lambda: rng.random() < 0.5)
    maybe(rng, d, "enable_linear_extrapolation", lambda: rng.random() < 0.5)
    maybe(rng, d, "wait_cycles", lambda: rng.randint(0, 100))
    return d


def kw_vsrc(rng):
    d = rand_vsrc(rng, dynamic=rng.random() < 0.5)
    d |= content_meta(rng)
    m = rng.randrange(4)
    if m == 1:
        d["inherit_from"] = rng.choice(["BQ25570", "diode+capacitor", "direct", "BQ25504-Schmitt"])
    if m == 2:
        d["harvester"] = kw_vhrv(rng)
    if m == 3:
        d["harvester"] = {"name": rng.choice(["mppt_bq_solar", "mppt_voc", "cv20"])}
    return d


def kw_hrv_pru(rng):
    return {n: rng.choice([0, 2**32 - 1, rng.getrandbits(32)]) for n in ("algorithm", "hrv_mode", "window_size", "voltage_uV", "voltage_min_uV", "voltage_max_uV", "voltage_step_uV", "current_limit_nA", "setpoint_n8", "interval_n", "duration_n", "wait_cycles_n")}


def kw_power_tracing(rng):
    d = {}
    maybe(rng, d, "intermediate_voltage", lambda: rng.random() < 0.5)
    maybe(rng, d, "delay", lambda: rng.choice([rand_td(rng), rng.randint(0, 100), 0.25]))
    maybe(rng, d, "duration", lambda: rng.choice([rand_td(rng), None]))
    maybe(rng, d, "samplerate", lambda: rng.randint(10, 100_000))
    r = rng.randrange(3)
    if r:
        d["discard_current" if r == 1 else "discard_voltage"] = True
    return d


def kw_gpio_tracing(rng):
    d = {}
    maybe(rng, d, "mask", lambda: rng.randint(1, 1023))
    maybe(rng, d, "gpios", lambda: [rng.choice([{"name": f"GPIO{rng.randint(0, 8)}"}, {"id": 1000 + rng.randint(0, 8)}, kw_gpio(rng)]) for _ in range(rng.randint(1, 10))])
    maybe(rng, d, "delay", lambda: rand_td(rng))
    maybe(rng, d, "duration", lambda: rng.choice([rand_td(rng), None]))
    maybe(rng, d, "uart_decode", lambda: rng.random() < 0.5)
    maybe(rng, d, "uart_pin", lambda: {"name": f"GPIO{rng.randint(0, 8)}"})
    maybe(rng, d, "uart_baudrate", lambda: rng.randint(2_400, 921_600))
    return d


def kw_gpio_event(rng):
    d = {"delay": pos_float(rng, 1e-6, 1e6), "gpio": {"name": f"GPIO{rng.randint(0, 3)}"}, "level": rng.choice(["L", "H", "X"])}
    maybe(rng, d, "period", lambda: pos_float(rng, 1e-5, 1e4))
    maybe(rng, d, "count", lambda: rng.randint(1, 4096))
    return d


def kw_gpio_actuation(rng):
    return {"events": [kw_gpio_event(rng) for _ in range(rng.randint(1, 6))]}


def kw_sys_logging(rng):
    return {n: rng.random() < 0.5 for n in ("dmesg", "ptp", "shepherd") if rng.random() < 0.6}


def kw_prog_task(rng):
    d = {"firmware_file": rand_path(rng).as_posix() + "/fw" + rng.choice([".hex", ".ihex", ".HEX"]), "mcu_type": safe_str(rng), "protocol": rng.choice(["SWD", "SBW", "JTAG", "UART"])}
    maybe(rng, d, "target_port", lambda: rng.choice("AB"))
    maybe(rng, d, "mcu_port", lambda: rng.randint(1, 2))
    maybe(rng, d, "voltage", lambda: rng.uniform(1, 4.99))
    maybe(rng, d, "datarate", lambda: rng.randint(1, 1_000_000))
    maybe(rng, d, "simulate", lambda: rng.random() < 0.5)
    maybe(rng, d, "verbose", lambda: rng.randint(0, 4))
    return d


def kw_fw_mod(rng):
    fw = kw_firmware(rng, {"name": "nrf52"})
    d = {"data": fw["data"], "data_type": fw["data_type"], "firmware_file": rand_path(rng)}
    maybe(rng, d, "custom_id", lambda: rng.choice([None, rng.randrange(2**16)]))
    maybe(rng, d, "verbose", lambda: rng.randint(0, 4))
    return d


def task_time(rng):
    return rng.choice([rand_dt(rng, future=True), rand_dt(rng, future=True).isoformat(), rng.uniform(2e9, 4e9), rng.randint(2 * 10**9, 4 * 10**9)])


def kw_harvest_task(rng):
    d = {"output_path": rand_path(rng)}
    maybe(rng, d, "force_overwrite", lambda: rng.random() < 0.5)
    maybe(rng, d, "output_compression", lambda: rng.choice(["lzf", "1", None]))
    maybe(rng, d, "time_start", lambda: task_time(rng))
    maybe(rng, d, "duration", lambda: rng.choice([None, rand_td(rng), rng.uniform(0, 1e5)]))
    maybe(rng, d, "use_cal_default", lambda: rng.random() < 0.5)
    maybe(rng, d, "virtual_harvester", lambda: rng.choice([{"name": "ivcurve"}, {"name": "mppt_voc"}, kw_vhrv(rng, emu_ok=False)]))
    maybe(rng, d, "power_tracing", lambda: kw_power_tracing(rng))
    maybe(rng, d, "sys_logging", lambda: rng.choice([None, kw_sys_logging(rng)]))
    maybe(rng, d, "verbose", lambda: rng.randint(0, 4))
    return d


def kw_emu_task(rng):
    d = kw_harvest_task(rng)
    d["input_path"] = rand_path(rng)
    d.pop("virtual_harvester", None)
    if rng.random() < 0.3:
        d["output_path"] = None
    maybe(rng, d, "enable_io", lambda: rng.random() < 0.5)
    maybe(rng, d, "io_port", lambda: rng.choice("AB"))
    maybe(rng, d, "pwr_port", lambda: rng.choice("AB"))
    maybe(rng, d, "voltage_aux", lambda: rng.choice(["main", "buffer", rng_float(rng, 0, 4.5), 2]))
    maybe(rng, d, "virtual_source", lambda: rng.choice([{"name": "BQ25570"}, kw_vsrc(rng)]))
    maybe(rng, d, "gpio_tracing", lambda: rng.choice([None, kw_gpio_tracing(rng)]))
    if rng.random() < 0.2:
        d["power_tracing"] = None
    return d


def kw_obs_tasks(rng, name=None):
    d = {"observer": name or name_str(rng), "owner_id": rng.choice([None, rng.randrange(2**128)]), "time_prep": rand_dt(rng), "root_path": rand_path(rng), "abort_on_error": rng.random() < 0.5}
    maybe(rng, d, "fw1_mod", lambda: kw_fw_mod(rng))
    maybe(rng, d, "fw2_mod", lambda: kw_fw_mod(rng))
    maybe(rng, d, "fw1_prog", lambda: kw_prog_task(rng))
    maybe(rng, d, "fw2_prog", lambda: kw_prog_task(rng))
    maybe(rng, d, "emulation", lambda: kw_emu_task(rng))
    return d


def kw_tb_tasks(rng):
    d = {"name": name_str(rng), "observer_tasks": [kw_obs_tasks(rng) for _ in range(rng.randint(1, 4))], "owner_id": rng.choice([None, rng.randrange(2**128)])}
    maybe(rng, d, "email_results", lambda: rng.random() < 0.5)
    return d


def kw_python_inv(rng):
    return {n: rng.choice([None, "", "1.2.3", short(rng, 12)]) for n in ("h5py", "numpy", "pydantic", "python", "shepherd_core", "shepherd_sheep", "yaml", "zstandard") if rng.random() < 0.7}


def kw_system_inv(rng):
    d = {"uptime": rng.randint(1, 10**7), "timestamp": rand_dt(rng), **{n: rng.choice(["", free_str(rng, 20)]) for n in ("system", "release", "version", "machine", "processor", "hostname")}}
    maybe(rng, d, "ptp", lambda: rng.choice([None, "", free_str(rng, 40)]))
    maybe(rng, d, "interfaces", lambda: {f"eth{k}": ["02:00:00:00:00:01", "10.0.0.1"] for k in range(rng.randint(0, 3))})
    maybe(rng, d, "fs_root", lambda: [free_str(rng, 20) for _ in range(rng.randint(0, 3))], 0.9)
    maybe(rng, d, "beagle", lambda: [free_str(rng, 20) for _ in range(rng.randint(0, 3))], 0.9)
    d.setdefault("fs_root", [])
    d.setdefault("beagle", [])
    return d


def kw_target_inv(rng):
    d = {}
    maybe(rng, d, "cape", lambda: rng.choice([None, "", free_str(rng, 10)]))
    maybe(rng, d, "targets", lambda: [free_str(rng, 10) for _ in range(rng.randint(0, 3))])
    return d


def kw_inventory(rng):
    return kw_python_inv(rng) | kw_system_inv(rng) | kw_target_inv(rng) | {"created": rand_dt(rng)}


def kw_inventory_list(rng):
    return {"elements": [kw_inventory(rng) for _ in range(rng.randint(1, 3))]}


# -- testbed knowledge, read independently of the library ----------------------

def fixture_records(model: str) -> dict:
    """name -> complete record (inheritance resolved here, independently)."""
    import yaml

    raw: dict = {}
    for f in sorted(glob.glob(str(SRC_CORE / "data_models" / "**" / "*.yaml"), recursive=True)):
        for e in yaml.safe_load(open(f)):
            if isinstance(e, dict) and e.get("datatype", "").lower() == model.lower() and "name" in e["parameters"]:
                raw[str(e["parameters"]["name"]).lower()] = e["parameters"]

    def res(n: str, depth: int = 0) -> dict:
        p = dict(raw[n.lower()])
        base = p.pop("inherit_from", None)
        if base is None or depth > 50:
            return p
        return {**res(base, depth + 1), **p}

    return {n: res(n) for n in raw}


def testbed_targets() -> dict:
    """target-id -> facts, for every target that can be used for an experiment."""
    tb = next(iter(fixture_records("testbed").values()))
    obs = fixture_records("observer")
    capes = fixture_records("cape")
    tgts = fixture_records("target")
    out = {}
    for o in tb["observers"]:
        rec = obs[o["name"].lower()]
        if not rec.get("active", True) or not rec.get("cape"):
            continue
        if not capes[rec["cape"]["name"].lower()].get("active", True):
            continue
        for port in "ab":
            t = rec.get(f"target_{port}")
            if not t:
                continue
            t = tgts[t["name"].lower()]
            if not t.get("active", True):
                continue
            out[t["id"]] = {
                "observer": rec["name"], "port": port.upper(), "testbed_id": t.get("testbed_id", t["id"] % 2**16),
                "mcu1": _mcu(t.get("mcu1")), "mcu2": _mcu(t.get("mcu2")), "name": t["name"],
            }
    return out


def _mcu(m):
    if m is None:
        return None
    return (m if isinstance(m, str) else m["name"]).lower()


ALL = {
    "CalibrationPair": kw_pair, "CalibrationHarvester": kw_cal_hrv, "CalibrationEmulator": kw_cal_emu, "CalibrationSeries": kw_cal_series,
    "CapeData": kw_cape_data, "CalibrationCape": kw_cal_cape, "CalMeasurementCape": kw_cal_meas_cape,
    "EnergyEnvironment": kw_eenv, "Firmware": kw_firmware, "VirtualHarvesterConfig": lambda r: kw_vhrv(r, emu_ok=False), "VirtualSourceConfig": kw_vsrc, "HarvesterPRUConfig": kw_hrv_pru,
    "MCU": kw_mcu, "GPIO": kw_gpio, "Cape": kw_cape, "Target": kw_target, "Observer": lambda r: kw_observer(r, r.randrange(10**4, 6 * 10**4)), "Testbed": kw_testbed,
    "PowerTracing": kw_power_tracing, "GpioTracing": kw_gpio_tracing, "GpioEvent": kw_gpio_event, "GpioActuation": kw_gpio_actuation, "SystemLogging": kw_sys_logging,
    "ProgrammingTask": kw_prog_task, "FirmwareModTask": kw_fw_mod, "HarvestTask": kw_harvest_task, "EmulationTask": kw_emu_task, "ObserverTasks": kw_obs_tasks, "TestbedTasks": kw_tb_tasks,
    "PythonInventory": kw_python_inv, "SystemInventory": kw_system_inv, "TargetInventory": kw_target_inv, "Inventory": kw_inventory, "InventoryList": kw_inventory_list,
}


def classes() -> dict:
    from shepherd_core import data_models as dm
    from shepherd_core import inventory as inv
    from shepherd_core.data_models import task
    from shepherd_core.data_models import testbed
    from shepherd_core.data_models.base import cal_measurement as cm
    from shepherd_core.data_models.base import calibration as ca
    from shepherd_core.data_models.content import virtual_harvester as vh
    from shepherd_core.data_models.content import virtual_source as vs
    from shepherd_core.data_models import experiment as xp

    out = {}
    for mod in (dm, xp, task, testbed, ca, cm, vh, vs, inv):
        for n in (*ALL, "TargetConfig", "Experiment", "ConverterPRUConfig"):
            if n not in out and hasattr(mod, n):
                out[n] = getattr(mod, n)
    return out


def kw_target_config(rng, tids=None, facts=None, used=None):
    facts = facts or testbed_targets()
    if tids is None:
        per_obs: dict = {}
        for t, f in facts.items():
            per_obs.setdefault(f["observer"], []).append(t)
        obs = rng.sample(sorted(per_obs), rng.randint(1, min(4, len(per_obs))))
        tids = [rng.choice(per_obs[o]) for o in obs]
    d = {"target_IDs": list(tids), "energy_env": rng.choice([{"name": "SolarSunny"}, {"id": 1001}, kw_eenv(rng, valid=True)])}
    mcu1 = {facts[t]["mcu1"] for t in tids}
    mcu2 = {facts[t]["mcu2"] for t in tids}
    assert len(mcu1) == 1, "mixed targets"
    d["firmware1"] = kw_firmware(rng, {"name": mcu1.pop()})
    if len(mcu2) == 1 and (m2 := mcu2.pop()) is not None:
        maybe(rng, d, "firmware2", lambda: kw_firmware(rng, {"name": m2}))
    if rng.random() < 0.5:
        used = set() if used is None else used
        ids = []
        while len(ids) < len(tids) + rng.randint(0, 2):
            c = rng.choice([rng.randrange(2**16), 65535 - len(used), 5000 + len(used)])
            if c not in used and c not in {f["testbed_id"] for f in facts.values()}:
                used.add(c)
                ids.append(c)
        d["custom_IDs"] = ids
    maybe(rng, d, "virtual_source", lambda: rng.choice([{"name": "BQ25570"}, {"name": "diode+capacitor"}, kw_vsrc(rng)]), 0.6)
    maybe(rng, d, "target_delays", lambda: [rng.randint(0, 1000) for _ in tids], 0.2)
    maybe(rng, d, "power_tracing", lambda: rng.choice([None, kw_power_tracing(rng)]))
    maybe(rng, d, "gpio_tracing", lambda: rng.choice([None, kw_gpio_tracing(rng)]))
    return d


def kw_experiment(rng, facts=None):
    facts = facts or testbed_targets()
    per_obs: dict = {}
    for t, f in facts.items():
        per_obs.setdefault(f["observer"], []).append(t)
    obs = rng.sample(sorted(per_obs), rng.randint(1, len(per_obs)))
    tids = [rng.choice(per_obs[o]) for o in obs]
    groups = []
    while tids:
        n = rng.randint(1, max(1, min(len(tids), 5)))
        # members of one config need the same microcontrollers
        head = facts[tids[0]]
        grp = [t for t in tids if (facts[t]["mcu1"], facts[t]["mcu2"]) == (head["mcu1"], head["mcu2"])][:n]
        tids = [t for t in tids if t not in grp]
        groups.append(grp)
    used: set = set()
    d = {"name": name_str(rng), "target_configs": [kw_target_config(rng, g, facts, used) for g in groups]}
    maybe(rng, d, "id", lambda: rand_id(rng))
    maybe(rng, d, "description", lambda: safe_str(rng))
    maybe(rng, d, "comment", lambda: safe_str(rng))
    maybe(rng, d, "created", lambda: rand_dt(rng))
    maybe(rng, d, "owner_id", lambda: rng.choice([None, rng.randrange(2**128)]))
    maybe(rng, d, "email_results", lambda: rng.random() < 0.5)
    maybe(rng, d, "sys_logging", lambda: kw_sys_logging(rng))
    maybe(rng, d, "time_start", lambda: rng.choice([rand_dt(rng, future=True), rand_dt(rng, future=True).isoformat(), None]), 0.7)
    maybe(rng, d, "duration", lambda: rng.choice([rand_td(rng), rng.randint(0, 10**6), rng.uniform(0, 1e5), None]), 0.7)
    maybe(rng, d, "abort_on_error", lambda: rng.random() < 0.5)
    return d


ALL["TargetConfig"] = kw_target_config
ALL["Experiment"] = kw_experiment
