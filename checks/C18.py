"""C18 - every data model survives export and import unchanged and is immutable.

Deciding step: a monitor drives the real to_file/from_file/model_dump of every model type and compares
the reloaded object field by field with the original (and with the values that went in).
"""
from __future__ import annotations

import copy
from datetime import date
from datetime import datetime
from datetime import timedelta
from pathlib import Path

import yaml

from vlib import models as M
from vlib.core import Ctx
from vlib.core import Family

PROPERTY = "C18"
TECHNIQUE = "runtime monitoring: offline comparison of reloaded objects, content hashes and stored YAML against the originals for generated instances of every model type"
LEVEL_NOTE = "real models of all kinds are built from generated content, exported, reloaded and attacked (assignment, unknown fields, other type, damaged file)"
RULE = "case = one generated instance of one model type through every export path; non-trivial: instance with optional content, nested models, sub-second spans, zone-aware times, paths, bytes or YAML-like strings"
REQUIRED = {
    "instances": 1_200, "file_roundtrips": 2_400, "hash_compares": 2_400, "assignments_rejected": 6_000, "unknown_rejected": 2_000, "wrong_type_rejected": 1_200,
    "subsecond_spans": 100, "aware_times": 200, "paths": 500, "damaged_files": 400, "bad_values_rejected": 300, "given_values_checked": 5_000, "second_generation": 1_000,
}

AUTO = {"id", "created", "updated_last", "cal_date"}


def diff(a, b, path: str = "") -> list:
    """Differing leaves of two dumps; types have to fit too (except list/tuple, int/float)."""
    if isinstance(a, dict) and isinstance(b, dict):
        out = [f"{path}.{k}: only on one side" for k in a.keys() ^ b.keys()]
        for k in a.keys() & b.keys():
            out += diff(a[k], b[k], f"{path}.{k}")
        return out
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return [f"{path}: length {len(a)} vs {len(b)}"]
        return [d for k in range(len(a)) for d in diff(a[k], b[k], f"{path}[{k}]")]
    num = (int, float)
    same_type = type(a) is type(b) or (isinstance(a, num) and isinstance(b, num) and isinstance(a, bool) == isinstance(b, bool)) or (isinstance(a, Path) and isinstance(b, Path))
    if not same_type or a != b:
        return [f"{path}: {a!r} vs {b!r}"]
    if isinstance(a, datetime) and (a.tzinfo is None) != (b.tzinfo is None):
        return [f"{path}: zone lost {a!r} vs {b!r}"]
    return []


def walk(d, fn) -> None:
    if isinstance(d, dict):
        for v in d.values():
            walk(v, fn)
    elif isinstance(d, (list, tuple)):
        for v in d:
            walk(v, fn)
    else:
        fn(d)


def census(ctx: Ctx, dump: dict) -> None:
    def see(v):
        if isinstance(v, timedelta):
            ctx.count("subsecond_spans", v.microseconds != 0)
        elif isinstance(v, datetime):
            ctx.count("aware_times", v.tzinfo is not None)
        elif isinstance(v, Path):
            ctx.count("paths")

    walk(dump, see)


def given(ctx: Ctx, kw: dict, model, path: str = "") -> None:
    """Values that were handed over verbatim are the ones the model holds."""
    for k, v in kw.items():
        if k in ("inherit_from",):
            continue
        got = model[k]
        where = f"{path}{type(model).__name__}.{k}"
        if isinstance(v, dict) and hasattr(got, "model_dump"):
            if set(v) - {"name", "id"}:
                given(ctx, v, got, where + "/")
            continue
        if isinstance(v, list):
            if v and isinstance(v[0], dict):
                for a, b in zip(v, got):
                    if hasattr(b, "model_dump") and set(a) - {"name", "id"}:
                        given(ctx, a, b, where + "/")
            elif not v or isinstance(v[0], (int, float, str)):
                ctx.eq(list(got), v, "given-value-changed", where)
            continue
        ctx.count("given_values_checked")
        if isinstance(v, str):
            if k in ("ip", "url", "mcu1", "mcu2", "time_start", "duration", "output_compression", "firmware_file", "data_path"):
                continue
            ctx.check(isinstance(got, str) and got == v.strip(), "given-value-changed", lambda: f"{where}: given {v!r} holds {got!r}")
        elif isinstance(v, datetime):
            if v.tzinfo is None and k == "time_start" and got.tzinfo is not None:
                ctx.check(got.replace(tzinfo=None) == v, "given-time-changed", lambda: f"{where}: given {v!r} holds {got!r}")
            else:
                ctx.check(isinstance(got, datetime) and got == v, "given-time-changed", lambda: f"{where}: given {v!r} holds {got!r}")
        elif isinstance(v, date):
            d = got.date() if isinstance(got, datetime) else got
            ctx.check(d == v, "given-time-changed", lambda: f"{where}: given {v!r} holds {got!r}")
        elif isinstance(v, timedelta):
            ctx.check(got == v, "given-span-changed", lambda: f"{where}: given {v!r} holds {got!r}")
        elif isinstance(v, (int, float)) and not isinstance(v, bool):
            if isinstance(got, timedelta):
                ctx.check(abs(got.total_seconds() - v) <= 1e-6 + 1e-12 * abs(v), "given-span-changed", lambda: f"{where}: given {v!r} holds {got!r}")
            elif isinstance(got, datetime):
                ctx.check(abs(got.timestamp() - v) <= 2e-6, "given-time-changed", lambda: f"{where}: given {v!r} holds {got!r}")
            elif k in ("voltage_step_mV", "current_limit_uA"):
                pass  # rounded up to the resolution of the hardware
            else:
                ctx.check(got == v, "given-value-changed", lambda: f"{where}: given {v!r} holds {got!r}")
        elif isinstance(v, Path):
            ctx.check(Path(got) == v, "given-path-changed", lambda: f"{where}: given {v!r} holds {got!r}")
        elif v is None and k in ("id", "testbed_id", "voltage_step_mV"):
            pass
        else:
            ctx.check(got == v, "given-value-changed", lambda: f"{where}: given {v!r} holds {got!r}")


def same(ctx: Ctx, a, b, key: str) -> None:
    d = diff(a.model_dump(), b.model_dump())
    ctx.check(not d, key, lambda: f"{type(a).__name__}: {d[:3]}")
    ctx.check(a == b, key + "-unequal", lambda: f"{type(a).__name__} objects are unequal")
    ctx.count("hash_compares")
    ctx.eq(b.get_hash(), a.get_hash(), key + "-hash", type(a).__name__)


def only_auto(ctx: Ctx, a, b, minimal: dict) -> None:
    """Minimal export: everything but generated defaults is the same."""
    d = diff(a.model_dump(), b.model_dump())
    bad = []
    for line in d:
        p = line.split(":", 1)[0]
        leaf = p.rsplit(".", 1)[-1]
        if leaf not in AUTO:
            bad.append(line)
            continue
        # a generated value must not have been given explicitly
        cur = minimal
        for part in p.strip(".").replace("[", ".").replace("]", "").split("."):
            try:
                cur = cur[int(part)] if isinstance(cur, list) else cur[part]
            except (KeyError, TypeError, IndexError):
                cur = None
                break
        if cur is not None:
            bad.append("given " + line)
    ctx.check(not bad, "minimal-export-changed", lambda: f"{type(a).__name__}: {bad[:3]}")


def build(ctx: Ctx, name: str):
    kw = M.ALL[name](ctx.rng)
    cls = M.classes()[name]
    keep = copy.deepcopy(kw)
    model = cls(**kw)
    return cls, keep, model


def roundtrip(ctx: Ctx) -> None:
    rng = ctx.rng
    names = sorted(M.ALL)
    name = names[ctx.index % len(names)]
    cls, kw, m = build(ctx, name)
    ctx.count("instances")
    ctx.seen(name, tuple(sorted(kw)))
    given(ctx, kw, m)
    dump = m.model_dump()
    census(ctx, dump)
    hash0 = m.get_hash()

    # dictionary
    same(ctx, m, cls(**m.model_dump()), "dict-roundtrip")
    ctx.eq(m.get_hash(), hash0, "hash-unstable", name)
    ctx.check(not diff(dump, m.model_dump()), "original-modified", lambda: f"{name}: {diff(dump, m.model_dump())[:3]}")

    # access like a dictionary
    ctx.eq(list(m.keys()), list(dump), "access-differs", f"keys of {name}")
    ctx.check([k for k, _ in m.items()] == list(dump) and all(v is getattr(m, k) or v == getattr(m, k) for k, v in m.items()), "access-differs", f"items of {name}")
    ctx.check(all(k in m for k in dump) and "zz_unknown" not in m, "access-differs", f"membership in {name}")
    if rng.random() < 0.1 and not name.startswith("Cal") and name != "CapeData":  # schemas with binary defaults aren't supported
        cls.schema_to_file(ctx.dir / "schema")
        ctx.check(yaml.safe_load((ctx.dir / "schema.yaml").read_bytes()) == cls.model_json_schema(), "schema-differs", name)
        ctx.count("schemas")

    # complete file
    stem = rng.choice(["m", "sub/dir/m", "m.x", "m b", "ä"])
    comment = rng.choice([None, M.safe_str(rng)])
    p = m.to_file(ctx.dir / stem, comment=comment, minimal=False)
    ctx.check(p.is_file() and p.suffix == ".yaml", "file-missing", str(p))
    txt = p.read_bytes()
    raw = yaml.safe_load(txt)
    ctx.eq(raw["datatype"], name, "stored-datatype", name)
    ctx.eq(set(raw["parameters"]), set(dump), "stored-fields", name)
    if comment is not None:
        ctx.eq(raw.get("comment"), comment, "comment-lost", name)
    m2 = cls.from_file(p)
    ctx.eq(p.read_bytes(), txt, "load-changed-file", name)
    ctx.count("file_roundtrips")
    same(ctx, m, m2, "file-roundtrip")
    # later generations are stable
    m3 = cls.from_file(m2.to_file(ctx.dir / "m3", minimal=False))
    same(ctx, m, m3, "second-generation")
    ctx.count("second_generation")

    # minimal file
    p = m.to_file(ctx.dir / "mini")
    raw = yaml.safe_load(p.read_bytes())
    m4 = cls.from_file(str(p))
    ctx.count("file_roundtrips")
    only_auto(ctx, m, m4, raw["parameters"])
    for k in kw:
        if k != "inherit_from":
            ctx.check(k in raw["parameters"], "minimal-lost-given", lambda: f"{name}.{k} was given but not stored")

    # other type
    other = M.classes()[rng.choice([n for n in names if n != name])]
    ctx.rejects(lambda: other.from_file(p), "wrong-type-accepted", f"{name} loaded as {other.__name__}")
    ctx.count("wrong_type_rejected")

    # immutable
    for k in list(dump)[:12]:
        for op in (lambda: setattr(m, k, dump[k]), lambda: setattr(m, k, None), lambda: delattr(m, k), lambda: m.__setitem__(k, None)):
            ctx.rejects(op, "modified", f"{name}.{k}")
            ctx.count("assignments_rejected")
    ctx.rejects(lambda: setattr(m, "zz_new", 1), "attribute-added", name)
    ctx.eq(m.get_hash(), hash0, "hash-changed", name)
    ctx.check(not diff(dump, m.model_dump()), "modified", name)

    # unknown fields, anywhere
    for bad in ("zz_unknown", "model_config", "Name", "_x"):
        if bad in dump:
            continue
        ctx.rejects(lambda: cls(**{**m.model_dump(), bad: rng.choice([1, None, "x"])}), "unknown-field-accepted", f"{name}({bad})")
        ctx.count("unknown_rejected")
    nested = [k for k, v in dump.items() if isinstance(v, dict) and hasattr(m[k], "model_dump")]
    for k in nested[:3]:
        d = m.model_dump()
        d[k]["zz_unknown"] = 1
        ctx.rejects(lambda: cls(**d), "unknown-field-accepted", f"{name}.{k}")
        ctx.count("unknown_rejected")

    # access
    ctx.eq(set(m.keys()), set(dump), "keys", name)
    for k in list(dump)[:4]:
        ctx.check(k in m, "contains", k)
    ctx.check("zz_unknown" not in m, "contains", "unknown")
    ctx.check(isinstance(repr(m), str) and isinstance(str(m), str), "text", name)

    damage(ctx, cls, p, m4)
    ctx.sample({"model": name, "given": kw})


def damage(ctx: Ctx, cls, p: Path, m) -> None:
    """Damaged files raise or deliver a complete valid object, never a half one of another type."""
    rng = ctx.rng
    data = p.read_bytes()
    kind = rng.choice(["empty", "cut", "garbage", "binary", "notdict", "missing", "nodatatype", "noparam", "unknown", "othertype", "othertype"])
    q = ctx.dir / "damaged.yaml"
    if kind == "empty":
        q.write_bytes(b"")
    elif kind == "cut":
        q.write_bytes(data[: rng.randrange(len(data))])
    elif kind == "garbage":
        q.write_text("{{{: ]")
    elif kind == "binary":
        q.write_bytes(bytes(rng.randrange(256) for _ in range(200)))
    elif kind == "notdict":
        q.write_text(rng.choice(["- a\n- b\n", "42\n", "text\n"]))
    elif kind == "missing":
        q = ctx.dir / "nothere.yaml"
    else:
        d = yaml.safe_load(data)
        if kind == "nodatatype":
            d.pop("datatype")
        elif kind == "othertype":
            t = d["datatype"]
            d["datatype"] = rng.choice([t[:-1], t[1:], t[: len(t) // 2], t + "s", t.swapcase(), "x" + t, t + " x"])
        elif kind == "noparam":
            d.pop("parameters")
        else:
            d["parameters"]["zz_unknown"] = 3
        q.write_text(yaml.safe_dump(d))
    ctx.count("damaged_files")
    try:
        got = cls.from_file(q)
    except Exception:
        return
    ctx.check(kind == "cut" and type(got) is cls, "damaged-accepted", f"{cls.__name__} {kind}")
    same(ctx, got, cls(**got.model_dump()), "damaged-roundtrip")


BAD = {
    "CalibrationPair": [{"gain": 0}, {"gain": -1}, {"gain": float("nan")}, {"gain": float("inf")}, {"offset": float("nan")}, {"offset": float("-inf")}, {"gain": "x"}, {"gain": None}],
    "CapeData": [{"header": b"12345"}, {"serial_number": "1234567890123"}, {"serial_number": ""}, {"version": "12345"}, {"eeprom_revision": "   "}],
    "EnergyEnvironment": [{"duration": 0}, {"duration": -1}, {"energy_Ws": 0}, {"data_type": "ivx"}, {"data_path": 3}, {"name": "x" * 33}, {"name": "a/b"}, {"name": "a|b"}, {"name": " "}, {"description": "ä"}, {"description": None, "visible2all": True}, {"created": "never"}, {"duration": float("inf")}, {"energy_Ws": float("nan")}, {"id": 1.5}, {"owner": ""}],
    "Firmware": [{"data_type": "exe"}, {"mcu": {"name": "z80"}}, {"mcu": None}, {"data": None}, {"data_local": "maybe"}],
    "VirtualHarvesterConfig": [{"algorithm": "magic"}, {"samples_n": 7}, {"samples_n": 2001}, {"voltage_mV": 5001}, {"voltage_min_mV": -1}, {"setpoint_n": 1.01}, {"interval_ms": 0}, {"wait_cycles": 101}, {"voltage_min_mV": 4000, "voltage_max_mV": 3000, "voltage_mV": 3500}, {"voltage_mV": 100, "voltage_min_mV": 200, "voltage_max_mV": 5000}, {"current_limit_uA": 50_001}],
    "VirtualSourceConfig": [{"C_intermediate_uF": -1}, {"C_intermediate_uF": 100_001}, {"V_output_mV": 5001}, {"LUT_output_efficiency": [1.0] * 11}, {"LUT_output_efficiency": [1.1] * 12}, {"LUT_input_efficiency": [[1.0] * 12] * 11}, {"LUT_input_efficiency": [[1.0] * 12] * 11 + [[1.0] * 13]}, {"LUT_input_efficiency": [[-0.1] * 12] * 12}, {"harvester": {"name": "nope"}}, {"harvester": {"name": "ivcurve"}}, {"LUT_output_I_min_log2_nA": 0}, {"interval_check_thresholds_ms": -1}],
    "HarvesterPRUConfig": [{"algorithm": 2**32}, {"window_size": -1}, {"interval_n": 1.5}, {"voltage_uV": None}],
    "MCU": [{"prog_voltage": 0.9}, {"prog_voltage": 5.1}, {"prog_datarate": 0}, {"prog_datarate": 1_000_001}, {"prog_protocol": "ISP"}, {"platform": "a:b"}, {"id": -1}, {"id": 2**128}],
    "GPIO": [{"direction": "UP"}, {"reg_pru": None, "pin_pru": None, "reg_sys": None}, {"reg_pru": None, "pin_sys": None}, {"pin_pru": None, "reg_sys": None}, {"dir_switch": "x" * 33}, {"reg_sys": -1}],
    "Cape": [{"created": "x"}, {"active": "perhaps"}, {"version": ""}, {"id": -3}],
    "Target": [{"testbed_id": 2**16}, {"testbed_id": -1}, {"mcu1": {"name": "z80"}}, {"mcu1": "z80"}, {"version": None}],
    "Observer": [{"latitude": 90.1}, {"longitude": -180.1}, {"mac": "00:11:22:33:44"}, {"mac": "zz:11:22:33:44:55"}, {"ip": "256.1.1.1"}, {"ip": "host"}, {"cape": None, "target_a": {"id": 1}}, {"room": "a*b"}],
    "PowerTracing": [{"delay": -1}, {"duration": -0.001}, {"samplerate": 9}, {"samplerate": 100_001}, {"discard_current": True, "discard_voltage": True}, {"calculate_power": True}, {"duration": "long"}],
    "GpioTracing": [{"mask": 0}, {"mask": 1024}, {"gpios": []}, {"gpios": [{"name": "GPIO0"}] * 11}, {"delay": timedelta(microseconds=-1)}, {"duration": -3}, {"uart_baudrate": 2399}, {"uart_baudrate": 921_601}, {"uart_pin": {"name": "nope"}}],
    "GpioEvent": [{"delay": 0}, {"delay": -1}, {"level": "Z"}, {"period": 9e-6}, {"count": 0}, {"count": 4097}, {"gpio": {"name": "GPIO4"}}, {"gpio": {"name": "GPIO7"}}],
    "GpioActuation": [{"events": []}],
    "SystemLogging": [{"dmesg": "maybe"}, {"ptp": None}],
    "ProgrammingTask": [{"firmware_file": "/x/a.elf"}, {"firmware_file": "/x/a"}, {"mcu_port": 0}, {"mcu_port": 3}, {"voltage": 0.99}, {"voltage": 5.001}, {"voltage": 6}, {"datarate": 0}, {"protocol": "ISP"}, {"target_port": "C"}, {"verbose": 5}],
    "FirmwareModTask": [{"custom_id": 2**16}, {"custom_id": -1}, {"data_type": "exe"}, {"firmware_file": None}, {"verbose": -1}],
    "HarvestTask": [{"time_start": "1999-01-01"}, {"time_start": 1_000_000_000}, {"duration": -1}, {"output_compression": "zip"}, {"output_path": None}, {"verbose": 5}],
    "EmulationTask": [{"time_start": "1999-01-01T00:00:00+00:00"}, {"duration": timedelta(microseconds=-1)}, {"voltage_aux": 4.6}, {"voltage_aux": -0.1}, {"voltage_aux": "mid"}, {"voltage_aux": "MAIN"}, {"voltage_aux": "Buffer"}, {"voltage_aux": "mainn"}, *[{"time_start": (datetime.now().astimezone() - timedelta(seconds=_s)).isoformat()} for _s in (2, 90, 3600, 7 * 3600, 25 * 3600)], {"io_port": "C"}, {"output_compression": "gzip"}, {"input_path": None}],
    "ObserverTasks": [{"observer": ""}, {"owner_id": -1}, {"time_prep": None}, {"abort_on_error": None}],
    "TestbedTasks": [{"observer_tasks": []}, {"name": "a/b"}, {"owner_id": 2**128}],
    "SystemInventory": [{"uptime": -5}, {"timestamp": None}],
    "InventoryList": [{"elements": []}],
    "Experiment": [{"target_configs": []}, {"duration": -1}, {"name": "x:y"}, {"owner_id": -1}],
    "Testbed": [{"observers": []}, {"shared_storage": False}, {"prep_duration": timedelta(microseconds=-1)}, {"url": "no url"}],
}


def invalid(ctx: Ctx) -> None:
    """Known impossible values are rejected for otherwise acceptable content."""
    names = sorted(BAD)
    name = names[ctx.index % len(names)]
    cls, kw, m = build(ctx, name)
    ctx.count("bases")
    h = m.get_hash()
    for bad in BAD[name]:
        for base in (kw, m.model_dump()):
            d = {**copy.deepcopy(base), **copy.deepcopy(bad)}
            ctx.rejects(lambda: cls(**d), "invalid-accepted", f"{name} with {bad}")
            ctx.count("bad_values_rejected")
        # through a file as well
        p = m.to_file(ctx.dir / "b", minimal=False)
        raw = yaml.safe_load(p.read_bytes())
        try:
            raw["parameters"].update(copy.deepcopy(bad))
            p.write_text(yaml.safe_dump(raw))
        except yaml.YAMLError:
            continue
        ctx.rejects(lambda: cls.from_file(p), "invalid-file-accepted", f"{name} with {bad}")
        ctx.count("bad_values_rejected")
    ctx.eq(m.get_hash(), h, "hash-changed", name)
    ctx.seen(name)


def distinct(ctx: Ctx) -> None:
    """Different content has different hashes and is unequal."""
    rng = ctx.rng
    names = sorted(M.ALL)
    name = names[ctx.index % len(names)]
    cls, kw, m = build(ctx, name)
    n = 0
    for _ in range(12):
        kw2 = M.ALL[name](rng)
        common = [k for k in kw2 if k in kw and k not in ("inherit_from", "name", "id")]
        if not common:
            continue
        d = m.model_dump()
        k = rng.choice(common)
        d[k] = copy.deepcopy(kw2[k])
        try:
            m2 = cls(**d)
        except Exception:
            continue
        n += 1
        if diff(m.model_dump(), m2.model_dump()):
            ctx.count("changed_pairs")
            ctx.check(m2 != m, "changed-content-equal", lambda: f"{name}.{k}")
            ctx.check(m2.get_hash() != m.get_hash(), "changed-content-same-hash", lambda: f"{name}.{k}: {d[k]!r}")
        elif repr(m.model_dump()) == repr(m2.model_dump()):
            ctx.eq(m2.get_hash(), m.get_hash(), "same-content-other-hash", name)
    ctx.seen(name, n)


FAMILIES = {
    "roundtrip": Family(roundtrip, quick=40 * 36, thorough=40 * 500),
    "invalid": Family(invalid, quick=2 * 26, thorough=26 * 40),
    "distinct": Family(distinct, quick=36 * 6, thorough=36 * 60),
}
