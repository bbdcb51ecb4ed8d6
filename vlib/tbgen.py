"""Generated testbeds (placed in the real fixture-database) and experiments for them, with a
judge and a translator that are independent of the library.

A `World` is a plain description: observers, capes, targets, mcus, firmwares, energy-environments.
"""
from __future__ import annotations

import contextlib
import copy
import random
from datetime import datetime
from datetime import timedelta
from pathlib import Path

from vlib import models as M

_BASE = None


class World:
    def __init__(self, rng: random.Random):
        self.mcus: dict = {}
        self.fws: dict = {}
        self.eenvs: dict = {}
        self.capes: dict = {}
        self.targets: dict = {}  # id -> record
        self.observers: list = []
        self.prep = timedelta(seconds=rng.choice([0, 60, 300, 12345]))
        self.root = Path(rng.choice(["/var/shepherd", "/data/x y", "rel/dir"]))
        self._build(rng)

    # -- generation

    def _build(self, rng: random.Random) -> None:
        for k in range(rng.randint(2, 4)):
            n = f"vmcu{k}"
            self.mcus[n] = {
                "id": 50_000 + k, "name": n, "description": "d", "platform": "p", "core": f"core{k}", "prog_protocol": rng.choice(["SWD", "SBW", "JTAG", "UART"]),
                "prog_voltage": rng.choice([1, 1.8, 3, 3.3, 4.5, 5]), "prog_datarate": rng.choice([1, 100_000, 500_000, 1_000_000]), "fw_name_default": f"vdef{k}"}
        names = list(self.mcus)
        for k, n in enumerate(names):
            m = rng.randrange(8)
            if m == 0:
                pass  # default doesn't exist
            else:
                self._fw(rng, f"vdef{k}", names[(k + 1) % len(names)] if m == 1 else n)
            for j in range(rng.randint(1, 2)):
                self._fw(rng, f"vfw{k}_{j}", n)
        for k in range(4):
            self.eenvs[f"veenv{k}"] = {"id": 70_000 + k, "name": f"veenv{k}", "owner": "o", "group": "g", "data_path": f"/content/e{k}.h5", "data_type": rng.choice(["ivsample", "ivcurve", "isc_voc"]), "duration": 10.0, "energy_Ws": 1.0, "valid": k < 2 or rng.random() < 0.5}
        tid_pool = rng.sample(range(1, 40), 12) + [65536 + rng.randrange(1, 40) for _ in range(4)] + [rng.getrandbits(90) for _ in range(4)]
        tids = list(dict.fromkeys(tid_pool))
        rng.shuffle(tids)
        for k, t in enumerate(tids):
            self.targets[t] = {"id": t, "name": f"vtgt{k}", "version": "v1", "description": "d", "mcu1": rng.choice(["x", "y"]), "active": rng.random() < 0.9}
            r = self.targets[t]
            r["mcu1"] = {"name": rng.choice(names[:2])} if rng.random() < 0.8 else rng.choice(names)
            if rng.random() < 0.5:
                r["mcu2"] = {"name": rng.choice(names)}
            if rng.random() < 0.25:
                r["testbed_id"] = rng.choice([0, 65535, rng.randrange(1, 60)])
        free = list(tids)
        obs_names = rng.sample(["sheep1", "sheep10", "sheep11", "sheep", "sheep1 b", "sheep2", "o.1", "S99", "sheep02", "x" * 32], rng.randint(2, 9))
        for k, n in enumerate(obs_names):
            o = {"id": 80_000 + k, "name": n, "description": "d", "ip": f"10.0.0.{k + 1}", "mac": f"02:00:00:00:00:{k:02X}", "room": "r", "eth_port": f"p{k}", "active": rng.random() < 0.88}
            c = rng.random()
            if c < 0.95:
                self.capes[f"vcape{k}"] = {"id": 90_000 + k, "name": f"vcape{k}", "version": "v", "description": "d", "active": rng.random() < 0.9}
                o["cape"] = {"name": f"vcape{k}"}
                for port in "ab":
                    if free and rng.random() < 0.7:
                        o[f"target_{port}"] = {"id": free.pop()}
            self.observers.append(o)

    def _fw(self, rng: random.Random, name: str, mcu: str) -> None:
        r = {"id": 60_000 + len(self.fws), "name": name, "owner": "o", "group": "g", "mcu": {"name": mcu}}
        if rng.random() < 0.5:
            r |= {"data": M.fw_data(bytes(rng.getrandbits(8) for _ in range(rng.choice([1, 60])))), "data_type": rng.choice(["elf", "hex"])}
        else:
            r |= {"data": f"/content/fw/{name}.elf", "data_type": "path_elf"}
        self.fws[name] = r

    # -- put into the database of the library

    @contextlib.contextmanager
    def installed(self):
        global _BASE  # noqa: PLW0603
        from shepherd_core.data_models.base.wrapper import Wrapper
        from shepherd_core.testbed_client import tb_client
        from shepherd_core.testbed_client.fixtures import Fixtures

        attr = next(k for k, v in vars(tb_client).items() if isinstance(v, Fixtures))
        old = getattr(tb_client, attr)
        if _BASE is None:
            _BASE = Fixtures(reset=True).components
        fx = copy.copy(old)
        fx.components = {k: v for k, v in _BASE.items() if k in ("gpio", "virtualsourceconfig", "virtualharvesterconfig")}
        for typ, recs in (
            ("MCU", self.mcus.values()), ("Firmware", self.fws.values()), ("EnergyEnvironment", self.eenvs.values()), ("Cape", self.capes.values()),
            ("Target", self.targets.values()), ("Observer", self.observers), ("Testbed", [self.testbed()])):
            for r in recs:
                fx.insert_model(Wrapper(datatype=typ, parameters=copy.deepcopy(r)))
        if "cape" not in fx.components:
            fx.insert_model(Wrapper(datatype="Cape", parameters={"id": 1, "name": "unused", "version": "v", "description": "d"}))
        setattr(tb_client, attr, fx)
        try:
            yield
        finally:
            setattr(tb_client, attr, old)

    def testbed(self) -> dict:
        return {"id": 1, "name": "vtb", "description": "d", "observers": [{"name": o["name"]} for o in self.observers], "data_on_server": "/srv", "data_on_observer": self.root.as_posix(), "prep_duration": self.prep}

    # -- knowledge

    def mcu(self, tid: int, n: int) -> str | None:
        v = self.targets[tid].get(f"mcu{n}")
        return v["name"] if isinstance(v, dict) else v

    def host(self, tid: int):
        """(observer, port) that offers the target, or None."""
        for o in self.observers:
            cape = o.get("cape")
            if not o["active"] or cape is None or not self.capes[cape["name"]]["active"]:
                continue
            for port in "ab":
                t = o.get(f"target_{port}")
                if t and t["id"] == tid and self.targets[tid]["active"]:
                    return o, port.upper()
        return None

    def default_id(self, tid: int) -> int:
        return self.targets[tid].get("testbed_id", tid % 65536)

    def default_fw_ok(self, mcu: str) -> bool:
        f = self.fws.get(self.mcus[mcu]["fw_name_default"])
        return f is not None and f["mcu"]["name"] == mcu


# -- experiments ----------------------------------------------------------------

def fw_given(w: World, fw: dict) -> str | None:
    """Mcu of a firmware as given in a spec, None when it isn't usable."""
    if fw is None:
        return None
    if set(fw) == {"name"}:
        r = w.fws.get(fw["name"])
    elif set(fw) == {"id"}:
        r = next((f for f in w.fws.values() if f["id"] == fw["id"]), None)
    else:
        r = fw
    return None if r is None or r.get("bad") else r["mcu"]["name"]


def rand_fw(w: World, rng: random.Random, mcu: str) -> dict:
    r = rng.choice([f for f in w.fws.values() if f["mcu"]["name"] == mcu])
    m = rng.randrange(3)
    return {"name": r["name"]} if m == 0 else {"id": r["id"]} if m == 1 else {**copy.deepcopy(r), "name": "own", "id": 12345}


def rand_xp(w: World, rng: random.Random) -> dict | None:
    """Valid experiment for this testbed."""
    pick = []
    for o in w.observers:
        here = [t for t in w.targets if w.host(t) and w.host(t)[0] is o]
        if here and rng.random() < 0.8:
            pick.append(rng.choice(here))
    if not pick:
        pick = [t for t in w.targets if w.host(t)][:1]
    if not pick:
        return None
    rng.shuffle(pick)
    groups: dict = {}
    for t in pick:
        fw2 = w.mcu(t, 2)
        if fw2 is not None and w.default_fw_ok(fw2) and rng.random() < 0.5:
            fw2 = None
        groups.setdefault((w.mcu(t, 1), fw2, rng.randrange(2)), []).append(t)
    cfgs, used = [], set()
    pool = rng.sample(range(1, 65535), 400)
    if rng.random() < 0.3:  # borders of the id-space get used first
        pool += rng.choice([[0], [65535], [65535, 0]])
    for (m1, m2, _), ts in groups.items():
        d: dict = {"target_IDs": ts, "firmware1": rand_fw(w, rng, m1)}
        if m2 is not None:
            d["firmware2"] = rand_fw(w, rng, m2)
        elif rng.random() < 0.3 and all(w.mcu(t, 2) is None for t in ts):
            d["firmware2"] = rand_fw(w, rng, rng.choice(list(w.mcus)) if False else m1)
        d["energy_env"] = {"name": rng.choice([e["name"] for e in w.eenvs.values() if e["valid"]])}
        own = [w.default_id(t) for t in ts]
        if rng.random() < 0.4 or used & set(own) or len(set(own)) < len(ts):
            d["custom_IDs"] = [pool.pop() for _ in ts]
            while set(d["custom_IDs"]) & {w.default_id(t) for t in pick}:
                d["custom_IDs"] = [pool.pop() for _ in ts]
            used |= set(d["custom_IDs"])
            if rng.random() < 0.3:
                d["custom_IDs"] += [pool.pop()]
        else:
            used |= set(own)
        if rng.random() < 0.6:
            d["virtual_source"] = rng.choice([{"name": "BQ25570"}, {"name": "direct"}, {"inherit_from": "diode+capacitor", "name": "mine", "C_intermediate_uF": rng.choice([10, 47.5, 100]), "V_intermediate_init_mV": 1000}])
        if rng.random() < 0.5:
            d["power_tracing"] = M.kw_power_tracing(rng)
        if rng.random() < 0.5:
            d["gpio_tracing"] = M.kw_gpio_tracing(rng)
        if rng.random() < 0.1:
            d["gpio_actuation"] = M.kw_gpio_actuation(rng)
        if rng.random() < 0.2:
            d["target_delays"] = [rng.randint(0, 50) for _ in range(rng.randint(1, 4))]
        cfgs.append(d)
    if len({i for c in cfgs for i in delivered(w, c)}) < len(pick):
        return None  # default ids collide
    d = {"name": M.name_str(rng, 24), "target_configs": cfgs}
    M.maybe(rng, d, "time_start", lambda: rng.choice([None, M.rand_dt(rng, future=True)]))
    M.maybe(rng, d, "duration", lambda: rng.choice([None, M.rand_td(rng)]))
    M.maybe(rng, d, "owner_id", lambda: rng.choice([None, 0, 1, rng.randrange(2**128)]))
    M.maybe(rng, d, "abort_on_error", lambda: rng.random() < 0.5)
    M.maybe(rng, d, "email_results", lambda: rng.random() < 0.5)
    M.maybe(rng, d, "sys_logging", lambda: M.kw_sys_logging(rng))
    M.maybe(rng, d, "id", lambda: rng.choice([rng.randrange(2**60), M.uuid4_r(rng)]))
    M.maybe(rng, d, "comment", lambda: M.safe_str(rng))
    return d


def delivered(w: World, cfg: dict) -> list[int]:
    ts = cfg["target_IDs"]
    if cfg.get("custom_IDs") is not None:
        return cfg["custom_IDs"][: len(ts)]
    return [w.default_id(t) if t in w.targets else -1 for t in ts]


def judge(w: World, xp: dict) -> set[str]:
    """Reasons why the experiment can't be run, empty when it can."""
    bad: set = set(xp.get("_bad", ()))
    cfgs = xp.get("target_configs")
    if not cfgs:
        return bad | {"no-targets"}
    all_t, all_ids, hosts = [], [], []
    for c in cfgs:
        bad |= set(c.get("_bad", ()))
        ts = c["target_IDs"]
        if not ts:
            bad.add("no-targets")
        e = c["energy_env"]
        if w.eenvs.get(e.get("name")) is None:
            bad.add("unknown-source")
        elif not w.eenvs[e["name"]]["valid"]:
            bad.add("invalid-source")
        f1 = fw_given(w, c["firmware1"]) if c.get("firmware1") is not None else None
        if f1 is None:
            bad.add("firmware1-unusable")
        f2 = None
        if c.get("firmware2") is not None:
            f2 = fw_given(w, c["firmware2"])
            if f2 is None:
                bad.add("firmware2-unusable")
        for t in ts:
            if not isinstance(t, int) or t not in w.targets:
                bad.add("unknown-target")
                continue
            if f1 is not None and f1 != w.mcu(t, 1):
                bad.add("wrong-mcu1")
            m2 = w.mcu(t, 2)
            if m2 is not None:
                if c.get("firmware2") is None:
                    if not w.default_fw_ok(m2):
                        bad.add("default-firmware")
                elif f2 is not None and f2 != m2:
                    bad.add("wrong-mcu2")
            h = w.host(t)
            if h is None:
                bad.add("not-on-testbed")
            else:
                hosts.append(h[0]["name"])
            all_t.append(t)
        cu = c.get("custom_IDs")
        if cu is not None:
            if any(i < 0 or i > 65535 for i in cu):
                bad.add("custom-range")
            if len(cu) < len(ts):
                bad.add("custom-too-few")
        all_ids += delivered(w, c)
    if len(set(all_t)) < len(all_t):
        bad.add("target-twice")
    if len(set(hosts)) < len(hosts):
        bad.add("observer-twice")
    if len(set(all_ids)) < len(all_ids):
        bad.add("id-collision")
    dur = xp.get("duration")
    if dur is not None and (dur.total_seconds() if isinstance(dur, timedelta) else dur) < 0:
        bad.add("negative-duration")
    return bad


def strip(xp: dict) -> dict:
    """Spec without the private remarks."""
    if isinstance(xp, dict):
        return {k: strip(v) for k, v in xp.items() if k not in ("_bad", "bad")}
    if isinstance(xp, list):
        return [strip(v) for v in xp]
    return xp


FAULTS = {}


def fault(fn):
    FAULTS[fn.__name__] = fn
    return fn


def cfg(xp, rng):
    return rng.choice(xp["target_configs"])


@fault
def unknown_target(w, xp, rng):
    c = cfg(xp, rng)
    c["target_IDs"].insert(rng.randint(0, len(c["target_IDs"])), rng.choice([i for i in range(1, 60) if i not in w.targets] + [2**100 + 1]))


@fault
def target_twice_in_config(w, xp, rng):
    c = cfg(xp, rng)
    c["target_IDs"].append(rng.choice(c["target_IDs"]))
    if c.get("custom_IDs") and rng.random() < 0.7:
        c["custom_IDs"].append(rng.randrange(65536))


@fault
def target_twice(w, xp, rng):
    a = cfg(xp, rng)
    b = copy.deepcopy(a)
    b["target_IDs"] = [rng.choice(a["target_IDs"])]
    b["custom_IDs"] = [rng.randrange(65536)]
    xp["target_configs"].append(b)


@fault
def second_on_observer(w, xp, rng):
    used = [t for c in xp["target_configs"] for t in c["target_IDs"]]
    for t in rng.sample(used, len(used)):
        h = w.host(t) if t in w.targets else None
        if h is None:
            continue
        for port in "ab":
            o = h[0].get(f"target_{port}")
            if o and o["id"] not in used and w.host(o["id"]):
                new = copy.deepcopy(next(c for c in xp["target_configs"] if t in c["target_IDs"]))
                new["target_IDs"] = [o["id"]]
                new["custom_IDs"] = [rng.randrange(65536)]
                new["firmware1"] = rand_fw(w, rng, w.mcu(o["id"], 1))
                new.pop("firmware2", None)
                if w.mcu(o["id"], 2):
                    new["firmware2"] = rand_fw(w, rng, w.mcu(o["id"], 2))
                xp["target_configs"].append(new)
                return


@fault
def not_available(w, xp, rng):
    bad = [t for t in w.targets if w.host(t) is None]
    if bad:
        t = rng.choice(bad)
        c = copy.deepcopy(cfg(xp, rng))
        c["target_IDs"] = [t]
        c["custom_IDs"] = [rng.randrange(65536)]
        c["firmware1"] = rand_fw(w, rng, w.mcu(t, 1))
        c.pop("firmware2", None)
        if w.mcu(t, 2):
            c["firmware2"] = rand_fw(w, rng, w.mcu(t, 2))
        xp["target_configs"].insert(rng.randint(0, 1), c)


@fault
def custom_too_few(w, xp, rng):
    c = max(xp["target_configs"], key=lambda c: len(c["target_IDs"]))
    c["custom_IDs"] = rng.sample(range(65536), max(1, len(c["target_IDs"]) - 1))


@fault
def custom_twice(w, xp, rng):
    c = max(xp["target_configs"], key=lambda c: len(c["target_IDs"]))
    c["custom_IDs"] = [7] * len(c["target_IDs"]) + rng.sample(range(100, 200), rng.randint(0, 3))


@fault
def custom_clash(w, xp, rng):
    a, b = cfg(xp, rng), cfg(xp, rng)
    ids = delivered(w, b)
    a["custom_IDs"] = [rng.choice(ids)] + rng.sample(range(65536), len(a["target_IDs"]))
    rng.shuffle(a["custom_IDs"])


@fault
def custom_clash_target_id(w, xp, rng):
    """A custom id equal to the (unused) id by which a target gets selected."""
    a, b = cfg(xp, rng), cfg(xp, rng)
    t = rng.choice(b["target_IDs"])
    if t < 65536:
        a["custom_IDs"] = [t] + rng.sample(range(40_000, 65536), len(a["target_IDs"]))


@fault
def drop_custom(w, xp, rng):
    for c in xp["target_configs"]:
        c.pop("custom_IDs", None)


@fault
def custom_range(w, xp, rng):
    c = cfg(xp, rng)
    c["custom_IDs"] = rng.sample(range(60_000), len(c["target_IDs"]))
    c["custom_IDs"][rng.randrange(len(c["custom_IDs"]))] = rng.choice([65535, 65536, -1, 2**32])


@fault
def wrong_firmware1(w, xp, rng):
    cfg(xp, rng)["firmware1"] = rand_fw(w, rng, rng.choice([m for m in w.mcus if any(f["mcu"]["name"] == m for f in w.fws.values())]))


@fault
def wrong_firmware2(w, xp, rng):
    cfg(xp, rng)["firmware2"] = rand_fw(w, rng, rng.choice([m for m in w.mcus if any(f["mcu"]["name"] == m for f in w.fws.values())]))


@fault
def no_firmware2(w, xp, rng):
    for c in xp["target_configs"]:
        c.pop("firmware2", None)


@fault
def no_firmware1(w, xp, rng):
    cfg(xp, rng)["firmware1"] = None


@fault
def unknown_firmware(w, xp, rng):
    cfg(xp, rng)[rng.choice(["firmware1", "firmware2"])] = {"name": "vghost"}


@fault
def corrupt_firmware(w, xp, rng):
    c = cfg(xp, rng)
    k = rng.choice(["firmware1", "firmware2"])
    m = fw_given(w, c["firmware1"])
    if m is not None:
        c[k] = {"name": "bad", "id": 99, "owner": "o", "group": "g", "mcu": {"name": m}, "data": M.fw_data(b"abc" * 30), "data_type": "elf", "data_hash": "00" * 28, "bad": True}


@fault
def invalid_source(w, xp, rng):
    cfg(xp, rng)["energy_env"] = {"name": rng.choice(list(w.eenvs))}


@fault
def unknown_source(w, xp, rng):
    cfg(xp, rng)["energy_env"] = {"name": "nowhere"}


@fault
def duration(w, xp, rng):
    xp["duration"] = rng.choice([timedelta(seconds=-1), timedelta(microseconds=-1), -5, 0, timedelta(0), timedelta(days=-3), 1])


@fault
def empty(w, xp, rng):
    if rng.random() < 0.5:
        xp["target_configs"] = []
    else:
        cfg(xp, rng)["target_IDs"] = []


def _mark(d, reason):
    d.setdefault("_bad", []).append(reason)


@fault
def bad_name(w, xp, rng):
    xp["name"], ok = rng.choice([("a/b", 0), ("x" * 33, 0), ("", 0), ("x" * 32, 1), ("a:b", 0), ("a?", 0), ("back\\slash", 0), ("a b.c-d_e", 1), ('"', 0), ("..", 1)])
    xp["_bad"] = [b for b in xp.get("_bad", []) if b != "bad-name"]
    if not ok:
        _mark(xp, "bad-name")


@fault
def bad_text(w, xp, rng):
    xp[rng.choice(["description", "comment"])] = rng.choice(["\n", "ä", "", "a\tb"])
    _mark(xp, "bad-text")


@fault
def bad_tracing(w, xp, rng):
    c = cfg(xp, rng)
    k, v = rng.choice([
        ("power_tracing", {"discard_current": True, "discard_voltage": True}), ("power_tracing", {"delay": timedelta(seconds=-1)}), ("power_tracing", {"duration": -0.5}),
        ("power_tracing", {"samplerate": 9}), ("power_tracing", {"samplerate": 100_001}), ("power_tracing", {"calculate_power": True}),
        ("gpio_tracing", {"mask": 0}), ("gpio_tracing", {"mask": 1024}), ("gpio_tracing", {"mask": -1}), ("gpio_tracing", {"delay": -1}), ("gpio_tracing", {"duration": timedelta(microseconds=-1)}),
        ("gpio_tracing", {"gpios": []}), ("gpio_tracing", {"uart_baudrate": 2399}), ("gpio_tracing", {"uart_baudrate": 921_601}), ("gpio_tracing", {"uart_pin": {"name": "GPIO77"}})])
    c[k] = v
    _mark(c, "bad-tracing")


@fault
def bad_actuation(w, xp, rng):
    c = cfg(xp, rng)
    ev = {"delay": 1.0, "gpio": {"name": "GPIO0"}, "level": "H"}
    ev |= rng.choice([{"delay": 0}, {"delay": -1.0}, {"gpio": {"name": "GPIO7"}}, {"gpio": {"name": "BAT_OK"}}, {"level": "Z"}, {"period": 9e-6}, {"count": 0}, {"count": 4097}])
    c["gpio_actuation"] = {"events": [ev] if rng.random() < 0.9 else []}
    _mark(c, "bad-actuation")


@fault
def bad_delays(w, xp, rng):
    c = cfg(xp, rng)
    c["target_delays"] = rng.choice([[], [-1], [0, 1, -1]])
    _mark(c, "bad-delays")


@fault
def unknown_field(w, xp, rng):
    d = rng.choice([xp, cfg(xp, rng)])
    d[rng.choice(["targets", "time_end", "gpio_trace", "firmware3"])] = 1
    _mark(d, "unknown-field")


@fault
def bad_source_model(w, xp, rng):
    c = cfg(xp, rng)
    c["virtual_source"] = rng.choice([{"name": "nope"}, {"inherit_from": "nope", "name": "x"}, {"name": "x2", "inherit_from": "direct", "C_intermediate_uF": -1}])
    _mark(c, "bad-vsource")


def objectify(xp: dict, rng: random.Random) -> dict:
    """Replace some of the dicts by instances of the models, as programs do it."""
    cl = M.classes()
    parts = {"firmware1": "Firmware", "firmware2": "Firmware", "energy_env": "EnergyEnvironment", "virtual_source": "VirtualSourceConfig", "power_tracing": "PowerTracing", "gpio_tracing": "GpioTracing", "gpio_actuation": "GpioActuation"}
    xp = dict(xp)
    out = []
    for c in xp["target_configs"]:
        c = dict(c)
        for k, n in parts.items():
            if isinstance(c.get(k), dict) and rng.random() < 0.4:
                c[k] = cl[n](**c[k])
        out.append(cl["TargetConfig"](**c) if rng.random() < 0.5 else c)
    xp["target_configs"] = out
    if isinstance(xp.get("sys_logging"), dict) and rng.random() < 0.5:
        xp["sys_logging"] = cl["SystemLogging"](**xp["sys_logging"])
    return xp


def now() -> datetime:
    return datetime.now().astimezone()
