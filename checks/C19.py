"""C19 - fixture lookup and inheritance resolve correctly and without side effects.

Deciding step: every answer of the real database is compared with an independent resolution of the
same records, and the whole database state is snapshotted before and after each query history.
"""
from __future__ import annotations

import copy
import glob
import json
import os
import pickle
import random
import subprocess
import sys
import time

import yaml

from vlib import models as M
from vlib.core import SRC_CORE
from vlib.core import Ctx
from vlib.core import Family

PROPERTY = "C19"
TECHNIQUE = "runtime monitoring: reference resolver as oracle for every query result, state snapshots of the database around every history"
LEVEL_NOTE = "real Fixture/Fixtures/FixturesClient over the shipped database and over generated inheritance graphs including cycles; answers compared with an independent resolver"
RULE = "case = random history of lookups, inheritance requests, model constructions and insertions over one database; non-trivial: inherited chains >= 2, cycles, unknown parents, overrides, repeated queries"
REQUIRED = {
    "numeric_names": 20, "stale_dropped": 4,
    "queries": 20_000, "chains_2plus": 1_500, "cycles_rejected": 500, "unknown_rejected": 1_500, "overrides": 1_500, "snapshots": 1_000,
    "shipped_records": 100, "models_built": 800, "inserted": 200, "repeated": 2_000, "files": 40,
}


class Bad(Exception):
    pass


def snapshot(fix) -> str:
    return repr(sorted((n, sorted(fix.components[n].elements_by_name.items(), key=str), sorted(fix.components[n].elements_by_id.items(), key=str)) for n in fix.components))


def snap1(fx) -> str:
    return repr((list(fx.elements_by_name.items()), list(fx.elements_by_id.items())))


class Ref:
    """Independent database: name(lower) -> record."""

    def __init__(self, records: list[dict]):
        self.rec = {str(r["name"]).lower(): copy.deepcopy(r) for r in records}
        self.ids = {r["id"]: str(r["name"]).lower() for r in records}

    def base(self, name: str, seen: tuple = ()) -> tuple[dict, list]:
        """Complete record of a stored element + list of its ancestors (own name first)."""
        n = str(name).lower()
        if n not in self.rec:
            raise Bad("unknown")
        if n in seen:
            raise Bad("cycle")
        r = copy.deepcopy(self.rec[n])
        parent = r.pop("inherit_from", None)
        if parent is None:
            return r, [n]
        up, chain = self.base(parent, (*seen, n))
        return {**up, **r}, [n, *chain]

    def resolve(self, values: dict) -> tuple[dict, list]:
        values = copy.deepcopy(values)
        if "inherit_from" in values:
            parent = values.pop("inherit_from")
            if "name" in values and values["name"] == parent:
                raise Bad("cycle")
            up, chain = self.base(parent)
            up["name"] = parent
            return {**up, **values}, ([str(values["name"]).lower()] if "name" in values else []) + chain
        key = None
        if "name" in values and str(values["name"]).lower() in self.rec:
            key = str(values["name"]).lower()
        elif values.get("id") in self.ids:
            key = self.ids[values["id"]]
        if key is None:
            return values, []
        up, chain = self.base(key)
        if len(chain) > 1 and "name" in values:  # found by id: chain begins with the name asked for
            chain = [str(values["name"]).lower(), *chain[1:]]
        return {**up, **values}, (chain if len(chain) > 1 else [])


def rand_value(rng: random.Random):
    return rng.choice([rng.randint(0, 100), rng.random(), "txt", None, True, [1, 2, [3]], {"a": {"b": [rng.randint(0, 9)]}}, 0, "", []])


def rand_db(rng: random.Random) -> list[dict]:
    n = rng.randint(1, 12)
    names = [rng.choice(["Fix", "fx", "A", "Z-", "x y"]) + str(k) + rng.choice(["", "b", "C"]) for k in range(n)]
    ids = rng.sample(range(1, 5000), n)
    if rng.random() < 0.3:  # names that look like the id of another (or no) element
        for k in range(n):
            if rng.random() < 0.4:
                new = str(rng.choice([ids[(k + 1) % n], ids[k], rng.randint(1, 5000)]))
                if new not in names:
                    names[k] = new
    recs = []
    mode = rng.choice(["tree", "chain", "cyclic", "dangling", "mixed"])
    for k in range(n):
        r = {"id": ids[k], "name": names[k]}
        for f in rng.sample("abcdefgh", rng.randint(0, 5)):
            r[f] = rand_value(rng)
        parent = None
        if mode == "tree" and k and rng.random() < 0.8:
            parent = names[rng.randrange(k)]
        elif mode == "chain" and k:
            parent = names[k - 1]
        elif mode == "cyclic":
            parent = names[(k + 1) % n] if rng.random() < 0.9 else None
        elif mode in ("mixed", "dangling") and rng.random() < 0.7:
            parent = rng.choice(names) if mode == "mixed" or rng.random() < 0.7 else "nowhere" + str(k)
        if parent is not None:
            r["inherit_from"] = rng.choice([parent, parent.lower(), parent.upper()])
        recs.append(r)
    rng.shuffle(recs)
    return recs


def ask(ctx: Ctx, fx, ref: Ref, q: dict) -> None:
    given = copy.deepcopy(q)
    try:
        want, chain = ref.resolve(q)
        err = None
    except Bad as e:
        want, chain, err = None, None, str(e)
    ctx.count("queries")
    if err:
        ctx.rejects(lambda: fx.inheritance(q), f"{err}-accepted", f"{q}", (ValueError,))
        ctx.count("cycles_rejected" if err == "cycle" else "unknown_rejected")
    else:
        got, gchain = fx.inheritance(q)
        ctx.check(same_rec(got, want), "wrong-record", lambda: f"query {given}: got {got} expected {want}")
        ctx.eq([str(c).lower() for c in gchain], chain, "wrong-chain", f"query {given}")
        ctx.count("chains_2plus", len(chain) > 2)
        ctx.count("overrides", len(set(given) - {"name", "id", "inherit_from"}) > 0 and len(want) > len(given))
    ctx.check(q == given and repr(q) == repr(given), "query-modified", lambda: f"{given} became {q}")


def canon(v) -> str:
    """Type-strict text, independent of the order of keys."""
    if isinstance(v, dict):
        return "{" + ",".join(f"{k!r}:{canon(v[k])}" for k in sorted(v, key=str)) + "}"
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(canon(e) for e in v) + "]"
    return repr(v)


def same_rec(a: dict, b: dict) -> bool:
    """Values of the ancestor keep their name as they were spelled in the request."""
    if a.keys() != b.keys():
        return False
    for k in a:
        if k == "name":
            if str(a[k]).lower() != str(b[k]).lower():
                return False
        elif canon(a[k]) != canon(b[k]):
            return False
    return True


def rand_query(rng: random.Random, recs: list[dict]) -> dict:
    r = rng.choice(recs)
    name = rng.choice([r["name"], r["name"].lower(), r["name"].upper()])
    q: dict = {}
    m = rng.randrange(8)
    if m == 0:
        q = {"name": name}
    elif m == 1:
        q = {"id": r["id"]}
    elif m == 2:
        q = {"inherit_from": name}
    elif m in (3, 4):
        q = {"name": "new" + str(rng.randrange(10)), "inherit_from": name}
    elif m == 5:
        q = {"name": "new1", "id": 9999, "inherit_from": rng.choice(["nope", "new1", "NEW1", ""])}
    elif m == 6:
        q = {"name": "other" + str(rng.randrange(9)), "id": rng.choice([8888, r["id"]])}
    else:
        q = {"name": name, "id": rng.choice([7777, rng.choice(recs)["id"]])}
    for f in rng.sample("abcdefghxyz", rng.choice([0, 0, 1, 3])):
        q[f] = rand_value(rng)
    if rng.random() < 0.5:
        items = list(q.items())
        rng.shuffle(items)
        q = dict(items)
    return q


def graph(ctx: Ctx) -> None:
    """Histories over generated databases."""
    from shepherd_core.data_models.base.wrapper import Wrapper
    from shepherd_core.testbed_client.fixtures import Fixture

    rng = ctx.rng
    recs = rand_db(rng)
    model = rng.choice(["thing", "Thing"])
    fx = Fixture(model_type=model)
    src = copy.deepcopy(recs)
    for r in recs:
        fx.insert(Wrapper(datatype=rng.choice(["thing", "Thing", "THING"]), parameters=r))
        fx.insert(Wrapper(datatype="other", parameters={"id": 1, "name": "foreign"}))
    ctx.eq(recs, src, "insert-modified-source")
    ref = Ref(src)
    before = snap1(fx)
    ctx.eq(sorted(fx.keys()), sorted(ref.rec), "keys")
    ctx.eq(fx.refs(), {r["id"]: r["name"] for r in src}, "refs")
    log = []
    for _ in range(rng.randint(15, 50)):
        m = rng.randrange(6)
        if m < 3:
            q = rand_query(rng, src)
            log.append(q)
            ask(ctx, fx, ref, q)
        elif m == 3 and log:
            ctx.count("repeated")
            ask(ctx, fx, ref, copy.deepcopy(rng.choice(log)))
        elif m == 4:
            r = rng.choice(src)
            keys = [r["name"], r["name"].upper(), r["id"]]
            if str(r["id"]) not in ref.rec:
                keys.append(str(r["id"]))
            ctx.count("numeric_names", r["name"].isdigit())
            for key in keys:
                ctx.check(repr(fx[key]) == repr(r), "lookup-wrong", lambda: f"{key!r} -> {fx[key]}")
                ctx.count("queries")
            ctx.check(repr(fx.query_id(r["id"])) == repr(r) and repr(fx.query_name(r["name"].upper())) == repr(r), "lookup-wrong", r["name"])
            for bad in ("nope", -5, 10**9, "", None, "12345678", 1.5):
                ctx.rejects(lambda: fx[bad], "unknown-found", repr(bad), (ValueError,))
                ctx.rejects(lambda: fx.query_id(bad), "unknown-found", repr(bad), (ValueError,))
                ctx.rejects(lambda: fx.query_name(bad), "unknown-found", repr(bad), (ValueError,))
                ctx.count("unknown_rejected", 3)
        else:
            ctx.eq([e["name"] for e in fx], [r["name"] for r in src], "iteration")
        ctx.check(snap1(fx) == before, "database-changed", lambda: f"after {log[-1:]}")
        ctx.count("snapshots")
    ctx.seen(len(src), tuple(sorted((r["name"], r.get("inherit_from")) for r in src)))
    ctx.sample({"db": src, "queries": log[:5]})


def raw_records() -> dict:
    out: dict = {}
    for f in sorted(glob.glob(str(SRC_CORE / "data_models" / "**" / "*.yaml"), recursive=True)):
        for e in yaml.safe_load(open(f)):
            out.setdefault(e["datatype"].lower(), []).append(e["parameters"])
    return out


CLS = {"mcu": "MCU", "gpio": "GPIO", "cape": "Cape", "target": "Target", "observer": "Observer", "testbed": "Testbed", "energyenvironment": "EnergyEnvironment", "firmware": "Firmware", "virtualharvesterconfig": "VirtualHarvesterConfig", "virtualsourceconfig": "VirtualSourceConfig"}


def store_of(client):
    """fixtures behind the client"""
    from shepherd_core.testbed_client.fixtures import Fixtures

    return next(v for v in vars(client).values() if isinstance(v, Fixtures))


def shipped(ctx: Ctx) -> None:
    """The database that is delivered: unambiguous, complete, unaffected by any use of the models."""
    from shepherd_core.testbed_client import tb_client

    rng = ctx.rng
    raw = raw_records()
    fixtures = store_of(tb_client)
    ctx.eq(sorted(fixtures.keys()), sorted(raw), "components")
    before = snapshot(fixtures)
    classes = M.classes()
    for t, recs in raw.items():
        ids = [r["id"] for r in recs]
        names = [str(r["name"]).lower() for r in recs]
        ctx.check(len(set(ids)) == len(ids), "ambiguous-id", lambda: f"{t}: {[i for i in ids if ids.count(i) > 1]}")
        ctx.check(len(set(names)) == len(names), "ambiguous-name", lambda: f"{t}: {[i for i in names if names.count(i) > 1]}")
        cname = rng.choice([t, t.upper(), CLS[t]])
        ctx.eq(sorted(tb_client.query_ids(cname)), sorted(ids), "query_ids", t)
        ctx.eq(sorted(tb_client.query_names(cname)), sorted(names), "query_names", t)
        ref = Ref(recs)
        for r in rng.sample(recs, min(len(recs), 12)):
            ctx.count("shipped_records")
            ctx.check(repr(tb_client.query_item(cname, uid=r["id"])) == repr(r), "lookup-wrong", f"{t} {r['id']}")
            ctx.check(repr(tb_client.query_item(cname, name=rng.choice([r["name"], str(r["name"]).upper()]))) == repr(r), "lookup-wrong", f"{t} {r['name']}")
            ctx.check(repr(tb_client.query_item(cname, uid=r["id"], name="whatever")) == repr(r), "lookup-wrong", f"{t} {r['id']} + name")
            ask(ctx, fixtures[t], ref, rand_query(rng, recs))
            if (t, names[recs.index(r)]) == ("virtualharvesterconfig", "neutral"):
                continue
            cls = classes[CLS[t]]
            full, _ = ref.base(r["name"])
            ma, mb = cls(name=r["name"]), cls(id=r["id"])
            ctx.count("models_built", 2)
            ctx.check(ma == mb and ma.id == r["id"] and ma.name == r["name"], "model-by-name-vs-id", lambda: f"{t} {r['name']}: {ma!r} vs {mb!r}")
            for k, v in full.items():
                if isinstance(v, (int, float, str)) and not hasattr(ma[k], "model_dump") and not isinstance(ma[k], (bytes,)):
                    if k in ("ip", "url", "data_path", "prep_duration", "current_limit_uA", "voltage_step_mV") or "data_on" in k:
                        continue
                    ctx.check(ma[k] == v or str(ma[k]) == str(v), "model-differs-from-record", lambda: f"{t} {r['name']}.{k}: {ma[k]!r} vs {v!r}")
            if t in ("virtualharvesterconfig", "virtualsourceconfig"):
                mod = cls(inherit_from=r["name"], name="vt_child", comment="c")
                ctx.count("models_built")
                a, b = mod.model_dump(), ma.model_dump()
                ctx.eq({k for k in a if a[k] != b[k]} - {"name", "comment"}, set(), "inherited-model-differs", f"{t} {r['name']}")
                ctx.eq((mod.name, mod.comment), ("vt_child", "c"), "override-lost", t)
            for unknown in ({"name": "nope"}, {"id": 10**15}, {"name": "nn", "inherit_from": "nope"}):
                ctx.rejects(lambda: cls(**unknown), "unknown-accepted", f"{t} {unknown}")
                ctx.count("unknown_rejected")
            ctx.check(snapshot(fixtures) == before, "database-changed", f"by {t} {r['name']}")
            ctx.count("snapshots")
    ctx.rejects(lambda: tb_client.query_item("virtualthing", name="x"), "unknown-accepted", "component", (ValueError,))
    ctx.rejects(lambda: tb_client.query_ids("virtualthing"), "unknown-accepted", "component", (ValueError,))
    ctx.rejects(lambda: tb_client.query_item("mcu"), "unknown-accepted", "query without key", (ValueError,))
    # arbitrary models (their validators query the database)
    names = sorted(M.ALL)
    for _ in range(20):
        n = rng.choice(names)
        classes[n](**M.ALL[n](rng))
        ctx.count("models_built")
    if ctx.index % 3 == 0:
        from shepherd_core.data_models.task import TestbedTasks

        TestbedTasks.from_xp(classes["Experiment"](**M.kw_experiment(rng)))
    ctx.check(snapshot(fixtures) == before, "database-changed", "by building models")
    ctx.count("snapshots")


def insert(ctx: Ctx) -> None:
    """Stored models and files are found again, other entries stay as they were."""
    from shepherd_core.testbed_client.client_abc_fix import FixturesClient
    from shepherd_core.testbed_client.fixtures import Fixtures

    rng = ctx.rng
    cl = FixturesClient()
    before = {t: dict(f.elements_by_name) for t, f in store_of(cl).components.items()}
    done = {}
    classes = M.classes()
    for k in range(6):
        n = rng.choice([c for c in CLS.values() if c != "Testbed"])
        if n == "Observer":
            kw = M.kw_observer(rng, 10_000 + k)
        else:
            kw = M.ALL[n](rng)
        if n == "Target":
            kw["id"] = 10**12 + k
        elif not isinstance(kw.get("id"), int):  # the database is queried by numbers
            kw["id"] = 10**13 + k
        kw["name"] = f"vtins{k}_{rng.randrange(10**6)}"
        m = classes[n](**kw)
        ctx.check(cl.insert(m) is True, "insert-failed", n)
        ctx.count("inserted")
        done[n, m.name] = m
        for (n2, name), m2 in done.items():
            for got in (cl.query_item(n2, name=name), cl.query_item(n2, uid=m2.id), cl.query_item(n2.lower(), name=name.upper())):
                ctx.check(repr(got) == repr(m2.model_dump()), "inserted-differs", f"{n2} {name}")
                ctx.check(classes[n2](**got) == m2, "inserted-differs", f"{n2} {name}")
                ctx.count("queries")
            ctx.check(m2.id in cl.query_ids(n2) and name.lower() in cl.query_names(n2), "inserted-missing", name)
    for t, f in before.items():
        for name, rec in f.items():
            ctx.check(repr(store_of(cl)[t].query_name(name)) == repr(rec), "other-entry-changed", f"{t} {name}")
    ctx.count("snapshots")

    # own files / directories
    recs = rand_db(rng)
    d = ctx.dir / "fix"
    (d / "sub").mkdir(parents=True)
    parts = {"a.yaml": [], "sub/b.yaml": [], "c.txt": []}
    for r in recs:
        parts[rng.choice(["a.yaml", "sub/b.yaml"])].append({"datatype": "Thing", "parameters": r})
    parts["sub/b.yaml"].append({"datatype": "Thung", "parameters": {"id": 1, "name": "t"}})
    parts["a.yaml"].insert(rng.randint(0, len(parts["a.yaml"])), "just a comment")
    parts["c.txt"].append({"datatype": "Nothing", "parameters": {"id": 1, "name": "t"}})
    for p, content in parts.items():
        (d / p).write_text(yaml.safe_dump(content))
    db = Fixtures(d, reset=True)
    ctx.count("files", 2)
    ctx.eq(sorted(db.keys()), ["thing", "thung"] if recs else ["thung"], "components")
    ref = Ref(recs)
    for r in recs:
        ctx.check(canon(db["THING"].query_id(r["id"])) == canon(r), "file-record-differs", r["name"])
    for _ in range(10):
        ask(ctx, db["thing"], ref, rand_query(rng, recs))
    ctx.rejects(lambda: db["nothing"], "unknown-found", "component", (ValueError,))
    ctx.rejects(lambda: Fixtures(d / "missing", reset=True), "missing-accepted", "path", (ValueError,))
    one = Fixtures(d / "sub/b.yaml", reset=True)
    ctx.check("thung" in one.keys(), "file-not-read", "")


CHILD = """
import json
from shepherd_core.testbed_client import tb_client
print("RESULT", json.dumps({k: tb_client.query_names(k) for k in ("MCU", "Target", "VirtualSourceConfig", "EnergyEnvironment")}))
"""


def cache(ctx: Ctx) -> None:
    """Records kept from an earlier session are not served for longer than a day."""
    rng = ctx.rng
    from shepherd_core.data_models.base.wrapper import Wrapper
    from shepherd_core.testbed_client.fixtures import Fixtures

    db = Fixtures()
    want = {k: list(db[k].elements_by_name) for k in ("MCU", "Target", "VirtualSourceConfig", "EnergyEnvironment")}
    ghost = f"ghost{rng.randrange(10**6)}"
    db.insert_model(Wrapper(datatype="MCU", parameters={"id": 987_654, "name": ghost}))
    home = ctx.dir / "home" / "shepherd_datalib"
    home.mkdir(parents=True)
    f = home / "fixtures.pickle"
    f.write_bytes(pickle.dumps(db.components))
    age = [0, 23 * 3600, 25 * 3600, 27 * 3600 + 600, 40 * 3600, 47.5 * 3600, 24.6 * 3600, 24 * 3600 * 30][ctx.index % 8] + rng.randint(0, 900)
    old = time.time() - age
    os.utime(f, (old, old))
    env = dict(os.environ, PYTHONPATH=str(SRC_CORE.parent), XDG_CACHE_HOME=str(ctx.dir / "home"), HOME=str(ctx.dir / "home"), TZ=rng.choice(["UTC", "Europe/Berlin", "America/New_York", "Asia/Kolkata"]))
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD], env=env, capture_output=True, text=True, timeout=600, check=False)
    line = [q for q in r.stdout.splitlines() if q.startswith("RESULT ")]
    ctx.check(len(line) == 1, "session-failed", f"records aged {age} s: {r.stderr[-400:]}")
    got = json.loads(line[0][7:])
    kept = ghost in got["MCU"]
    if age > 24 * 3600:
        ctx.check(not kept, "stale-records", f"records of {age / 3600:.1f} h age are still served")
        ctx.count("stale_dropped")
    for k, names in want.items():
        ctx.eq(sorted(n for n in got[k] if n != ghost), sorted(names), "records-differ", f"{k} with stored records aged {age} s")
    ctx.count("cache_sessions")
    ctx.seen("cache", age // 3600, kept)


FAMILIES = {
    "cache": Family(cache, quick=8, thorough=64),
    "graph": Family(graph, quick=1200, thorough=30_000),
    "shipped": Family(shipped, quick=24, thorough=400),
    "insert": Family(insert, quick=60, thorough=1500),
}
