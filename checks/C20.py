"""C20 - only executable experiments are accepted.

Deciding step: each experiment (valid ones and ones with single or combined faults, on the shipped
and on generated testbeds) is judged independently and compared with what the real models do.
"""
from __future__ import annotations

import copy
from datetime import timedelta

import yaml

from vlib import models as M
from vlib import tbgen as T
from vlib.core import Ctx
from vlib.core import Family

PROPERTY = "C20"
TECHNIQUE = "runtime monitoring: acceptance/rejection of real models compared with an independent judge, fault injection into valid experiments"
LEVEL_NOTE = "real Experiment/TargetConfig/Testbed models over the shipped and generated testbeds (real fixture-database); valid and singly/multiply faulty experiments, given as dicts, objects or files"
RULE = "case = one testbed with a series of experiments; non-trivial: every fault-kind, combinations, boundary values"
REQUIRED = {
    "accepted": 800, "rejected": 1_500, "faults": 2_500, "combined": 500, "testbeds_ok": 150, "testbeds_rejected": 300, "from_file": 200, "shipped": 60,
    "reason_bad-actuation": 47, "reason_bad-delays": 49, "reason_bad-name": 30, "reason_bad-text": 52, "reason_bad-tracing": 47, "reason_bad-vsource": 50, "reason_custom-range": 34, "reason_custom-too-few": 35, "reason_default-firmware": 10, "reason_firmware1-unusable": 98, "reason_firmware2-unusable": 50, "reason_id-collision": 65, "reason_invalid-source": 9, "reason_negative-duration": 29, "reason_no-targets": 47, "reason_not-on-testbed": 49, "reason_observer-twice": 122, "reason_target-twice": 91, "reason_unknown-field": 54, "reason_unknown-source": 47, "reason_unknown-target": 51, "reason_wrong-mcu1": 28, "reason_wrong-mcu2": 14,
}



def attempt(xp: dict, mode: str, ctx: Ctx):
    cl = M.classes()
    if mode == "dict":
        return cl["Experiment"](**copy.deepcopy(xp))
    if mode == "objects":
        return cl["Experiment"](**T.objectify(copy.deepcopy(xp), ctx.rng))
    p = ctx.dir / "xp.yaml"
    par = copy.deepcopy(xp)
    if isinstance(par.get("duration"), timedelta):
        par["duration"] = par["duration"].total_seconds()

    def plain(v):
        if isinstance(v, dict):
            return {k: plain(x) for k, x in v.items()}
        if isinstance(v, list):
            return [plain(x) for x in v]
        if isinstance(v, timedelta):
            return v.total_seconds()
        return v if isinstance(v, (int, float, str, bool)) or v is None else str(v)

    p.write_text(yaml.safe_dump({"datatype": "Experiment", "parameters": plain(par)}, allow_unicode=True))
    return cl["Experiment"].from_file(p)


def judged(ctx: Ctx, w: T.World, xp: dict, what: str) -> None:
    bad = T.judge(w, xp)
    spec = T.strip(xp)
    mode = ctx.rng.choice(["dict", "dict", "objects", "file"])
    ctx.count("from_file", mode == "file")
    try:
        got = attempt(spec, mode, ctx)
    except (ValueError, NotImplementedError, KeyError, TypeError) as e:
        ctx.check(bool(bad), "valid-experiment-rejected", lambda: f"{what} ({mode}): {type(e).__name__}: {str(e)[:600]}")
        ctx.count("rejected")
        ctx.check(not isinstance(e, KeyError), "wrong-error", lambda: f"{what}: {e!r}")
        for r in bad:
            ctx.count("reason_" + r)
        return
    ctx.check(not bad, "faulty-experiment-accepted:" + "+".join(sorted(bad)), lambda: f"{what} ({mode}): {sorted(bad)}")
    ctx.count("accepted")
    # what was accepted is what was asked for
    want = [t for c in spec["target_configs"] for t in c["target_IDs"]]
    ctx.eq(got.get_target_ids(), want, "targets-changed", what)
    for c in spec["target_configs"]:
        for k, t in enumerate(c["target_IDs"]):
            tc = got.get_target_config(t)
            ctx.check(t in tc.target_IDs and tc.firmware1.mcu.name.lower() == w.mcu(t, 1), "wrong-config-found", f"{t}")
            cid = c["custom_IDs"][k] if c.get("custom_IDs") is not None else None
            ctx.eq(tc.get_custom_id(t), cid, "custom-id-wrong", f"{t}")
    ctx.rejects(lambda: got.get_target_config(2**120), "unknown-target-found", "", (ValueError,))


def generated(ctx: Ctx) -> None:
    rng = ctx.rng
    w = T.World(rng)
    with w.installed():
        M.classes()["Testbed"]()
        for _ in range(4):
            xp = T.rand_xp(w, rng)
            if xp is None:
                continue
            judged(ctx, w, xp, "valid")
            for _ in range(7):
                bad = copy.deepcopy(xp)
                n = rng.choice([1, 1, 1, 2, 3])
                names = [rng.choice(list(T.FAULTS)) for _ in range(n)]
                for name in names:
                    try:
                        T.FAULTS[name](w, bad, rng)
                    except (IndexError, ValueError):  # fault isn't applicable any more
                        continue
                ctx.count("faults", n)
                ctx.count("combined", n > 1)
                judged(ctx, w, bad, f"faults {names}")
                ctx.sample({"faults": names, "reasons": sorted(T.judge(w, bad))})
                ctx.seen(*names, tuple(sorted(T.judge(w, bad))))


def testbed(ctx: Ctx) -> None:
    """Descriptions of testbeds that use something twice are refused."""
    rng = ctx.rng
    cl = M.classes()
    tb = M.kw_testbed(rng)
    tb["observers"] = [M.kw_observer(rng, 20_000 + k) for k in range(rng.randint(2, 6))]
    for o in tb["observers"]:  # full of parts
        o.setdefault("cape", M.kw_cape(rng))
        for port in "ab":
            if rng.random() < 0.6:
                o.setdefault(f"target_{port}", M.kw_target(rng))

    def obj(t):
        t = dict(t)
        if rng.random() < 0.5:
            t["observers"] = [cl["Observer"](**copy.deepcopy(o)) for o in t["observers"]]
        return cl["Testbed"](**t)

    got = obj(copy.deepcopy(tb))
    ctx.count("testbeds_ok")
    # every usable target is found where it is mounted, the others aren't
    for k, o in enumerate(tb["observers"]):
        for port in "ab":
            t = o.get(f"target_{port}")
            if t is None:
                continue
            usable = o.get("active", True) and o["cape"].get("active", True) and t.get("active", True)
            obs = got.observers[k]
            mine = {x["id"] for q in "ab" if (x := o.get(f"target_{q}")) is not None and x.get("active", True)}
            for other in (t["id"], t["id"] + 1, -1, 987_654_321):
                ctx.eq(obs.has_target(other), other in mine, "target-not-found" if other in mine else "unusable-target-found", f"has_target({other}) of {o['name']}")
                if other not in mine:
                    ctx.rejects(lambda: obs.get_target(other), "unusable-target-found", "get_target", (KeyError, ValueError))
                    ctx.rejects(lambda: obs.get_target_port(other), "unusable-target-found", "get_target_port", (KeyError, ValueError))
            if usable:
                ob = got.get_observer(t["id"])
                ctx.eq((ob.id, ob.get_target_port(t["id"]).value, ob.get_target(t["id"]).id), (o["id"], port.upper(), t["id"]), "target-not-found", "")
            else:
                ctx.rejects(lambda: got.get_observer(t["id"]), "unusable-target-found", "", (ValueError,))
    # observers without cape don't hinder
    extra = M.kw_observer(rng, 30_000)
    for f in ("cape", "target_a", "target_b"):
        extra.pop(f, None)
    extra["active"] = True
    more = copy.deepcopy(tb)
    more["observers"].insert(0, extra)
    got = obj(more)
    ctx.count("testbeds_ok")
    for o in tb["observers"]:
        for port in "ab":
            t = o.get(f"target_{port}")
            if t and o.get("active", True) and o["cape"].get("active", True) and t.get("active", True):
                ctx.eq(got.get_observer(t["id"]).id, o["id"], "target-not-found", "behind observer without cape")
    ctx.rejects(lambda: got.get_observer(2**99), "unusable-target-found", "", (ValueError,))

    kinds = ["id", "name", "ip", "mac", "eth_port", "cape", "target", "target_same", "prep", "storage", "none", "cape_missing"]
    for kind in rng.sample(kinds, 5):
        bad = copy.deepcopy(tb)
        obs = bad["observers"]
        a, b = rng.sample(range(len(obs)), 2)
        if kind in ("id", "name", "ip", "mac", "eth_port"):
            obs[b][kind] = obs[a][kind]
        elif kind == "cape":
            obs[b]["cape"] = copy.deepcopy(obs[a]["cape"])
        elif kind == "target":
            obs[a]["target_a"] = M.kw_target(rng)
            obs[b][rng.choice(["target_a", "target_b"])] = copy.deepcopy(obs[a]["target_a"])
        elif kind == "target_same":
            obs[a]["target_a"] = M.kw_target(rng)
            obs[a]["target_b"] = copy.deepcopy(obs[a]["target_a"])
        elif kind == "prep":
            bad["prep_duration"] = timedelta(seconds=-rng.choice([1e-6, 1, 1e5]))
        elif kind == "storage":
            bad["shared_storage"] = False
        elif kind == "none":
            bad["observers"] = []
        elif kind == "cape_missing":
            obs[a]["target_b"] = M.kw_target(rng)
            obs[a].pop("cape")
        ctx.rejects(lambda: obj(bad), "faulty-testbed-accepted:" + kind, kind, (ValueError,))
        ctx.count("testbeds_rejected")
        ctx.seen(kind, len(obs))


def shipped(ctx: Ctx) -> None:
    """Experiments on the delivered testbed."""
    rng = ctx.rng
    facts = M.testbed_targets()
    cl = M.classes()
    for _ in range(3):
        xp = M.kw_experiment(rng, facts)
        got = cl["Experiment"](**xp)
        ctx.count("accepted")
        ctx.count("shipped")
        want = [t for c in xp["target_configs"] for t in c["target_IDs"]]
        ctx.eq(got.get_target_ids(), want, "targets-changed", "")
        c = rng.choice(xp["target_configs"])
        kind = rng.choice(["unknown", "mcu", "twice", "neighbour", "absent", "duration"])
        bad = copy.deepcopy(xp)
        c = rng.choice(bad["target_configs"])
        if kind == "unknown":
            c["target_IDs"] = [rng.choice([10**6, 999, 12])]
            if c["target_IDs"][0] in facts:
                continue
        elif kind == "mcu":
            c["firmware1"] = {"name": "msp430_deep_sleep"}
        elif kind == "twice":
            bad["target_configs"].append({**copy.deepcopy(c), "custom_IDs": None})
        elif kind == "absent":
            known = {r["id"] for r in M.fixture_records("target").values()} - set(facts)
            c["target_IDs"] = [rng.choice(sorted(known))]
        elif kind == "neighbour":
            t = c["target_IDs"][0]
            other = [i for i, f in facts.items() if f["observer"] == facts[t]["observer"] and i != t]
            if not other:
                continue
            c["target_IDs"] = [t, other[0]]
            c.pop("custom_IDs", None)
        elif kind == "duration":
            bad["duration"] = -1
        ctx.rejects(lambda: cl["Experiment"](**bad), "faulty-experiment-accepted:shipped-" + kind, kind, (ValueError,))
        ctx.count("rejected")
        ctx.count("faults")
        ctx.seen("shipped", kind)


FAMILIES = {
    "generated": Family(generated, quick=160, thorough=6_000),
    "testbed": Family(testbed, quick=120, thorough=3_000),
    "shipped": Family(shipped, quick=32, thorough=300),
}
