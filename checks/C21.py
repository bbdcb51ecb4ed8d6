"""C21 - experiments translate to tasks that execute exactly what was requested.

Deciding step: the tasks produced by the real translation (and what each observer extracts from the
stored file) are compared field by field with a translation derived from the plain description of
testbed and experiment.
"""
from __future__ import annotations

import copy
from datetime import datetime
from datetime import timedelta
from pathlib import Path

from vlib import models as M
from vlib import tbgen as T
from vlib.core import Ctx
from vlib.core import Family

PROPERTY = "C21"
TECHNIQUE = "runtime monitoring: field-wise comparison of generated/extracted tasks with an independent translation, uniqueness monitor over all paths"
LEVEL_NOTE = "real TestbedTasks/ObserverTasks/prepare_task/extract_tasks for accepted experiments on the shipped and generated testbeds, through models and files"
RULE = "case = one testbed with several accepted experiments; non-trivial: >1 config, >1 observer, both ports, second mcu, custom ids, no/naive/aware start"
REQUIRED = {
    "experiments": 400, "tasks": 1_000, "multi_target": 250, "multi_config": 150, "port_b": 300, "fw2": 200, "fw2_without_mcu": 10, "custom_id": 200, "default_id": 500,
    "start_given": 90, "start_open": 90, "extracted": 1_000, "strangers": 500, "files": 100, "refused": 100, "path_pairs": 20_000, "single_tasks": 200, "shipped": 40,
}


def resolve_fw(w: T.World, fw: dict) -> dict:
    if set(fw) == {"name"}:
        return w.fws[fw["name"]]
    if set(fw) == {"id"}:
        return next(f for f in w.fws.values() if f["id"] == fw["id"])
    return fw


def val(x):
    return getattr(x, "value", x)


AUTO = {"id", "created", "updated_last"}  # generated while loading, when omitted in the (minimal) file


def plain(x):
    """Content of tasks without automatic fields."""
    if hasattr(x, "model_dump"):
        return type(x).__name__, plain(x.model_dump())
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items() if k not in AUTO}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def same(ctx: Ctx, got, want, key: str, what: str) -> None:
    ctx.check(got == want and type(got) is type(want), key, lambda: f"{what}: got {got!r} expected {want!r}")


def check_tasks(ctx: Ctx, w: T.World, spec: dict, xp, tbt, before, after) -> set:
    """Compare one task-set with the request, returns all paths that will be written."""
    cl = M.classes()
    cfgs = spec["target_configs"]
    order = [(t, c, xp.target_configs[n]) for n, c in enumerate(cfgs) for t in c["target_IDs"]]
    same(ctx, tbt.name, xp.name, "name-differs", "experiment")
    same(ctx, tbt.owner_id, spec.get("owner_id"), "owner-differs", "experiment")
    same(ctx, tbt.email_results, spec.get("email_results", False), "email-differs", "experiment")
    hosts = [w.host(t)[0]["name"] for t, _, _ in order]
    ctx.eq(sorted(o.observer for o in tbt.observer_tasks), sorted(hosts), "observers-differ", "one task-set per target")
    ctx.count("multi_target", len(order) > 1)
    ctx.count("multi_config", len(cfgs) > 1)
    start = spec.get("time_start")
    ctx.count("start_given" if start is not None else "start_open")
    paths: set = set()
    outs = {}
    for t, c, tc in order:
        o, port = w.host(t)
        obt = [x for x in tbt.observer_tasks if x.observer == o["name"]]
        if len(obt) != 1:
            continue
        obt = obt[0]
        ctx.count("tasks")
        ctx.count("port_b", port == "B")
        what = f"target {t} on {o['name']}"
        same(ctx, obt.owner_id, spec.get("owner_id"), "owner-differs", what)
        same(ctx, obt.abort_on_error, spec.get("abort_on_error", False), "abort-differs", what)
        if start is not None:
            ctx.eq(obt.time_prep, start - w.prep, "prep-time-differs", what)
        else:
            ctx.check(before - w.prep <= obt.time_prep <= after + timedelta(minutes=10) - w.prep, "prep-time-differs", lambda: f"{what}: {obt.time_prep}")
        ctx.check(w.root in obt.root_path.parents, "root-outside-storage", lambda: f"{what}: {obt.root_path}")
        # firmware
        cu = c.get("custom_IDs")
        nid = cu[c["target_IDs"].index(t)] if cu is not None else w.default_id(t)
        ctx.count("custom_id" if cu is not None else "default_id")
        for n in (1, 2):
            fw = c.get(f"firmware{n}")
            mod, prog = getattr(obt, f"fw{n}_mod"), getattr(obt, f"fw{n}_prog")
            if fw is None or w.mcu(t, n) is None:
                ctx.count("fw2_without_mcu", fw is not None)
                ctx.check(mod is None and prog is None, "firmware-for-missing-mcu" if fw is not None else "firmware-out-of-nowhere", lambda: f"{what} mcu{n}: {mod!r} {prog!r}")
                continue
            ctx.check(mod is not None and prog is not None, "firmware-lost", lambda: f"{what} mcu{n}: {mod!r} {prog!r}")
            if mod is None or prog is None:
                continue
            ctx.count("fw2", n == 2)
            r = resolve_fw(w, fw)
            mcu = w.mcus[w.mcu(t, n)]
            ctx.eq((str(mod.data), val(mod.data_type), mod.custom_id), (str(r["data"]), r["data_type"], nid), "firmware-differs", f"{what} mcu{n}")
            same(ctx, mod.firmware_file, prog.firmware_file, "programs-other-file", what)
            ctx.eq(
                (val(prog.target_port), prog.mcu_port, prog.mcu_type, float(prog.voltage), prog.datarate, val(prog.protocol), prog.simulate),
                (port, n, mcu["name"], float(mcu["prog_voltage"]), mcu["prog_datarate"], mcu["prog_protocol"], False), "programming-differs", f"{what} mcu{n}")
            ctx.check(prog.firmware_file.suffix == ".hex", "no-hex", str(prog.firmware_file))
            ctx.check(obt.root_path in prog.firmware_file.parents, "path-outside-root", str(prog.firmware_file))
            ctx.check(prog.firmware_file not in paths, "path-collision", str(prog.firmware_file))
            paths.add(prog.firmware_file)
        # emulation
        e = obt.emulation
        ctx.check(e is not None, "emulation-lost", what)
        if e is None:
            continue
        ctx.eq(e.input_path, Path(w.eenvs[c["energy_env"]["name"]]["data_path"]), "source-differs", what)
        want_dur = spec.get("duration")
        same(ctx, e.duration, want_dur, "duration-differs", what)
        if start is None:
            ctx.check(e.time_start is None or before <= e.time_start <= after + timedelta(minutes=10), "start-differs", lambda: f"{what}: {e.time_start}")
        else:
            ctx.check(e.time_start.tzinfo is not None and e.time_start.timestamp() == start.timestamp(), "start-differs", lambda: f"{what}: {e.time_start} vs {start}")
        ctx.eq((val(e.io_port), val(e.pwr_port)), (port, port), "port-differs", what)
        ctx.eq(e.abort_on_error, spec.get("abort_on_error", False), "abort-differs", what)
        ctx.eq(e.enable_io, c.get("gpio_tracing") is not None, "io-differs", what)
        want_vs = cl["VirtualSourceConfig"](**copy.deepcopy(c.get("virtual_source", {"name": "neutral"})))
        diff = {k for k in want_vs.model_dump() if e.virtual_source.model_dump()[k] != want_vs.model_dump()[k]} - {"id", "created", "updated_last", "harvester"}
        ctx.eq(diff, set(), "vsource-differs", what)
        ctx.check(e.virtual_source == tc.virtual_source, "vsource-differs", what)
        for f, n in (("power_tracing", "PowerTracing"), ("gpio_tracing", "GpioTracing")):
            want = cl[n](**copy.deepcopy(c[f])) if c.get(f) is not None else None
            ctx.check(getattr(e, f) == want, f"{f}-differs", lambda: f"{what}: {getattr(e, f)!r} vs {want!r}")
        ctx.check(e.gpio_actuation is None, "actuation-differs", what)
        ctx.check(e.sys_logging == xp.sys_logging == cl["SystemLogging"](**(spec.get("sys_logging") if spec.get("sys_logging") is not None else {"dmesg": True, "ptp": True, "shepherd": True})), "logging-differs", what)
        ctx.check(e.output_path is not None and obt.root_path in e.output_path.parents, "path-outside-root", str(e.output_path))
        ctx.check(e.output_path not in paths, "path-collision", str(e.output_path))
        paths.add(e.output_path)
        outs[o["name"]] = e.output_path
        # order of execution
        want_tasks = [x for x in (obt.fw1_mod, obt.fw2_mod, obt.fw1_prog, obt.fw2_prog, obt.emulation) if x is not None]
        got_tasks = obt.get_tasks()
        ctx.check(sorted(map(repr, got_tasks)) == sorted(map(repr, want_tasks)), "tasks-lost", what)
        kinds = [type(x).__name__ for x in got_tasks]
        ctx.eq(kinds, sorted(kinds, key=["FirmwareModTask", "ProgrammingTask", "EmulationTask"].index), "wrong-order", what)
        ctx.eq(obt.get_output_paths(), {o["name"]: e.output_path}, "output-paths-differ", what)
        ctx.check(tbt.get_observer_tasks(o["name"]) is obt or tbt.get_observer_tasks(o["name"]) == obt, "wrong-observer-found", what)
    ctx.eq(tbt.get_output_paths(), outs, "output-paths-differ", "experiment")
    return paths


def extraction(ctx: Ctx, names: list[str], tbt) -> None:
    """Every observer gets its own tasks - out of the model and out of the file."""
    from shepherd_core.data_models.base.wrapper import Wrapper
    from shepherd_core.data_models.task import extract_tasks
    from shepherd_core.data_models.task import prepare_task

    rng = ctx.rng
    minimal = rng.random() < 0.5
    p = tbt.to_file(ctx.dir / f"tbt{rng.randrange(10**9)}", minimal=minimal)
    ctx.count("files")
    sources = [tbt, p, str(p)]
    mine = {o.observer: o for o in tbt.observer_tasks}
    for n in [*names, "nobody", "", "sheep"]:
        src = rng.choice([*sources, tbt, tbt, tbt])
        if n in mine:
            wr = prepare_task(src, n)
            same(ctx, wr.datatype, "ObserverTasks", "wrong-extract", n)
            got = extract_tasks(wr)
            want = mine[n].get_tasks()
            ctx.check(got == want or (src is not tbt and minimal and plain(got) == plain(want)), "extracted-differs", lambda: f"{n}: {got!r} vs {want!r}")
            ctx.count("extracted")
            if rng.random() < 0.3:  # from the stored part
                q = mine[n].to_file(ctx.dir / f"obt{rng.randrange(10**9)}", minimal=False)
                ctx.check(extract_tasks(prepare_task(q, rng.choice([None, n, "other"]))) == want, "extracted-differs", n)
                ctx.count("extracted")
            t = rng.choice(want)
            one = extract_tasks(prepare_task(rng.choice([t, t.to_file(ctx.dir / f"t{rng.randrange(10**9)}", minimal=False)])))
            ctx.check(one == [t], "single-task-differs", lambda: f"{one!r} vs {t!r}")
            ctx.count("single_tasks")
            h = M.classes()["HarvestTask"](**M.kw_harvest_task(rng))
            one = extract_tasks(prepare_task(rng.choice([h, h.to_file(ctx.dir / f"h{rng.randrange(10**9)}", minimal=False)]), rng.choice([None, n])))
            ctx.check(one == [h], "single-task-differs", lambda: f"{one!r} vs {h!r}")
            ctx.count("single_tasks")
        else:
            ctx.rejects(lambda: prepare_task(src, n), "stranger-got-tasks", n, (ValueError,))
            ctx.count("strangers")
    wr = prepare_task(rng.choice(sources))
    same(ctx, wr.datatype, "TestbedTasks", "wrong-extract", "set")
    ctx.rejects(lambda: extract_tasks(wr), "task-set-extracted", "", (ValueError,))
    ctx.check(plain(extract_tasks(wr, no_task_sets=False)) == plain([tbt]), "set-differs", "")
    ctx.rejects(lambda: extract_tasks(Wrapper(datatype=rng.choice(["Cape", "Task", "emulationTask"]), parameters={"id": 1})), "unknown-extracted", "", (ValueError,))
    ctx.rejects(lambda: prepare_task(rng.choice([5, {"a": 1}, ["x"]])), "unknown-extracted", "", (TypeError,))
    ctx.rejects(lambda: prepare_task(ctx.dir / "missing.yaml", "a"), "unknown-extracted", "", (OSError,))


def generated(ctx: Ctx) -> None:
    from shepherd_core.data_models.task import TestbedTasks

    rng = ctx.rng
    w = T.World(rng)
    cl = M.classes()
    all_paths: list = []
    with w.installed():
        for _ in range(5):
            xp = T.rand_xp(w, rng)
            if xp is None:
                continue
            if rng.random() < 0.8:
                for c in xp["target_configs"]:
                    c.pop("gpio_actuation", None)
            spec = T.strip(xp)
            x = cl["Experiment"](**T.objectify(copy.deepcopy(spec), rng))
            dump = x.model_dump()
            tb = cl["Testbed"]()
            tb_dump = tb.model_dump()
            before = datetime.now().astimezone()

            def make():
                return TestbedTasks.from_xp(x, rng.choice([None, tb]))

            if any(c.get("gpio_actuation") for c in spec["target_configs"]):
                ctx.rejects(make, "actuation-dropped", "not implemented by observers", (ValueError,))
                ctx.count("refused")
                continue
            tbt = make()
            after = datetime.now().astimezone()
            ctx.count("experiments")
            paths = check_tasks(ctx, w, spec, x, tbt, before, after)
            ctx.check(x.model_dump() == dump and tb.model_dump() == tb_dump, "request-modified", "")
            extraction(ctx, [o["name"] for o in w.observers], tbt)
            # other experiments on the same testbed
            st = spec.get("time_start")
            if st is not None:
                y = copy.deepcopy(spec)
                if rng.random() < 0.5:
                    y["name"] = rng.choice([spec["name"] + rng.choice("a_ 0"), "other", spec["name"][:-1] or "q", spec["name"].swapcase() + "x"])
                    changed = y["name"].strip() != spec["name"].strip()
                else:
                    y["time_start"] = st + timedelta(seconds=rng.choice([1, 60, 3600, 86_400, 86_400 * 365]))
                    changed = True
                if changed:
                    y = cl["Experiment"](**y)
                    t2 = TestbedTasks.from_xp(y)
                    other = set()
                    for o in t2.observer_tasks:
                        other |= {f.firmware_file for f in (o.fw1_mod, o.fw2_mod) if f is not None} | {o.emulation.output_path}
                    ctx.check(not (paths & other), "path-collision-experiments", lambda: f"{sorted(map(str, paths & other))}")
                    ctx.count("path_pairs", len(paths) * len(other))
                past = copy.deepcopy(spec)
                past["time_start"] = rng.choice([datetime(2020, 1, 1), datetime(2020, 1, 1).astimezone()])
                past = cl["Experiment"](**past)
                ctx.rejects(lambda: TestbedTasks.from_xp(past), "past-start-accepted", "", (ValueError,))
                ctx.count("refused")
            ctx.count("path_pairs", len(paths) ** 2)
            ctx.seen(len(tbt.observer_tasks), len(spec["target_configs"]), st is None, tuple(sorted((w.host(t)[1], w.mcu(t, 1), str(w.mcu(t, 2))) for c in spec["target_configs"] for t in c["target_IDs"])))
            ctx.sample({"targets": [c["target_IDs"] for c in spec["target_configs"]], "hosts": {str(t): [w.host(t)[0]["name"], w.host(t)[1]] for c in spec["target_configs"] for t in c["target_IDs"]}, "paths": sorted(map(str, paths))[:4]})


def shipped(ctx: Ctx) -> None:
    """Delivered testbed."""
    from shepherd_core.data_models.task import TestbedTasks

    rng = ctx.rng
    facts = M.testbed_targets()
    cl = M.classes()
    for _ in range(2):
        kw = M.kw_experiment(rng, facts)
        x = cl["Experiment"](**copy.deepcopy(kw))
        tbt = TestbedTasks.from_xp(x)
        ctx.count("shipped")
        got = {o.observer: o for o in tbt.observer_tasks}
        want = [t for c in kw["target_configs"] for t in c["target_IDs"]]
        ctx.eq(sorted(got), sorted(facts[t]["observer"] for t in want), "observers-differ", "")
        files = set()
        for c, tc in zip(kw["target_configs"], x.target_configs):
            for k, t in enumerate(c["target_IDs"]):
                o = got[facts[t]["observer"]]
                nid = c["custom_IDs"][k] if c.get("custom_IDs") else facts[t]["testbed_id"]
                ctx.eq((o.fw1_mod.custom_id, str(o.fw1_mod.data), val(o.fw1_prog.target_port), val(o.emulation.pwr_port)), (nid, str(tc.firmware1.data), facts[t]["port"], facts[t]["port"]), "firmware-differs", f"{t}")
                ctx.eq(o.emulation.input_path, tc.energy_env.data_path, "source-differs", f"{t}")
                ctx.check(o.emulation.virtual_source == tc.virtual_source and o.emulation.power_tracing == tc.power_tracing and o.emulation.gpio_tracing == tc.gpio_tracing and o.emulation.sys_logging == x.sys_logging, "emulation-differs", f"{t}")
                ctx.eq((o.fw2_mod is None, o.fw2_prog is None), ((tc.firmware2 is None or facts[t]["mcu2"] is None),) * 2, "firmware-lost", f"{t}")
                files |= {o.emulation.output_path, o.fw1_prog.firmware_file}
        ctx.eq(len(files), 2 * len(want), "path-collision", "")
        ctx.count("tasks", len(want))
        extraction(ctx, [f["observer"] for f in facts.values()], tbt)


FAMILIES = {
    "generated": Family(generated, quick=140, thorough=2_000),
    "shipped": Family(shipped, quick=24, thorough=300),
}
