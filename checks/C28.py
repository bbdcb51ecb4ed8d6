"""C28: inventories record the system truthfully and their report flags every deviation."""
from __future__ import annotations

import os
import platform
import subprocess
import sys
import time
import types
from contextlib import ExitStack
from datetime import datetime
from datetime import timedelta
from datetime import timezone
from pathlib import Path
from unittest import mock

from vlib import models as M
from vlib.core import Ctx
from vlib.core import Family

PROPERTY = "C28"
TECHNIQUE = "runtime monitoring of collections in substituted environments and of reports against an own comparison of the hosts"
LEVEL_NOTE = "Collections run with substituted interfaces, tools, modules and missing helpers and are compared with these facts; stored files are reloaded; reports of random groups of hosts are compared with independently derived deviations."
RULE = "A case collects in one environment, or builds one group of hosts. Signature: missing helpers and tools, versions present, size of group, set of expected warnings."
REQUIRED = {"collections": 40, "no_psutil": 8, "tool_outputs": 30, "modules_missing": 20, "interfaces": 60, "reloaded": 60, "reports": 150, "reports_silent": 30, "version_conflicts": 100, "uptime_hosts": 50,
            "time_hosts": 50, "partial_hosts": 60, "collected_reports": 20, "csv_lines": 60, "same_names": 10}
ASSUMPTIONS = ["a software version that a host does not report is no deviation", "limits are 30 h of uptime and 10 s between the earliest and another collection"]

MODULES = ["h5py", "numpy", "pydantic", "shepherd_core", "shepherd_sheep", "yaml", "zstandard"]
SOFTWARE = [*MODULES, "python"]


def environment(ctx: Ctx, stack: ExitStack) -> dict:
    """Substitute parts of the host, return the facts."""
    import shepherd_core.inventory.system as sysinv

    rng = ctx.rng
    facts: dict = {"psutil": True, "ifs": None, "tools": {}, "modules": {}, "called": []}
    if rng.random() < 0.25 and hasattr(sysinv, "psutil"):
        stack.enter_context(mock.patch.object(sysinv, "psutil", None))
        facts["psutil"] = False
        ctx.count("no_psutil")
    else:
        import psutil

        class Addr(types.SimpleNamespace):
            pass

        ifs = {}
        for k in range(rng.randint(0, 4)):
            n = rng.choice([0, 1, 2, 2, 3, 4])
            ifs[f"{rng.choice(['eth', 'wlan', 'lo', 'docker'])}{k}"] = [Addr(address=rng.choice([f"10.0.{k}.{j}", f"fe80::{k}:{j}", f"02:00:00:00:{k:02}:{j:02}"])) for j in range(n)]
        if rng.random() < 0.8:
            stack.enter_context(mock.patch.object(psutil, "net_if_addrs", lambda: ifs))
            facts["ifs"] = {k: [a.address for a in v] for k, v in ifs.items()}
        boot = time.time() - rng.choice([0.2, 0, 5, 4000, 10**6])
        if rng.random() < 0.6:
            stack.enter_context(mock.patch.object(psutil, "boot_time", lambda: boot))
            facts["boot"] = boot
        else:
            facts["boot"] = psutil.boot_time()
    for tool in ("df", "beagle-version", "ptp4l"):
        facts["tools"][tool] = rng.choice([None, [], [M.safe_str(rng, 30).translate(str.maketrans("", "", "\\\'\"")) for _ in range(rng.randint(1, 4))]])

    def run(cmd, *_a, **_k):
        name = Path(str(cmd[0] if isinstance(cmd, (list, tuple)) else cmd)).name
        facts["called"].append(name)
        out = "\n".join(facts["tools"].get(name) or []).encode()
        return subprocess.CompletedProcess(cmd, 0, stdout=out, stderr=b"")

    stack.enter_context(mock.patch.object(subprocess, "run", run))
    orig = Path.is_file

    def is_file(self, *a, **k):
        if self.name in facts["tools"] and str(self).startswith("/usr"):
            return facts["tools"][self.name] is not None
        return orig(self, *a, **k)

    stack.enter_context(mock.patch.object(Path, "is_file", is_file))
    exists = Path.exists

    def is_there(self, *a, **k):
        if self.name in facts["tools"] and str(self).startswith("/usr"):
            return facts["tools"][self.name] is not None
        return exists(self, *a, **k)

    stack.enter_context(mock.patch.object(Path, "exists", is_there))
    mods = {}
    for m in MODULES:
        r = rng.random()
        if m in ("pydantic", "shepherd_core", "yaml", "numpy", "h5py") and r < 0.7:
            facts["modules"][m] = sys.modules[m].__version__ if m in sys.modules else __import__(m).__version__
        elif r < 0.85 and m != "shepherd_core":
            mods[m] = types.SimpleNamespace(__version__=f"{rng.randint(0, 9)}.{rng.randint(0, 99)}.{rng.choice(['0', '1rc2', 'dev0+abc'])}")
            facts["modules"][m] = mods[m].__version__
        elif m not in ("shepherd_core", "pydantic"):
            mods[m] = None  # import fails
            facts["modules"][m] = None
            ctx.count("modules_missing")
        else:
            facts["modules"][m] = __import__(m).__version__
    stack.enter_context(mock.patch.dict(sys.modules, mods))
    return facts


def case_collect(ctx: Ctx) -> None:
    from shepherd_core.inventory import Inventory
    from shepherd_core.inventory import InventoryList
    from shepherd_core.inventory import PythonInventory
    from shepherd_core.inventory import SystemInventory

    __import__("h5py"), __import__("numpy"), __import__("yaml"), __import__("pydantic")
    rng = ctx.rng
    invs = []
    for _ in range(rng.randint(1, 3)):
        with ExitStack() as stack:
            facts = environment(ctx, stack)
            t0 = time.time()
            kind = rng.choice([Inventory, Inventory, SystemInventory, PythonInventory])
            inv = kind.collect()
            t1 = time.time()
        ctx.count("collections")
        un = os.uname()
        if kind is not PythonInventory:
            for name, want in (("hostname", un.nodename), ("system", un.sysname), ("release", un.release), ("version", un.version), ("machine", un.machine)):
                ctx.eq(getattr(inv, name), want, "fact-system", name)
            ctx.check(t0 - 1e-3 <= inv.timestamp.timestamp() <= t1 + 1e-3, "fact-time", f"timestamp {inv.timestamp}")
            ctx.check(inv.timestamp.tzinfo is not None, "fact-time", "timestamp without zone")
            if facts["psutil"]:
                ctx.check(t0 - facts["boot"] - 0.6 <= inv.uptime <= t1 - facts["boot"] + 0.6, "fact-uptime", f"{inv.uptime} s after {t0 - facts['boot']:.1f} s")
                if facts["ifs"] is not None:
                    for name, adr in facts["ifs"].items():
                        if len(adr) > 1:
                            ctx.check(name in inv.interfaces, "fact-interfaces", f"{name} is missing")
                        ctx.check(set(inv.interfaces.get(name, [])) <= set(adr), "fact-interfaces", f"{name} got {inv.interfaces.get(name)} of {adr}")
                        ctx.count("interfaces")
                    ctx.check(set(inv.interfaces) <= set(facts["ifs"]), "fact-interfaces", "invented interface")
            for tool, field in (("df", "fs_root"), ("beagle-version", "beagle"), ("ptp4l", "ptp")):
                val = getattr(inv, field)
                text = val if isinstance(val, str) else "\n".join(val or [])
                if facts["tools"][tool] is None:
                    ctx.check(not text, "fact-tools", f"{field} = {text!r} without {tool}")
                elif tool in facts["called"]:
                    for line in facts["tools"][tool]:
                        ctx.check(line.strip() in text, "fact-tools", f"{field} misses {line!r}", text)
                        ctx.count("tool_outputs")
        if kind is not SystemInventory:
            ctx.eq(inv.python, platform.python_version(), "fact-versions", "python")
            for m, v in facts["modules"].items():
                ctx.eq(getattr(inv, m), v, "fact-versions", m)
        if kind is Inventory:
            ctx.eq(inv.created, inv.timestamp, "fact-time", "created")
            invs.append(inv)
        # storing
        p = inv.to_file(ctx.dir / f"inv{len(list(ctx.dir.iterdir()))}.yaml", minimal=rng.random() < 0.5)
        ctx.check(type(inv).from_file(p) == inv, "reload", f"{type(inv).__name__} differs after reload")
        ctx.count("reloaded")
        ctx.seen("collect", kind.__name__, facts["psutil"], tuple(k for k, v in facts["tools"].items() if v), tuple(k for k, v in facts["modules"].items() if v))
    if invs:
        lst = InventoryList(elements=invs)
        p = lst.to_file(ctx.dir / "list.yaml", minimal=rng.random() < 0.5)
        ctx.check(InventoryList.from_file(p) == lst, "reload", "list differs after reload")
        ctx.eq([e.model_dump() for e in lst.elements], [i.model_dump() for i in invs], "merge", "elements of list")
        judge(ctx, lst)
        ctx.count("collected_reports")


def deviations(hosts: list[dict]) -> dict:
    """Own derivation: kind -> facts."""
    out: dict = {}
    old = [h["hostname"] for h in hosts if h["uptime"] > 30 * 3600]
    if old:
        out["uptime"] = old
    first = min(h["created"].timestamp() for h in hosts)
    late = [h["hostname"] for h in hosts if h["created"].timestamp() - first > 10]
    if late:
        out["time_delta"] = late
    for s in SOFTWARE:
        vers: dict = {}
        for h in hosts:
            if h.get(s) is not None:
                vers.setdefault(h[s], []).append(h["hostname"])
        if len(vers) > 1:
            out[s] = vers
    return out


def judge(ctx: Ctx, lst) -> dict:
    hosts = [e.model_dump() for e in lst.elements]
    before = lst.model_dump_json()
    got = lst.warn()
    ctx.eq(lst.model_dump_json(), before, "report-modifies", "hosts after report")
    want = deviations(hosts)
    names = {h["hostname"] for h in hosts}
    missing, surplus = set(want) - set(got), set(got) - set(want)
    ctx.check(not missing, "report-silent", f"no warning for {sorted(missing)}", {"got": got})
    same = all({k: v for k, v in h.items() if k not in ("hostname", "created", "timestamp", "uptime", "interfaces")} == {k: v for k, v in hosts[0].items() if k not in ("hostname", "created", "timestamp", "uptime", "interfaces")} for h in hosts)
    known = {*SOFTWARE, "uptime", "time_delta"}
    ctx.check(not (surplus & known) and not (surplus and same), "report-false", f"warning for {sorted(surplus)} without deviation", {"got": got})
    for key, facts in want.items():
        text = str(got.get(key, ""))
        for h in names:
            involved = h in facts if key in ("uptime", "time_delta") else any(h in v for v in facts.values())
            if h and not any(h in o for o in names if o != h):
                if involved:
                    ctx.check(h in text, "report-host", f"warning for {key} does not name {h}", text)
                elif key in ("uptime", "time_delta"):
                    ctx.check(h not in text, "report-host", f"warning for {key} blames {h}", text)
        if key in SOFTWARE:
            for v in facts:
                ctx.check(v in text, "report-version", f"warning for {key} does not name version {v}", text)
            ctx.count("version_conflicts")
    ctx.count("uptime_hosts", len(want.get("uptime", [])))
    ctx.count("time_hosts", len(want.get("time_delta", [])))
    ctx.count("reports")
    ctx.count("reports_silent", not want)
    return want


def case_report(ctx: Ctx) -> None:
    from shepherd_core.inventory import Inventory
    from shepherd_core.inventory import InventoryList

    rng = ctx.rng
    n = rng.choice([1, 2, 2, 3, 5, 12])
    base = {m: f"{rng.randint(0, 20)}.{rng.randint(0, 99)}.1" for m in SOFTWARE}
    t = datetime(2024, 5, 1, 12, 0, 0, tzinfo=timezone.utc) + timedelta(seconds=rng.uniform(0, 10**7))
    dev = {k: rng.random() < 0.35 for k in ("versions", "uptime", "time", "partial", "extra", "sides")}
    subset = rng.sample(SOFTWARE, rng.randint(1, 4))
    hosts = []
    for k in range(n):
        d = dict(base)
        if dev["versions"] and rng.random() < 0.5:
            for s in subset:
                d[s] = rng.choice([base[s] + "x", base[s] + "a1", f"{rng.randint(30, 60)}.0"])
        if dev["partial"] and rng.random() < 0.7:
            for s in rng.sample(SOFTWARE, rng.randint(1, len(SOFTWARE))):
                if rng.random() < 0.5:
                    d[s] = None
                else:
                    del d[s]
            ctx.count("partial_hosts")
        shift = rng.choice([0, 1, 9.5, 10.5, 11, 3600, 10**6]) if dev["time"] else rng.uniform(0, 9)
        created = t + timedelta(seconds=shift)
        if rng.random() < 0.3:
            created = created.astimezone(timezone(timedelta(hours=rng.choice([-7, 2, 5.5]))))
        up = rng.choice([1, 108_000, 108_001, 10**6, 107_999]) if dev["uptime"] else rng.randint(1, 108_000)
        d |= {"hostname": f"sheep{k:02}_", "created": created, "timestamp": created, "uptime": up, "system": "Linux", "release": "6.1", "version": "#1", "machine": "armv7l", "processor": "",
              "fs_root": ["a", "b"], "beagle": []}
        if dev["extra"]:
            d["interfaces"] = {"eth0": [f"02:00:00:00:00:{k:02}", f"10.0.0.{k}"]}
            d["ptp"] = "b'v3', b''"
            d["targets"] = [f"t{k}"]
            d["cape"] = "x"
        if dev["sides"]:
            d["release"] = f"6.{k}"
        hosts.append(d)
    if n > 1 and rng.random() < 0.15:
        hosts[-1]["hostname"] = hosts[0]["hostname"]
        ctx.count("same_names")
    rng.shuffle(hosts)
    lst = InventoryList(elements=[Inventory(**h) for h in hosts] if rng.random() < 0.5 else hosts)
    ctx.eq(len(lst.elements), n, "merge", "hosts in list")
    ctx.eq([e.hostname for e in lst.elements], [h["hostname"] for h in hosts], "merge", "hosts in list")
    want = judge(ctx, lst)
    order = list(lst.elements)
    rng.shuffle(order)
    ctx.eq(set(InventoryList(elements=order).warn()), set(lst.warn()), "report-order", "warnings depend on the order of hosts")
    p = lst.to_file(ctx.dir / "list.yaml")
    again = InventoryList.from_file(p)
    ctx.check(again == lst, "reload", "list differs after reload")
    ctx.eq(again.warn(), lst.warn(), "reload", "report of the reloaded list")
    ctx.count("reloaded")
    csv = ctx.dir / "list.csv"
    lst.to_csv(csv)
    lines = [q for q in csv.read_text().split("\n") if q.strip()]
    ctx.eq(len(lines), n + 1, "csv", "lines in table")
    for h, line in zip(hosts, lines[1:]):
        ctx.check(h["hostname"] in line, "csv", f"{h['hostname']} is not in its line")
        for s in SOFTWARE:
            ctx.check(h.get(s) is None or h[s] in line, "csv", f"version of {s} is not in the line of {h['hostname']}")
        ctx.count("csv_lines")
    ctx.seen("report", n, tuple(sorted(want)), tuple(k for k, v in dev.items() if v))
    ctx.sample(f"{n} hosts -> {sorted(want)}")


def case_generic(ctx: Ctx) -> None:
    """Arbitrary content: no combination of fields breaks reports, tables or storage."""
    from shepherd_core.inventory import InventoryList

    rng = ctx.rng
    kw = M.kw_inventory_list(rng)
    lst = InventoryList(**kw)
    got = lst.warn()
    want = deviations([e.model_dump() for e in lst.elements])
    ctx.check(set(want) <= set(got), "report-silent", f"no warning for {sorted(set(want) - set(got))}", {"got": got})
    ctx.check(not ((set(got) - set(want)) & {*SOFTWARE, "uptime", "time_delta"}), "report-false", f"warning for {sorted(set(got) - set(want))}")
    ctx.count("reports")
    ctx.rejects(lambda: InventoryList(elements=[]), "empty", "list without hosts", Exception)
    lst.to_csv(ctx.dir / "x.csv")
    lst.to_csv(ctx.dir)
    ctx.check(len([p for p in ctx.dir.iterdir() if p.is_file()]) == 2, "csv", "table in folder")
    ctx.seen("generic", len(kw["elements"]), tuple(sorted(want)))


FAMILIES = {
    "collect": Family(case_collect, quick=240, thorough=9000),
    "report": Family(case_report, quick=900, thorough=36000),
    "generic": Family(case_generic, quick=360, thorough=15000),
}
