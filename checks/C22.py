"""C22 - embedded firmware is delivered bit-exact or refused.

Deciding step: file contents that leave the real embed/extract code (directly, through models, stored
files and tasks) are compared byte for byte with what went in; damaged text is judged with an
independent decoder, and a directory monitor watches that no source file changes.
"""
from __future__ import annotations

import base64
import hashlib
from pathlib import Path

from vlib import elfgen
from vlib import models as M
from vlib.core import Ctx
from vlib.core import Family

PROPERTY = "C22"
TECHNIQUE = "runtime monitoring: byte-exact conservation monitor over embed/store/extract chains, fault injection on embedded text, snapshot monitor on source files"
LEVEL_NOTE = "real fw_tools converters, Firmware model and FirmwareModTask on generated and shipped programs, through YAML files"
RULE = "case = one file content (or one embedded firmware and a set of damages); non-trivial: content > 0 byte, distinct damage kinds"
REQUIRED = {
    "contents": 300, "extracts": 1_000, "empty": 2, "large": 5, "overwritten": 200, "models": 150, "through_yaml": 150, "path_variant": 60, "embedded": 60, "wrong_type": 250, "hash_pairs": 150,
    "damages": 3_000, "refused": 1_500, "hash_damage": 400, "no_hash": 500, "tasks": 150, "experiments": 20, "sources_watched": 300, "cli_dest_dir": 60,
}


def snapshot(d: Path) -> dict:
    return {p.relative_to(d).as_posix(): (p.read_bytes(), p.stat().st_mtime_ns) for p in sorted(d.rglob("*")) if p.is_file()}


def oracle_decode(text: str):
    """Independent decoder: content, or None when the text can't be decoded completely."""
    import binascii

    import zstandard as zstd

    try:
        raw = base64.b64decode(text)
    except (binascii.Error, ValueError):
        return None
    try:
        dec = zstd.ZstdDecompressor().decompressobj()
        out = dec.decompress(raw)
        return out if dec.eof else None
    except (zstd.ZstdError, MemoryError):
        return None


def content(ctx: Ctx) -> bytes:
    rng = ctx.rng
    kind = rng.choice(["empty", "tiny", "tiny", "noise", "runs", "elf", "hex", "text", "large"] if ctx.index % 4 else ["elf", "tiny", "noise"])
    if ctx.index == 0 or (kind == "empty" and rng.random() < 0.5):
        ctx.count("empty")
        return b""
    if kind in ("tiny", "empty"):
        return rng.randbytes(rng.randint(1, 9))
    if kind == "noise":
        return rng.randbytes(rng.randint(10, 20_000))
    if kind == "runs":
        return b"".join(bytes([rng.getrandbits(8)]) * rng.randint(1, 3000) for _ in range(rng.randint(1, 30)))
    if kind == "elf":
        return elfgen.rand_program(rng)[0].build(rng)
    if kind == "hex":
        img = {rng.randrange(1000) * 16 + k: rng.getrandbits(8) for _ in range(9) for k in range(16)}
        return elfgen.ihex(img, rng, eol=rng.choice(["\n", "\r\n"])).encode()
    if kind == "large":
        ctx.count("large")
        return rng.randbytes(rng.randint(100, 5000)) * rng.randint(50, 200)
    return ("\r\n".join(M.free_str(rng) for _ in range(20))).encode("utf8", "surrogatepass")


def fam_content(ctx: Ctx) -> None:
    """All contents survive every converter."""
    from shepherd_core import fw_tools as ft
    from shepherd_core.data_models import FirmwareDType as T

    rng = ctx.rng
    data = content(ctx)
    src = Path("src")
    src.mkdir()
    f = src / rng.choice(["fw.elf", "fw.hex", "a b.bin", "noext", ".hidden", "x.y.z"])
    f.write_bytes(data)
    before = snapshot(src)
    text = ft.file_to_base64(f)
    ctx.count("contents")
    ctx.check(isinstance(text, str) and oracle_decode(text) == data, "embed-lossy", f"{len(data)} bytes do not come back from the embedded text")
    want = hashlib.sha3_224(data).hexdigest()
    ctx.eq(ft.file_to_hash(f), want, "hash-of-file", "file_to_hash()")
    ctx.eq(ft.base64_to_hash(text), want, "hash-of-text", "base64_to_hash()")
    out = Path("out") / rng.choice(["n", "a/b/c", ""])
    for nr, (typ, arg, suf) in enumerate(((T.base64_elf, text, ".elf"), (T.base64_hex, text, ".hex"), (T.path_elf, f, ".elf"), (T.path_hex, f.resolve(), ".hex"), (T.path_hex, f.as_posix(), ".hex"))):
        name = rng.choice(["fw", "fw.elf", "fw.hex", "other.bin", f"m{rng.randrange(9)}"])
        dst = out.joinpath(*rng.choice([(), (f"new{nr}",), (f"new{nr}", "x", "y")]), name)
        want_f = dst.with_suffix(suf)
        if rng.random() < 0.5:  # occupied
            want_f.parent.mkdir(parents=True, exist_ok=True)
            want_f.write_bytes(rng.randbytes(rng.choice([0, 5, len(data) + 50])))
            ctx.count("overwritten")
        got = ft.extract_firmware(arg, typ, dst)
        ctx.count("extracts")
        ctx.eq(Path(got), want_f, "extract-path", f"extract {typ}")
        ctx.check(want_f.read_bytes() == data, "extract-differs", f"extracted {typ} has other content ({len(want_f.read_bytes())} byte instead of {len(data)})")
    dst = out / "plain.dat"
    ft.base64_to_file(text, dst)
    ctx.check(dst.read_bytes() == data, "extract-differs", "base64_to_file() has other content")
    for fn in (ft.file_to_base64, ft.file_to_hash, ft.firmware_to_hex, ft.determine_type):
        ctx.rejects(lambda fn=fn: fn(src / "missing.elf"), "missing-accepted", f"{fn.__name__} of a missing file")
        ctx.rejects(lambda fn=fn: fn(src), "missing-accepted", f"{fn.__name__} of a directory")
    n = len(list(Path("out").rglob("*")))
    for typ in (T.path_elf, T.path_hex):
        ctx.rejects(lambda typ=typ: ft.extract_firmware(src / "missing.elf", typ, out / "never"), "missing-delivered", "extraction of a missing file")
    ctx.eq(len(list(Path("out").rglob("*"))), n, "missing-delivered", "files after extraction of a missing file")
    ctx.check(snapshot(src) == before, "source-changed", "source files were altered")
    ctx.count("sources_watched")
    ctx.seen("content", len(data), want[:8])
    ctx.sample(f"{f.name}: {len(data)} byte -> {len(text)} chars, {want[:16]}")


MCU_OF = {"msp430": "msp430fr", "arm": "nrf52"}


def program(ctx: Ctx, kind: str):
    """(content of elf, content of hex) for a controller."""
    e, _ = elfgen.rand_program(ctx.rng, kind)
    raw = e.build(ctx.rng)
    return raw, elfgen.ihex(elfgen.image(raw), ctx.rng).encode()


def fam_model(ctx: Ctx) -> None:
    """Firmware-model: embed or reference, store, reload, extract, schedule."""
    import shepherd_core.data_models as dm
    from shepherd_core.data_models import FirmwareDType as T
    from shepherd_core.data_models.task import FirmwareModTask
    from shepherd_core.data_models.task import ProgrammingTask

    rng = ctx.rng
    src = Path("src")
    src.mkdir()
    kind = rng.choice(["msp430", "arm"])
    elf, hexa = program(ctx, kind)
    while len(elfgen.image(elf)) == 0:
        elf, hexa = program(ctx, kind)
    is_hex = rng.random() < 0.5
    data = hexa if is_hex else elf
    f = src / ("fw" + rng.choice([".hex", ".ihex", ".ihx", ".HEX"] if is_hex else [".elf", ".out", ".bin", ".o", ".ELF"]))
    f.write_bytes(data)
    before = snapshot(src)
    embed = rng.random() < 0.65
    kw = dict(M.content_meta(rng))
    if rng.random() < 0.4:
        kw.pop("name", None)
    if rng.random() < 0.3:
        kw["mcu"] = {"name": MCU_OF[kind]}
    if rng.random() < 0.2:
        kw["data_type"] = T.base64_hex if is_hex else T.base64_elf
    fw = dm.Firmware.from_firmware(f.resolve() if rng.random() < 0.5 else f, embed=embed, **kw)
    ctx.count("models")
    ctx.count("embedded" if embed else "path_variant")
    want_t = {(True, True): T.base64_hex, (True, False): T.base64_elf, (False, True): T.path_hex, (False, False): T.path_elf}[embed, is_hex]
    ctx.eq(fw.data_type, want_t, "type-differs", f"type of {f.name} embed={embed}")
    if not (is_hex and kind == "arm"):
        ctx.eq(fw.mcu.name.lower(), MCU_OF[kind], "mcu-differs", f"controller of {kind}-program")
    ctx.eq(fw.data_hash, hashlib.sha3_224(data).hexdigest(), "hash-of-file", "data_hash")
    ctx.eq(fw.data_local, not embed, "local-differs", "data_local")
    chain = [("direct", fw)]
    fw.to_file("fw_meta.yaml")
    chain.append(("yaml", dm.Firmware.from_file("fw_meta.yaml")))
    if rng.random() < 0.4:
        fw.to_file("fw_min.yaml", minimal=False)
        chain.append(("yaml-full", dm.Firmware.from_file("fw_min.yaml")))
    chain.append(("dict", dm.Firmware(**fw.model_dump(exclude_unset=rng.random() < 0.5))))
    facts = M.testbed_targets()
    port = rng.choice([1, 2])
    tids = [t for t, v in facts.items() if v["mcu1"] and v[f"mcu{port}"] == fw.mcu.name.lower()]
    if embed and tids:
        # as part of an experiment, stored in a file, up to the tasks for the observers
        t = rng.choice(tids)
        tc = {"target_IDs": [t], "energy_env": {"name": "SolarSunny"}, f"firmware{port}": fw}
        if port == 2:
            tc["firmware1"] = M.kw_firmware(rng, {"name": facts[t]["mcu1"]})
        cl = M.classes()
        xp = cl["Experiment"](name="xp", target_configs=[tc])
        for k in range(2):
            sub = getattr(xp.target_configs[0], f"firmware{port}")
            chain.append((f"xp{k}", sub))
            tasks = [getattr(o, f"fw{port}_mod") for o in cl["TestbedTasks"].from_xp(xp).observer_tasks]
            ctx.check(len(tasks) == 1 and tasks[0] is not None and tasks[0].data == fw.data and tasks[0].data_type == fw.data_type, "task-differs", f"xp{k}: task of the experiment has other firmware")
            ctx.count("experiments")
            xp.to_file("xp.yaml")
            xp = cl["Experiment"].from_file("xp.yaml")
    suf = ".hex" if is_hex else ".elf"
    for how, x in chain:
        ctx.count("through_yaml", how.startswith("yaml"))
        ctx.eq((x.data_hash, x.data_type, x.mcu.name), (fw.data_hash, fw.data_type, fw.mcu.name), "reload-differs", how)
        d = Path("out") / how
        d.mkdir(parents=True)
        tgt = d if rng.random() < 0.4 else d / "name.bin"
        ctx.count("cli_dest_dir", tgt == d)
        got = x.extract_firmware(tgt)
        ctx.count("extracts")
        ctx.check(got.parent == d and got.suffix == suf, "extract-path", f"{how}: {got}")
        ctx.check(got.read_bytes() == data, "extract-differs", f"{how}: extracted firmware has other content")
        ctx.check([p.name for p in d.iterdir()] == [got.name], "extract-path", f"{how}: extraction leaves {[p.name for p in d.iterdir()]}")
        ctx.check(x.compare_hash() is True, "hash-mismatch", f"{how}: compare_hash() of the untouched firmware is False")
        ctx.check(x.compare_hash(got) is True, "hash-mismatch", f"{how}: compare_hash() of the extracted file is False")
        bad = bytearray(data)
        bad[rng.randrange(len(bad))] ^= 1 << rng.randrange(8)
        got.write_bytes(bytes(bad) if rng.random() < 0.7 else data[:-1])
        ctx.check(x.compare_hash(got) is False, "hash-blind", f"{how}: compare_hash() accepts an altered file")
        # hashes that agree in parts only
        got.write_bytes(data)
        h = x.data_hash
        k = rng.choice([1, 4, 8, 16, len(h) // 2, len(h) - 1])
        other = "".join("0123456789abcdef"[int(q, 16) ^ rng.randint(1, 15)] for q in h)
        for near in (h[:k] + other[k:], other[:-k] + h[-k:], h[:k], h + "0"):
            y = x.model_copy(update={"data_hash": near})
            ctx.check(y.compare_hash(got) is False, "hash-blind", f"{how}: compare_hash() accepts {near} for {h}")
            ctx.check(y.compare_hash() is False, "hash-blind", f"{how}: compare_hash() accepts {near} for {h}")
            ctx.count("hash_pairs")
        ctx.count("hash_pairs")
        task = FirmwareModTask.from_firmware(x, custom_id=rng.choice([None, 7]), firmware_file=Path("out"))
        ctx.count("tasks")
        ctx.check(task.data == x.data and task.data_type == x.data_type, "task-differs", f"{how}: task has other firmware")
        # the file named by the task is one the programmer takes
        dst = Path("out") / f"prog_{how}"
        dst.mkdir()
        task = FirmwareModTask.from_firmware(x, firmware_file=dst)
        ctx.check(task.firmware_file.parent == dst and task.firmware_file.suffix == ".hex", "task-path", f"{how}: {task.firmware_file}")
        ProgrammingTask(firmware_file=task.firmware_file, mcu_type="nrf52", protocol="SWD")
    ctx.check(snapshot(src) == before, "source-changed", "source files were altered")
    ctx.count("sources_watched")
    if not embed:
        # the referenced file changes or vanishes
        alt = bytearray(data)
        alt[rng.randrange(len(alt))] ^= 0x10
        f.write_bytes(bytes(alt))
        ctx.check(fw.compare_hash() is False, "hash-blind", "compare_hash() accepts an altered referenced file")
        f.unlink()
        ctx.check(fw.compare_hash() is False, "hash-blind", "compare_hash() accepts a missing referenced file")
        ctx.rejects(lambda: fw.extract_firmware(Path("out") / "gone"), "missing-delivered", "extraction of a missing firmware")
        ctx.check(not list(Path("out").glob("gone*")), "missing-delivered", "file for missing firmware")
        ctx.rejects(lambda: dm.Firmware.from_firmware(f, embed=rng.random() < 0.5), "missing-accepted", "from_firmware of missing file")
    # -- wrong types
    wrong = [("elf-as-hex", ".hex", elf), ("hex-as-elf", ".elf", hexa), ("noise-as-elf", ".elf", rng.randbytes(300)), ("noise-as-hex", ".hex", rng.randbytes(300)), ("unknown-suffix", ".zip", data),
             ("foreign-arch", ".elf", elfgen.rand_program(rng, "arm64")[0].build(rng)), ("cut-elf", ".elf", elf[: rng.randint(1, 60)]),
             ("bad-checksum", ".hex", hexa[:9] + (b"1" if hexa[9:10] != b"1" else b"2") + hexa[10:])]
    for name, suffix, dat in rng.sample(wrong, 3):
        other = src / ("other" + suffix)
        other.write_bytes(dat)
        ctx.rejects(lambda: dm.Firmware.from_firmware(other, embed=rng.random() < 0.5, name="x"), "wrong-type-accepted", name)
        ctx.check(other.read_bytes() == dat, "source-changed", f"{name}: source file was altered")
        ctx.count("wrong_type")
        other.unlink()
    ctx.seen("model", kind, is_hex, embed, len(data))
    ctx.sample(f"{kind} {f.name} embed={embed} {fw.data_hash[:12]}")


ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def damage(ctx: Ctx, text: str, alt: str) -> tuple[str, str]:
    rng = ctx.rng
    n = len(text)
    kind = rng.choice(["char", "char", "header", "cut", "cut", "drop", "insert", "foreign", "swap", "replace", "dup", "zstd-cut", "zstd-bit", "zstd-tail", "not-zstd", "empty", "unicode", "plain"])
    p = rng.randrange(n)
    if kind == "header":
        p = rng.randrange(min(n, 20))
    if kind in ("char", "header"):
        return kind, text[:p] + rng.choice(ALPHA) + text[p + 1:]
    if kind == "cut":
        q = rng.choice([p, n - 1, n - 4, 4 * (p // 4)])
        return kind, text[:max(q, 0)]
    if kind == "drop":
        q = rng.randint(1, 8)
        return kind, text[:p] + text[p + q:]
    if kind == "insert":
        return kind, text[:p] + "".join(rng.choice(ALPHA) for _ in range(rng.choice([1, 2, 4]))) + text[p:]
    if kind == "foreign":
        return kind, text[:p] + rng.choice(["-", "_", " ", "\n", "$", "é"]) + text[p + rng.randrange(2):]
    if kind == "swap":
        q = rng.randrange(n)
        p, q = min(p, q), max(p, q)
        if p == q:
            return kind, text[::-1]
        return kind, text[:p] + text[q] + text[p + 1:q] + text[p] + text[q + 1:]
    if kind == "replace":
        return kind, alt
    if kind == "dup":
        return kind, text + alt
    raw = bytearray(base64.b64decode(text))
    if kind == "zstd-cut":
        raw = raw[: rng.randrange(len(raw))]
    elif kind == "zstd-bit":
        raw[rng.randrange(len(raw))] ^= 1 << rng.randrange(8)
    elif kind == "zstd-tail":
        raw += rng.randbytes(rng.randint(1, 9))
    elif kind == "not-zstd":
        raw = bytearray(rng.randbytes(rng.randint(3, 90)))
    elif kind == "empty":
        return kind, rng.choice(["", "====", "AAAA", " "])
    elif kind == "unicode":
        return kind, M.free_str(rng) + "äß"
    else:
        return kind, rng.choice(["/etc/none.elf", "build.elf", "None", "0"])
    return kind, base64.b64encode(bytes(raw)).decode()


def fam_damage(ctx: Ctx) -> None:
    """Damaged text or hash is refused, nothing gets delivered."""
    import shepherd_core.data_models as dm
    from shepherd_core import fw_tools as ft
    from shepherd_core.data_models import FirmwareDType as T

    rng = ctx.rng
    kind = rng.choice(["msp430", "arm"])
    elf, hexa = program(ctx, kind)
    alt_elf, alt_hex = program(ctx, kind)
    is_hex = rng.random() < 0.5
    data, alt = (hexa, alt_hex) if is_hex else (elf, alt_elf)
    Path("src").mkdir()
    f = Path("src") / ("fw.hex" if is_hex else "fw.elf")
    f.write_bytes(data)
    g = Path("src") / "alt.bin"
    g.write_bytes(alt)
    if rng.random() < 0.5:
        text, alt_text = ft.file_to_base64(f), ft.file_to_base64(g)
    else:
        text, alt_text = M.fw_data(data), M.fw_data(alt)
    typ = T.base64_hex if is_hex else T.base64_elf
    hsh = hashlib.sha3_224(data).hexdigest()
    base = {"name": "fw", "owner": "o", "group": "g", "mcu": {"name": MCU_OF[kind]}, "data": text, "data_type": typ, "data_hash": hsh}
    before = snapshot(Path("src"))
    fw = dm.Firmware(**base)
    ctx.check(fw.compare_hash() is True, "hash-mismatch", "compare_hash() of intact firmware is False")
    for n in range(30):
        how, bad = damage(ctx, text, alt_text)
        ctx.count("damages")
        truth = oracle_decode(bad)
        hashed = rng.random() < 0.6
        kw = dict(base, data=bad)
        if not hashed:
            kw["data_hash"] = None
            if rng.random() < 0.5:
                kw.pop("data_hash")
            ctx.count("no_hash")
        legit = truth is not None and (truth == data or not hashed)
        # low-level first
        dst = Path("out") / f"{n}" / "fw.bin"
        if rng.random() < 0.5:
            dst.parent.mkdir(parents=True)
            for s in ("bin", "elf", "hex"):
                dst.with_suffix("." + s).write_bytes(b"previous")
        pre = snapshot(Path("out")) if Path("out").exists() else {}
        for fn in (lambda: ft.base64_to_file(bad, dst), lambda: ft.extract_firmware(bad, typ, dst)):
            try:
                fn()
            except ValueError:
                ctx.check(truth is None, "valid-refused", f"{how}: decodable text was refused")
                post = snapshot(Path("out")) if Path("out").exists() else {}
                ctx.check(pre == post, "damaged-delivered", f"{how}: failing extraction leaves/changes files: {[k for k in post if post[k] != pre.get(k)]}")
            else:
                ctx.check(truth is not None, "damaged-delivered", f"{how}: undecodable text was delivered")
                got = [p.read_bytes() for p in (dst, dst.with_suffix(".hex" if is_hex else ".elf")) if p.exists()]
                ctx.check(truth in got, "extract-differs", f"{how}: delivered content differs from the embedded one")
                pre = snapshot(Path("out"))
        try:
            x = dm.Firmware(**kw)
        except ValueError:
            ctx.count("refused")
            ctx.check(not legit or len(bad) < 3 or len(bad) > 8_000_000, "valid-refused", f"{how}: valid firmware was refused (hashed={hashed})")
            continue
        ctx.check(legit, "damaged-accepted", lambda: f"{how}: firmware with damaged data was accepted (hash given: {hashed}, decodable: {truth is not None})", detail={"text": bad, "orig": text})
        got = x.extract_firmware(Path("out") / f"x{n}")
        ctx.check(got.read_bytes() == truth, "extract-differs", f"{how}: delivered content differs from the embedded one")
    for _ in range(8):
        h = rng.choice([hsh[:-1], hsh + "0", hsh.upper() if hsh.upper() != hsh else "", hashlib.sha3_224(alt).hexdigest(), hashlib.sha256(data).hexdigest(), "", "0" * 56, hsh[::-1], " " + hsh])
        p = rng.randrange(len(hsh))
        if rng.random() < 0.3:
            h = hsh[:p] + rng.choice("0123456789abcdef") + hsh[p + 1:]
        ctx.count("hash_damage")
        if h == hsh or (alt == data):
            dm.Firmware(**dict(base, data_hash=h))
            continue
        ctx.rejects(lambda h=h: dm.Firmware(**dict(base, data_hash=h)), "hash-ignored", f"embedded data with foreign hash {h[:12]}…", (ValueError,))
    for t in ("bin", "", "ELF", "base64_elf", 3):
        ctx.rejects(lambda t=t: dm.Firmware(**dict(base, data_type=t)), "wrong-type-accepted", f"unknown data-type {t!r}", (ValueError,))
    for miss in ("data", "data_type", "mcu"):
        kw = dict(base)
        kw.pop(miss)
        ctx.rejects(lambda kw=kw: dm.Firmware(**kw), "incomplete-accepted", f"firmware without {miss}")
        kw[miss] = None
        ctx.rejects(lambda kw=kw: dm.Firmware(**kw), "incomplete-accepted", f"firmware with {miss}=None")
    # text used as a path
    for t in (T.path_elf, T.path_hex):
        ctx.rejects(lambda t=t: ft.extract_firmware(text, t, Path("out") / "asfile"), "missing-delivered", "embedded text extracted as path")
    ctx.check(not list(Path("out").glob("asfile*")), "missing-delivered", "file for missing firmware")
    ctx.check(snapshot(Path("src")) == before, "source-changed", "source files were altered")
    ctx.count("sources_watched")
    ctx.seen("damage", kind, is_hex, hsh[:8])
    ctx.sample(f"{kind} {len(data)} byte, 30 damages")


FAMILIES = {"content": Family(fam_content, 400, 6000), "model": Family(fam_model, 200, 2500), "damage": Family(fam_damage, 150, 2500)}
