"""C23 - patching changes only the node-id, conversion keeps the image, detection classifies by content.

Deciding step: generated programs (own ELF-/hex-writer, so every byte's role is known) go through the
real fw_tools; an independent reader judges which bytes changed, what the hex-image holds, and what kind
of file it is. A directory monitor watches for side effects of impossible requests.
"""
from __future__ import annotations

import struct
from pathlib import Path

from vlib import elfgen
from vlib import models as M
from vlib.core import Ctx
from vlib.core import Family

PROPERTY = "C23"
TECHNIQUE = "runtime monitoring: byte-diff monitor with independent ELF/hex reader over generated, shipped and mutated program files, exception monitor under file fuzzing"
LEVEL_NOTE = "real fw_tools (pwntools, elftools, intelhex, objcopy) on generated 32/64 bit, little/big endian programs and fuzzed files"
RULE = "case = one program file with a sequence of requests; non-trivial: program with distinct image; fuzz: distinct damage"
REQUIRED = {
    "patches": 600, "in_place": 200, "copies": 200, "sequences": 100, "impossible": 1_500, "bss": 15, "segment_end": 40, "big_endian": 30, "wide": 30, "shipped": 10, "reads": 1_000,
    "conversions": 200, "images_bytes": 20_000, "lma_differs": 30, "hex_passthrough": 50, "patched_converted": 60, "detect": 600, "msp430": 60, "nrf52": 60, "vector_bad": 60, "no_program": 100,
    "fuzzed": 500, "fuzz_calls": 5_000, "fuzz_usable": 20,
}

ASSUMPTIONS = ["fuzzed programs that claim more than 64 MB of memory are excluded (pwntools and objcopy provide that memory, which takes minutes)"]
SAMPLES = ("build_msp.elf", "build_nrf.elf")


def sample_elfs() -> list[Path]:
    import os

    repo = Path(os.environ.get("VERIF_REPO", "/repo"))
    return [p for n in SAMPLES if (p := repo / "shepherd_core/tests/fw_tools" / n).is_file()]


def snapshot(d: Path) -> dict:
    return {p.relative_to(d).as_posix(): p.read_bytes() for p in sorted(d.rglob("*")) if p.is_file()}


def diff(a: bytes, b: bytes) -> list[int]:
    return [] if a == b else ([k for k in range(len(a)) if a[k] != b[k]] if len(a) == len(b) else [-1])


def order(p: dict) -> str:
    return "little" if p["endian"] == "<" else "big"


def impossible(ctx: Ctx, call, key: str, what: str, errors=(ValueError, TypeError)) -> None:
    """Request must change nothing and must not report success."""
    ctx.count("impossible")
    before = snapshot(Path("."))
    try:
        res = call()
    except errors:
        ctx.count("rejections")
    else:
        ctx.check(res is None or res is False, key, lambda: f"{what}: reported success ({res!r})")
    after = snapshot(Path("."))
    ctx.check(after == before, "impossible-changed", lambda: f"{what}: files changed: {[k for k in {*after, *before} if after.get(k) != before.get(k)]}")


def fam_patch(ctx: Ctx) -> None:
    """Requests to set the identifier."""
    from shepherd_core import fw_tools as ft

    rng = ctx.rng
    samples = sample_elfs()
    if ctx.index % 20 == 0 and samples:
        src = rng.choice(samples)
        raw, name = src.read_bytes(), "SHEPHERD_NODE_ID"
        ctx.count("shipped")
    else:
        e, name = elfgen.rand_program(rng)
        if rng.random() < 0.5:  # neighbour directly behind
            y = e.syms[0]
            e.sym("behind", y["value"] + 2, 2, y["seg"])
        raw = e.build(rng)
    p = elfgen.parse(raw)
    ctx.count("big_endian", p["endian"] == ">")
    ctx.count("wide", raw[4] == 2)
    sym = {y["name"]: y["value"] for y in p["syms"] if y["name"]}
    addr = sym[name]
    off = elfgen.file_offset(p, addr, 2)
    assert off is not None
    f = Path(rng.choice(["fw.elf", "fw", "a.b.elf", "my fw.out"]))
    f.write_bytes(raw)
    cur = raw
    want = int.from_bytes(raw[off:off + 2], order(p))
    n_seq = rng.choice([1, 2, 3, 5])
    ctx.count("sequences", n_seq > 1)
    for _ in range(n_seq):
        ctx.check(ft.find_symbol(f, name) is True, "symbol-missed", f"find_symbol({name!r}) @ {addr:#x}")
        ctx.eq(ft.read_symbol(f, name, 2), want, "read-differs", f"value of {name} @ {addr:#x}")
        ctx.count("reads")
        if name == "SHEPHERD_NODE_ID":
            ctx.eq(ft.read_uid(f), want, "read-differs", f"uid @ {addr:#x}")
        v = rng.choice([0, 1, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, rng.getrandbits(16), rng.getrandbits(16), want])
        mode = rng.choice(["in", "copy", "uid"])
        exp = bytearray(cur)
        exp[off:off + 2] = v.to_bytes(2, order(p))
        names = {q.name for q in Path().iterdir()}
        if mode == "uid" and name == "SHEPHERD_NODE_ID":
            res, tgt = ft.modify_uid(f, v), f
        elif mode == "copy":
            tgt = f.with_name(f"{f.stem}_{v}{f.suffix}")
            if rng.random() < 0.3:
                tgt.write_bytes(b"x" * rng.choice([3, len(raw) + 99]))  # leftover
                names.add(tgt.name)
            res = ft.modify_symbol_value(f, name, v)
        else:
            res, tgt = ft.modify_symbol_value(f, name, v, overwrite=True), f
        ctx.count("patches")
        ctx.count("copies" if tgt != f else "in_place")
        ctx.check(res is not None and Path(res) == tgt, "patch-refused", f"setting {name} @ {addr:#x} to {v}: returned {res}")
        got = tgt.read_bytes()
        ctx.check(got == bytes(exp), "patch-differs", lambda: f"setting {name} to {v:#x} @ file-offset {off}: changed offsets {diff(cur, got)[:12]}, value bytes {got[off:off + 2].hex()}")
        ctx.check({q.name for q in Path().iterdir()} - names <= {tgt.name}, "patch-side-effect", "unexpected files appeared")
        if tgt != f:
            ctx.check(f.read_bytes() == cur, "source-changed", "source of the copy was changed")
            if rng.random() < 0.5:
                f = tgt
                cur, want = got, v
        else:
            cur, want = got, v
        ctx.eq(ft.read_symbol(tgt, name, 2), v, "read-differs", f"value of {name} after patch")
        ctx.count("reads")
    others = [n for n in sym if n != name and sym[n] and elfgen.file_offset(p, sym[n], 2) is not None and [y["name"] for y in p["syms"]].count(n) == 1]
    others = [n for n in others if next(y["info"] & 15 for y in p["syms"] if y["name"] == n) == 1]
    for n in rng.sample(others, min(2, len(others))):
        ln = rng.choice([1, 2])
        o = elfgen.file_offset(p, sym[n], ln)
        ctx.eq(ft.read_symbol(f, n, ln), int.from_bytes(cur[o:o + ln], order(p)), "read-differs", f"value of {n}")
        ctx.count("reads")
    # -- impossible ones
    for n in (name[:-1], name + "_", name.swapcase() if name.swapcase() != name else "zz", "nope", ".text"):
        if n in sym:
            continue
        impossible(ctx, lambda n=n: ft.modify_symbol_value(f, n, 5, overwrite=rng.random() < 0.5), "unknown-patched", f"unknown symbol {n!r}")
        ctx.check(ft.find_symbol(f, n) is False and ft.read_symbol(f, n) is None, "unknown-found", f"unknown symbol {n!r}")
    for v in (-1, 65536, 2**32 + 3, 1.5, "abc", None, float("nan")):
        if rng.random() < 0.6:
            impossible(ctx, lambda v=v: ft.modify_symbol_value(f, name, v, overwrite=rng.random() < 0.5), "range-patched", f"value {v!r}")
    impossible(ctx, lambda: ft.modify_symbol_value(Path("missing.elf"), name, 5, overwrite=True), "missing-patched", "missing file")
    for n, dat in (("t.hex", elfgen.ihex(elfgen.image(raw), rng).encode()), ("t.elf", rng.randbytes(99)), ("t2.elf", b"")):
        Path(n).write_bytes(dat)
        impossible(ctx, lambda n=n: ft.modify_symbol_value(Path(n), name, 5, overwrite=True), "no-program-patched", n)
        ctx.check(ft.find_symbol(Path(n), name) is False and ft.read_symbol(Path(n), name) is None and ft.read_uid(Path(n)) is None and ft.read_arch(Path(n)) is None, "no-program-read", n)
    ctx.seen("patch", raw[:64], addr, len(raw))
    ctx.sample(f"{p['machine']} {'wide' if raw[4] == 2 else '32'} {p['endian']} {name}@{addr:#x} (file {off}) {n_seq} patches")


def fam_odd(ctx: Ctx) -> None:
    """Symbols without storage for two bytes in the file."""
    from shepherd_core import fw_tools as ft

    rng = ctx.rng
    e = elfgen.Elf(rng.choice(["arm", "msp430"]))
    n = rng.randint(4, 60)
    bss = rng.choice([0, 6, 6, 40])
    e.seg(0x4000, rng.randbytes(n), name=".text")
    e.seg(0x8000, rng.randbytes(rng.randint(4, 50)), bss=bss, name=".data")
    last = e.segs[1]
    if rng.random() < 0.5:
        e.seg(last["vaddr"] + 4096, rng.randbytes(8), name=".more")
    end = last["vaddr"] + len(last["data"])
    kind = rng.choice(["end", "end", "bss", "bss", "abs", "outside"])
    if kind == "bss" and not bss:
        kind = "end"
    if kind == "end":
        s = rng.choice(e.segs)
        e.sym("node", s["vaddr"] + len(s["data"]) - 1, rng.choice([1, 2]), e.segs.index(s))
        ctx.count("segment_end")
    elif kind == "bss":
        e.sym("node", end + rng.randrange(bss - 2), 2, 1, bss=True)
        ctx.count("bss")
    elif kind == "abs":
        e.sym("node", rng.choice([1, 0x77777, 0xFFFFFFFF]), 0, None, typ=0)
    else:
        e.sym("node", end + bss + rng.choice([0, 1, 2**20]), 2, 1)
    e.sym("other", 0x4000, 2, 0)
    raw = e.build(rng)
    f = Path("fw.elf")
    f.write_bytes(raw)
    impossible(ctx, lambda: ft.modify_symbol_value(f, "node", rng.getrandbits(16), overwrite=rng.random() < 0.7), "storage-patched", f"symbol without (complete) storage in the file: {kind}")
    got = ft.read_symbol(f, "node", 2)
    ctx.check(got is None or isinstance(got, int), "read-differs", f"read {got!r}")
    ctx.check(f.read_bytes() == raw, "impossible-changed", "reading changed the file")
    p = elfgen.parse(raw)
    off = elfgen.file_offset(p, 0x4000, 2)
    v = rng.getrandbits(16)
    ft.modify_symbol_value(f, "other", v, overwrite=True)
    exp = bytearray(raw)
    exp[off:off + 2] = v.to_bytes(2, "little")
    ctx.check(f.read_bytes() == bytes(exp), "patch-differs", f"other symbol, changed offsets {diff(raw, f.read_bytes())[:9]}")
    ctx.count("patches")
    ctx.count("in_place")
    ctx.seen("odd", kind, n, bss, len(raw))


def fam_convert(ctx: Ctx) -> None:
    """Program -> hex keeps the image."""
    from shepherd_core import fw_tools as ft

    rng = ctx.rng
    samples = sample_elfs()
    e, name = elfgen.rand_program(rng)
    raw = e.build(rng)
    shipped = ctx.index % 20 == 0 and samples
    if shipped:
        raw, name = rng.choice(samples).read_bytes(), "SHEPHERD_NODE_ID"
        ctx.count("shipped")
    p = elfgen.parse(raw)
    img = elfgen.image(raw)
    ctx.count("lma_differs", any(s["paddr"] != s["vaddr"] and s["filesz"] for s in p["segs"]))
    Path("src").mkdir()
    f = Path("src/fw.elf")
    f.write_bytes(raw)
    how = rng.choice(["default", "explicit", "generic"])
    if how == "explicit":
        out = Path(rng.choice(["o.hex", "src/o.ihex"]))
        if rng.random() < 0.4:
            out.write_text(":00000001FF\n" * 99)
        res = ft.elf_to_hex(f, out)
    else:
        out = Path("src/fw.hex").resolve()
        if rng.random() < 0.4:
            out.write_text("leftover")
        res = ft.elf_to_hex(f) if how == "default" else ft.firmware_to_hex(f)
    ctx.count("conversions")
    ctx.check(Path(res) == out and out.is_file(), "convert-path", f"{how}: {res}")
    got = elfgen.parse_ihex(out.read_text())
    ctx.check(got is not None, "hex-invalid", f"{how}: output is no valid hex-file")
    ctx.check(got == img, "image-differs", lambda: f"{how}: image of {len(got)} byte instead of {len(img)}, first difference {[(hex(a), got.get(a), img.get(a)) for a in sorted({*got, *img}) if got.get(a) != img.get(a)][:4]}")
    ctx.count("images_bytes", len(img))
    ctx.check(f.read_bytes() == raw, "source-changed", "conversion changed the program")
    # hex-files are handed through
    h = Path("src/direct.hex")
    txt = elfgen.ihex(img, rng, eol=rng.choice(["\n", "\r\n"]))
    h.write_bytes(txt.encode())
    ctx.check(ft.firmware_to_hex(h) == h and h.read_bytes() == txt.encode(), "hex-passthrough", "hex-file was not handed through")
    ctx.count("hex_passthrough")
    for n, dat in (("n.elf", rng.randbytes(80)), ("n.hex", b":0x"), ("n.bin", b"\x7fELF")):
        q = Path("src") / n
        q.write_bytes(dat)
        impossible(ctx, lambda q=q: ft.firmware_to_hex(q), "no-program-converted", n, (FileNotFoundError, ValueError, RuntimeError))
    # patched program
    addr = next(y["value"] for y in p["syms"] if y["name"] == name)
    v = rng.getrandbits(16)
    g = ft.modify_symbol_value(f, name, v, overwrite=False)
    got2 = elfgen.parse_ihex(ft.elf_to_hex(g, Path("patched.hex")).read_text())
    off = elfgen.file_offset(p, addr, 2)
    exp = bytearray(raw)
    exp[off:off + 2] = v.to_bytes(2, order(p))
    ctx.check(got2 == elfgen.image(bytes(exp)), "image-differs", f"hex of the patched program ({name}={v:#x}) differs in other bytes than the id")
    ctx.count("patched_converted")
    ctx.seen("convert", len(raw), len(img), sorted(img)[:1], how)
    ctx.sample(f"{how} {len(img)} byte in {len(p['segs'])} segments")


def fam_detect(ctx: Ctx) -> None:
    """Type and architecture by content."""
    from shepherd_core import fw_tools as ft
    from shepherd_core.data_models import FirmwareDType as T

    rng = ctx.rng
    kind = rng.choice(["msp430", "arm", "msp430-vector", "msp430-shift", "msp430-half"])
    e, _ = elfgen.rand_program(rng, "arm" if kind == "arm" else "msp430")
    arch = "nrf52" if kind == "arm" else "msp430"
    ivt = next((s for s in e.segs if s["name"] == ".vectors"), None)
    if kind == "msp430-vector":
        v = rng.choice([0, 0x3FFF, 0xFF80, 0xFFFF, 0xFFFE, rng.randrange(0x4000), rng.randrange(0xFF80, 0x10000)])
        ivt["data"] = ivt["data"][:-2] + struct.pack("<H", v)
        arch = None
        ctx.count("vector_bad")
    elif kind == "msp430-shift":
        e.segs[0]["vaddr"] = e.segs[0]["paddr"] = rng.choice([0x4002, 0x4400, 0x3FFE, 0x8100])
        arch = None
        ctx.count("vector_bad")
    elif kind == "msp430-half":
        # reset-vector not (completely) part of the image
        cut = rng.choice([1, 2])
        ivt["data"] = b"\x55" * 8 if cut == 1 else b"\x55" * 7
        ivt["vaddr"] = ivt["paddr"] = 0xFFFE - 7 if cut == 1 else 0xFFFE - 7
        e.segs = [s for s in e.segs if s["name"] != ".upper"]
        if cut == 1:
            assert ivt["vaddr"] + len(ivt["data"]) == 0xFFFF
        arch = None
        ctx.count("vector_bad")
    e.syms = []
    raw = e.build(rng)
    img = elfgen.image(raw)
    hexa = elfgen.ihex(img, rng, entry=rng.choice([None, e.entry]), eol=rng.choice(["\n", "\r\n"])).encode()
    sub = [("elf", raw), ("hex", hexa)]
    for typ, dat in sub:
        f = Path(rng.choice(["x.elf", "x.hex", "x", "x.bin"]))
        f.write_bytes(dat)
        ctx.count("detect")
        ctx.check(ft.is_elf(f) is (typ == "elf"), "type-wrong", f"is_elf() of {typ} named {f.name}")
        ctx.check(ft.is_hex(f) is (typ == "hex"), "type-wrong", f"is_hex() of {typ} named {f.name}")
        ctx.eq(ft.determine_type(f), T.path_elf if typ == "elf" else T.path_hex, "type-wrong", f"determine_type() of {typ}")
        msp = {"elf": ft.is_elf_msp430, "hex": ft.is_hex_msp430}
        nrf = {"elf": ft.is_elf_nrf52, "hex": ft.is_hex_nrf52}
        other = "hex" if typ == "elf" else "elf"
        ctx.check(msp[typ](f) is (arch == "msp430"), "arch-wrong", f"msp430-check of {typ}: {msp[typ](f)} for {kind}")
        ctx.check(msp[other](f) is False and nrf[other](f) is False, "arch-wrong", f"{other}-check accepts {typ}")
        if arch is not None:
            ctx.eq(ft.determine_arch(f), arch, "arch-wrong", f"determine_arch() of {typ}")
            ctx.count(arch)
        else:
            ctx.check(ft.determine_arch(f) != "msp430", "arch-wrong", f"determine_arch() of {typ} for {kind}")
        if arch == "nrf52":
            ctx.check(nrf[typ](f) is True, "arch-wrong", f"nrf52-check of {typ}")
        ctx.eq(ft.read_arch(f), None if typ == "hex" else ("arm" if kind == "arm" else "em_msp430"), "arch-wrong", f"read_arch() of {typ}")
        ctx.check(f.read_bytes() == dat, "source-changed", "detection changed the file")
    e.e_type = rng.choice([1, 3])
    Path("o.elf").write_bytes(e.build(rng) if e.e_type == 3 else raw[:16] + struct.pack("<H", 1) + raw[18:])
    if ft.is_elf(Path("o.elf")):
        ctx.check(ft.read_arch(Path("o.elf")) is None, "arch-wrong", "arch of a program that isn't executable")
    # neither
    line = hexa.splitlines()
    k = rng.randrange(len(line))
    bad = bytearray(line[k])
    pos = rng.randrange(1, len(bad))
    bad[pos] = ord("0") if bad[pos:pos + 1] != b"0" else ord("1")
    no = [("noise", bytes([rng.choice([0, 1, 0x80, 0xC3])]) + rng.randbytes(rng.randint(1, 200))), ("text", b"hello\n"), ("checksum", b"\n".join([*line[:k], bytes(bad), *line[k + 1:]]) + b"\n"), ("magic", bytes([0x7E]) + raw[1:]),
          ("cut-line", hexa[: len(line[0]) - 1]), ("overlap", line[0] + b"\n" + b"\n".join(next(([x, x] for x in line if x[7:9] == b"00"), [b":zz"]))), ("cut-elf", raw[: rng.randint(4, 50)]), ("no-hex-digit", line[0][:-1] + b"g\n")]
    for name, dat in rng.sample(no, 4):
        if name == "checksum" and elfgen.parse_ihex(dat.decode()) is not None:
            continue
        f = Path("n." + rng.choice(["elf", "hex", "bin"]))
        f.write_bytes(dat)
        ctx.count("no_program")
        for fn in (ft.is_elf, ft.is_hex, ft.is_elf_msp430, ft.is_elf_nrf52, ft.is_hex_msp430, ft.is_hex_nrf52):
            ctx.check(fn(f) is False, "no-program-accepted", lambda fn=fn, name=name: f"{fn.__name__}() accepts {name}")
        ctx.rejects(lambda: ft.determine_type(f), "no-program-accepted", f"determine_type() of {name}", (ValueError,))
        ctx.rejects(lambda: ft.determine_arch(f), "no-program-accepted", f"determine_arch() of {name}", (ValueError,))
    ctx.seen("detect", kind, len(raw), hexa[:40])


def mutate(ctx: Ctx, raw: bytes) -> bytes:
    rng = ctx.rng
    b = bytearray(raw)
    for _ in range(rng.choice([1, 1, 2, 5])):
        k = rng.choice(["bit", "head", "table", "cut", "field", "splice", "zero", "dup"])
        n = len(b)
        if n < 8:
            break
        if k == "bit":
            b[rng.randrange(n)] ^= 1 << rng.randrange(8)
        elif k == "head":
            b[rng.randrange(min(n, 64))] = rng.choice([0, 1, 0x7F, 0x80, 0xFF, rng.getrandbits(8)])
        elif k == "table":
            b[rng.randrange(n - n // 3, n)] = rng.choice([0, 1, 0x7F, 0x80, 0xFF, rng.getrandbits(8)])
        elif k == "cut":
            del b[rng.choice([rng.randrange(n), n - 1, 52, 16]):]
        elif k == "field":
            o = rng.randrange(0, n - 3) & ~3
            b[o:o + 4] = struct.pack("<I", rng.choice([0, 1, 0x7FFFFFFF, 0xFFFFFFFF, n, n - 1, rng.getrandbits(12)]))
        elif k == "splice":
            o, q, ln = rng.randrange(n), rng.randrange(n), rng.randint(1, 40)
            b[o:o + ln] = b[q:q + ln]
        elif k == "zero":
            o = rng.randrange(n)
            ln = rng.randint(1, 60)
            b[o:o + ln] = bytes(len(b[o:o + ln]))
        else:
            o = rng.randrange(n)
            b[o:o] = b[o:o + rng.randint(1, 20)]
    return bytes(b)


def gigantic(raw: bytes) -> bool:
    """Claims a memory of more than 64 MB, pwntools and objcopy would try to provide that."""
    if raw[:4] != b"\x7fELF" or len(raw) < 64:
        return False
    big = 2**26
    w, en = raw[4] == 2, "<" if raw[5] == 1 else ">"
    phoff, shoff = struct.unpack_from(en + ("QQ" if w else "II"), raw, 32 if w else 28)
    phs, phn, shs, shn = struct.unpack_from(en + "HHHH", raw, 54 if w else 42)
    for k in range(phn):
        o = phoff + k * phs
        if o + (56 if w else 32) > len(raw):
            break
        if max(struct.unpack_from(en + ("QQ" if w else "II"), raw, o + (32 if w else 16))) > big:
            return True
    for k in range(shn):
        o = shoff + k * shs
        if o + (64 if w else 40) > len(raw):
            break
        if struct.unpack_from(en + ("Q" if w else "I"), raw, o + (32 if w else 20))[0] > big:
            return True
    return False


def fam_fuzz(ctx: Ctx) -> None:
    """No file makes detection, reading or patching raise or destroy something."""
    import resource

    from shepherd_core import fw_tools as ft
    from shepherd_core.data_models import FirmwareDType as T

    resource.setrlimit(resource.RLIMIT_FSIZE, (200_000_000, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
    rng = ctx.rng
    for _ in range(4):
        what = rng.choice(["elf", "elf", "elf", "hex", "hex", "noise", "text"])
        name = "SHEPHERD_NODE_ID"
        if what == "elf":
            e, name = elfgen.rand_program(rng)
            dat = mutate(ctx, e.build(rng))
            while gigantic(dat):
                dat = mutate(ctx, e.build(rng))
        elif what == "hex":
            e, _ = elfgen.rand_program(rng, rng.choice(["msp430", "arm"]))
            dat = mutate(ctx, elfgen.ihex(elfgen.image(e.build(rng)), rng).encode())
        elif what == "noise":
            dat = rng.choice([b"", b"\x7fELF", b":", b":00000001FF\n"]) + rng.randbytes(rng.choice([0, 1, 12, 60, 500]))
        else:
            dat = rng.choice(["", ":", ":00", "\n:", " :00000001FF"]).encode() + M.free_str(rng).encode("utf8", "surrogatepass")
        f = Path("f." + rng.choice(["elf", "hex", "bin"]))
        f.write_bytes(dat)
        ctx.count("fuzzed")
        for fn in (ft.is_elf, ft.is_hex, ft.is_elf_msp430, ft.is_elf_nrf52, ft.is_hex_msp430, ft.is_hex_nrf52):
            r = fn(f)
            ctx.count("fuzz_calls")
            ctx.check(isinstance(r, bool), "detect-result", lambda fn=fn, r=r: f"{fn.__name__}() returned {r!r}")
        for fn, ok in ((ft.determine_type, (T.path_hex, T.path_elf)), (ft.determine_arch, ("msp430", "nrf52"))):
            ctx.count("fuzz_calls")
            try:
                r = fn(f)
            except ValueError:
                r = None
            ctx.check(r is None or r in ok, "detect-result", lambda fn=fn, r=r: f"{fn.__name__}() returned {r!r}")
        usable = ft.is_elf(f)
        ctx.count("fuzz_usable", usable)
        r = ft.find_symbol(f, name)
        ctx.check(isinstance(r, bool) and (usable or not r), "detect-result", f"find_symbol() returned {r!r}")
        r = ft.read_symbol(f, name)
        ctx.check(r is None or isinstance(r, int), "detect-result", f"read_symbol() returned {r!r}")
        ft.read_uid(f)
        ft.read_arch(f)
        ctx.count("fuzz_calls", 4)
        ctx.check(f.read_bytes() == dat and [q.name for q in Path().iterdir()] == [f.name], "source-changed", "inspection changed or created files")
        v = rng.getrandbits(16)
        r = ft.modify_symbol_value(f, name, v, overwrite=True)
        now = f.read_bytes()
        ctx.count("fuzz_calls")
        if r is None:
            ctx.check(now == dat, "impossible-changed", "refused patch changed the file")
        else:
            d = diff(dat, now)
            ctx.check(len(now) == len(dat) and (not d or (d[0] >= 0 and d[-1] - d[0] <= 1)), "patch-differs", f"patched damaged program: changed offsets {d[:10]}")
            # an overlap of two segments makes the address ambiguous
        f.unlink()
        ctx.seen("fuzz", dat)


FAMILIES = {"patch": Family(fam_patch, 260, 3500), "odd": Family(fam_odd, 240, 2500), "convert": Family(fam_convert, 220, 3500), "detect": Family(fam_detect, 330, 4000), "fuzz": Family(fam_fuzz, 250, 6000)}
