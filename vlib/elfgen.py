"""Writer and (independent) parser for small ELF programs, plus intel-hex text."""
from __future__ import annotations

import random
import struct

EM = {"arm": 40, "msp430": 105, "x86": 3, "amd64": 62, "riscv": 243}


class Elf:
    """Collects segments/symbols and lays them out."""

    def __init__(self, machine: str, bits: int = 32, endian: str = "<", e_type: int = 2):
        self.machine, self.bits, self.endian, self.e_type = machine, bits, endian, e_type
        self.segs: list[dict] = []  # vaddr, paddr, data, bss
        self.syms: list[dict] = []  # name, value, size, seg
        self.entry = 0

    def seg(self, vaddr: int, data: bytes, paddr: int | None = None, bss: int = 0, name: str = "") -> int:
        self.segs.append({"vaddr": vaddr, "paddr": vaddr if paddr is None else paddr, "data": bytes(data), "bss": bss, "name": name or f".s{len(self.segs)}"})
        return len(self.segs) - 1

    def sym(self, name: str, value: int, size: int, seg: int | None, bind: int = 1, typ: int = 1, bss: bool = False) -> None:
        self.syms.append({"name": name, "value": value, "size": size, "seg": seg, "bind": bind, "typ": typ, "bss": bss})

    def build(self, rng: random.Random | None = None) -> bytes:
        en = self.endian
        w = self.bits == 64
        eh, ph, sh = (64, 56, 64) if w else (52, 32, 40)
        off = eh + ph * len(self.segs)
        blob = b""
        offs = []
        for s in self.segs:
            pad = (-(off + len(blob)) + s["vaddr"]) % 4
            blob += bytes((rng.getrandbits(8) if rng else 0xEE) for _ in range(pad))
            offs.append(off + len(blob))
            blob += s["data"]
            if rng and rng.random() < 0.5:
                blob += bytes(rng.getrandbits(8) for _ in range(rng.randint(0, 9)))
        # sections
        names = [""]
        secs = [(0,) * 10]
        seg2sec, bss2sec = {}, {}
        for k, s in enumerate(self.segs):
            if s["data"]:
                names.append(s["name"])
                seg2sec[k] = len(secs)
                secs.append((None, 1, 3, s["vaddr"], offs[k], len(s["data"]), 0, 0, 1, 0))
            if s["bss"]:
                names.append(s["name"] + "b")
                bss2sec[k] = len(secs)
                secs.append((None, 8, 3, s["vaddr"] + len(s["data"]), offs[k] + len(s["data"]), s["bss"], 0, 0, 1, 0))
        strtab = b"\0"
        local = [y for y in self.syms if y["bind"] == 0]
        glob = [y for y in self.syms if y["bind"] != 0]
        ent = 24 if w else 16
        tab = b"\0" * ent
        for y in local + glob:
            n = len(strtab)
            strtab += y["name"].encode() + b"\0"
            if y["seg"] is None:
                shn = 0xFFF1
            else:
                shn = (bss2sec if y["bss"] else seg2sec).get(y["seg"], 0xFFF1)
            info = (y["bind"] << 4) | y["typ"]
            if w:
                tab += struct.pack(en + "IBBHQQ", n, info, 0, shn, y["value"], y["size"])
            else:
                tab += struct.pack(en + "IIIBBH", n, y["value"], y["size"], info, 0, shn)
        sym_off = off + len(blob)
        blob += tab
        str_off = off + len(blob)
        blob += strtab
        names += [".symtab", ".strtab", ".shstrtab"]
        shstr = b""
        pos = []
        for n in names:
            pos.append(len(shstr))
            shstr += n.encode() + b"\0"
        shs_off = off + len(blob)
        blob += shstr
        blob += b"\0" * (-(off + len(blob)) % 8)
        n_sec = len(secs)
        secs += [(None, 2, 0, 0, sym_off, len(tab), n_sec + 1, 1 + len(local), 4, ent), (None, 3, 0, 0, str_off, len(strtab), 0, 0, 1, 0), (None, 3, 0, 0, shs_off, len(shstr), 0, 0, 1, 0)]
        sh_off = off + len(blob)
        for k, s in enumerate(secs):
            vals = (pos[k], *s[1:])
            blob += struct.pack(en + ("IIQQQQIIQQ" if w else "IIIIIIIIII"), *vals)
        ident = b"\x7fELF" + bytes([2 if w else 1, 1 if en == "<" else 2, 1, 0]) + b"\0" * 8
        hdr = ident + struct.pack(en + ("HHIQQQIHHHHHH" if w else "HHIIIIIHHHHHH"), self.e_type, EM[self.machine], 1, self.entry, eh if self.segs else 0, sh_off, 0, eh, ph, len(self.segs), sh, len(secs), len(secs) - 1)
        phs = b""
        for k, s in enumerate(self.segs):
            fs, ms = len(s["data"]), len(s["data"]) + s["bss"]
            if w:
                phs += struct.pack(en + "IIQQQQQQ", 1, 7, offs[k], s["vaddr"], s["paddr"], fs, ms, 1)
            else:
                phs += struct.pack(en + "IIIIIIII", 1, offs[k], s["vaddr"], s["paddr"], fs, ms, 7, 1)
        return hdr + phs + blob


def parse(raw: bytes) -> dict:
    """Independent reader: loadable segments and symbols."""
    w, en = raw[4] == 2, "<" if raw[5] == 1 else ">"
    f = struct.unpack_from(en + ("HHIQQQIHHHHHH" if w else "HHIIIIIHHHHHH"), raw, 16)
    e_type, machine, _, entry, phoff, shoff, _, _, phs, phn, shs, shn, _ = f
    segs = []
    for k in range(phn):
        if w:
            t, _, o, v, p, fs, ms, _ = struct.unpack_from(en + "IIQQQQQQ", raw, phoff + k * phs)
        else:
            t, o, v, p, fs, ms, _, _ = struct.unpack_from(en + "IIIIIIII", raw, phoff + k * phs)
        if t == 1:
            segs.append({"off": o, "vaddr": v, "paddr": p, "filesz": fs, "memsz": ms})
    secs = []
    for k in range(shn):
        secs.append(struct.unpack_from(en + ("IIQQQQIIQQ" if w else "IIIIIIIIII"), raw, shoff + k * shs))
    syms = []
    for s in secs:
        if s[1] != 2:
            continue
        st = secs[s[6]]
        for o in range(s[4], s[4] + s[5], s[9]):
            if w:
                n, info, _, shx, v, size = struct.unpack_from(en + "IBBHQQ", raw, o)
            else:
                n, v, size, info, _, shx = struct.unpack_from(en + "IIIBBH", raw, o)
            b = st[4] + n
            syms.append({"name": raw[b:raw.index(b"\0", b)].decode("latin1"), "value": v, "size": size, "shndx": shx, "info": info})
    return {"segs": segs, "syms": syms, "secs": secs, "machine": machine, "type": e_type, "endian": en, "entry": entry}


def file_offset(p: dict, addr: int, n: int) -> int | None:
    """Where the n bytes at this address are stored, None when not in the file."""
    for s in p["segs"]:
        if s["vaddr"] <= addr and addr + n <= s["vaddr"] + s["filesz"]:
            return s["off"] + addr - s["vaddr"]
    return None


def image(raw: bytes) -> dict:
    """physical address -> byte for all allocated sections with content."""
    p = parse(raw)
    out = {}
    for s in p["secs"]:
        if s[1] in (0, 8) or not s[2] & 2 or s[5] == 0:
            continue
        lma = s[3]
        for g in p["segs"]:
            if g["vaddr"] <= s[3] and s[3] + s[5] <= g["vaddr"] + g["memsz"] and g["off"] <= s[4] < g["off"] + max(g["filesz"], 1):
                lma = s[3] - g["vaddr"] + g["paddr"]
                break
        for k in range(s[5]):
            out[lma + k] = raw[s[4] + k]
    return out


# -- intel hex -------------------------------------------------------------------

def rec(addr: int, typ: int, data: bytes) -> str:
    b = bytes([len(data), (addr >> 8) & 255, addr & 255, typ]) + data
    return ":" + b.hex().upper() + f"{-sum(b) & 255:02X}"


def ihex(img: dict, rng: random.Random, entry: int | None = None, eol: str = "\n", bits: int = 16) -> str:
    """Write an image (address -> byte) with random record sizes."""
    out = []
    hi = 0
    addrs = sorted(img)
    k = 0
    while k < len(addrs):
        a = addrs[k]
        if a >> 16 != hi:
            hi = a >> 16
            out.append(rec(0, 4, struct.pack(">H", hi)))
        n = 1
        top = rng.choice([1, 4, 16, 16, 32, 255])
        while n < top and k + n < len(addrs) and addrs[k + n] == a + n and (a + n) >> 16 == hi:
            n += 1
        out.append(rec(a & 0xFFFF, 0, bytes(img[a + j] for j in range(n))))
        k += n
    if entry is not None:
        out.append(rec(0, 5, struct.pack(">I", entry)))
    out.append(rec(0, 1, b""))
    return eol.join(out) + eol


def parse_ihex(text: str) -> dict | None:
    """address -> byte, None when it isn't a valid hex-file."""
    img: dict = {}
    base = 0
    for line in text.splitlines():
        line = line.rstrip("\r\n")
        if not line:
            continue
        if line[0] != ":":
            return None
        try:
            b = bytes.fromhex(line[1:])
        except ValueError:
            return None
        if len(b) < 5 or len(b) != b[0] + 5 or sum(b) & 255:
            return None
        addr, typ, data = (b[1] << 8) | b[2], b[3], b[4:-1]
        if typ == 0:
            for j, v in enumerate(data):
                a = base + ((addr + j) & 0xFFFF)
                if a in img:
                    return None
                img[a] = v
        elif typ == 1:
            break
        elif typ == 2:
            base = int.from_bytes(data, "big") << 4
        elif typ == 4:
            base = int.from_bytes(data, "big") << 16
    return img


def rand_program(rng: random.Random, kind: str | None = None) -> tuple[Elf, str]:
    """Program of a controller, with id-symbol at an interesting place."""
    kind = kind or rng.choice(["msp430", "arm", "arm64", "be"])
    e = Elf({"msp430": "msp430", "arm": "arm", "arm64": "amd64", "be": "arm"}[kind], 64 if kind == "arm64" else 32, ">" if kind == "be" else "<")

    def data(n):
        return bytes(rng.getrandbits(8) for _ in range(n))

    name = rng.choice(["SHEPHERD_NODE_ID", "SHEPHERD_NODE_ID", "node_id", "x", "_cfg.0"])
    if kind == "msp430":
        a = e.seg(0x4000, data(rng.randint(8, 300)), name=".text")
        if rng.random() < 0.7:
            e.seg(0x1C00, data(rng.randint(0, 40)), paddr=0x8000, bss=rng.choice([0, 16]), name=".data")
        if rng.random() < 0.3:
            e.seg(0x10000, data(rng.randint(1, 60)), name=".upper")
        ivt = bytearray(data(rng.choice([2, 32, 96])))
        ivt[-2:] = struct.pack("<H", rng.choice([0x4000, 0x4000 + 2 * rng.randrange(4), 0xFF7E]))
        e.seg(0x10000 - len(ivt), bytes(ivt), name=".vectors")
        e.entry = 0x4000
    else:
        base = {"arm": rng.choice([0, 0x26000, 0x10000]), "arm64": 0x400000, "be": 0x8000}[kind]
        a = e.seg(base, data(rng.randint(8, 400)), name=".text")
        if rng.random() < 0.7:
            e.seg(0x20000000 if kind != "arm64" else 0x600000, data(rng.randint(0, 60)), paddr=base + 0x4000, bss=rng.choice([0, 64]), name=".data")
        if rng.random() < 0.3:
            e.seg(0x10001208 if kind != "arm64" else 0x700000, data(4), name=".uicr")
        e.entry = base
    seg = rng.choice([k for k, s in enumerate(e.segs) if len(s["data"]) >= 4])
    s = e.segs[seg]
    off = rng.choice([0, len(s["data"]) - 2, 2 * rng.randrange(len(s["data"]) // 2), rng.randrange(len(s["data"]) - 1)])
    if s["vaddr"] + off == 0:
        off = 2  # symbols at zero are undefined
    e.sym(name, s["vaddr"] + off, 2, seg)
    for k in range(rng.randint(0, 5)):  # neighbours
        e.sym(rng.choice(["a", "b", name + "X", name.lower() + "_", "main"]) + str(k), s["vaddr"] + rng.randrange(1, len(s["data"])), rng.choice([0, 1, 2, 4]), seg, bind=rng.randrange(2))
    del a
    return e, name
