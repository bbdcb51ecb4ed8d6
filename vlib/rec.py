"""Helpers around recordings: independent (plain h5py) views and generators."""
from __future__ import annotations

import hashlib
from pathlib import Path

import h5py
import numpy as np

BUF = 10_000
U32 = 2**32


def file_hash(path: Path) -> str:
    return hashlib.sha256(Path(path).read_bytes()).hexdigest()


def dir_state(root: Path) -> dict:
    """Content identity of every file below root."""
    out = {}
    for p in sorted(Path(root).rglob("*")):
        if p.is_file():
            out[str(p.relative_to(root))] = (file_hash(p), p.stat().st_mtime_ns)
        elif p.is_dir():
            out[str(p.relative_to(root)) + "/"] = None
    return out


def _attr(v):
    if isinstance(v, np.ndarray):
        return ("arr", v.tolist())
    if isinstance(v, bytes):
        return v
    if hasattr(v, "item"):
        return v.item()
    return v


def h5_tree(path: Path, *, data: bool = True) -> dict:
    """Complete content of a HDF5 file read without the library."""
    out: dict = {}
    with h5py.File(path, "r") as f:
        out["/"] = {"attrs": {k: _attr(v) for k, v in f.attrs.items()}}

        def visit(name, obj):
            ent: dict = {"attrs": {k: _attr(v) for k, v in obj.attrs.items()}}
            if isinstance(obj, h5py.Dataset):
                ent["dtype"] = str(obj.dtype)
                ent["shape"] = obj.shape
                ent["compression"] = obj.compression
                if data:
                    arr = obj[()]
                    ent["data"] = arr.tolist() if arr.dtype.kind == "O" else hashlib.sha256(arr.tobytes()).hexdigest()
            out["/" + name] = ent

        f.visititems(visit)
    return out


def h5_data(path: Path) -> dict:
    with h5py.File(path, "r") as f:
        return {k: f["data"][k][()] for k in ("time", "voltage", "current")}


def rand_u32(npr, n: int) -> np.ndarray:
    """Values over the whole 32-bit range with emphasis on the edges."""
    mode = npr.integers(0, 4)
    if mode == 0:
        v = npr.integers(0, U32, n, dtype=np.uint64)
    elif mode == 1:
        v = npr.choice(np.array([0, 1, 2**31 - 1, 2**31, U32 - 2, U32 - 1], dtype=np.uint64), n)
    elif mode == 2:
        v = (npr.integers(0, 2**20, n, dtype=np.uint64) << 3) + 7
    else:
        v = (np.arange(n, dtype=np.uint64) * 7919 + int(npr.integers(0, U32))) % U32
    return v.astype(np.uint32)


def rand_len(rng) -> int:
    k = rng.random()
    if k < 0.08:
        return 0
    if k < 0.16:
        return 1
    if k < 0.45:
        return rng.choice([9_999, 10_000, 10_000, 10_001, 20_000, 5_000])
    if k < 0.8:
        return rng.randint(2, 3000)
    return rng.randint(3000, 26_000)


def raw_h5(path: Path, *, t, v, c, mode="harvester", datatype="ivsample", window=0, gains=(1e-9, 3e-9, 250e-12),
           offsets=(0.0, 0.0, 0.0), hostname="gen", config=None, compression="lzf") -> Path:
    """Well-formed recording written without the library (time, voltage, current)."""
    with h5py.File(path, "w") as f:
        f.attrs["mode"] = mode
        if hostname is not None:
            f.attrs["hostname"] = hostname
        g = f.create_group("data")
        g.attrs["window_samples"] = window
        g.attrs["datatype"] = datatype
        for name, arr, dt, gn, of in (("time", t, "u8", gains[0], offsets[0]), ("voltage", v, "u4", gains[1], offsets[1]),
                                      ("current", c, "u4", gains[2], offsets[2])):
            d = g.create_dataset(name, data=np.asarray(arr, dtype=dt), maxshape=(None,), chunks=(BUF,), compression=compression)
            d.attrs["gain"] = gn
            d.attrs["offset"] = of
            d.attrs["unit"] = {"time": "s", "voltage": "V", "current": "A"}[name]
        if config is not None:
            f.attrs["config"] = config
    return path


def iv_arrays(npr, n: int, *, t0: int = 1_650_000_000_000_000_000, dt: int = 10_000, kind: str = "rand"):
    t = (np.uint64(t0) + np.arange(n, dtype=np.uint64) * np.uint64(dt)).astype(np.uint64)
    if kind == "const":
        v = np.full(n, int(npr.integers(10**8, 10**9)), np.uint32)
        c = np.full(n, int(npr.integers(10**6, 10**8)), np.uint32)
    elif kind == "sine":
        x = np.arange(n) / max(n, 1)
        v = (1e9 + 4e8 * np.sin(2 * np.pi * x * int(npr.integers(1, 4)))).astype(np.uint32)
        c = (4e7 + 3e7 * np.cos(2 * np.pi * x * int(npr.integers(1, 4)))).astype(np.uint32)
    else:
        v = npr.integers(0, 2 * 10**9, n).astype(np.uint32)
        c = npr.integers(0, 2 * 10**8, n).astype(np.uint32)
    return t, v, c


def add_gpio(path: Path, times, values, names: dict[int, str]) -> None:
    import yaml

    with h5py.File(path, "a") as f:
        g = f.create_group("gpio")
        d = g.create_dataset("time", data=np.asarray(times, dtype="u8"), maxshape=(None,), chunks=True if len(times) else (10_000,))
        d.attrs["unit"] = "s"
        d.attrs["gain"] = 1e-9
        d.attrs["offset"] = 0.0
        d = g.create_dataset("value", data=np.asarray(values, dtype="u2"), maxshape=(None,), chunks=True if len(times) else (10_000,))
        d.attrs["unit"] = "n"
        d.attrs["description"] = yaml.safe_dump(
            {k: {"name": n, "pin": f"P8_{k}"} for k, n in names.items()}, default_flow_style=False, sort_keys=False)


def add_log(path: Path, group: str, times, messages, levels=None) -> None:
    with h5py.File(path, "a") as f:
        g = f.create_group(group)
        g.create_dataset("time", data=np.asarray(times, dtype="u8"), maxshape=(None,), chunks=True if len(times) else (100,))
        g["time"].attrs["unit"] = "ns"
        g.create_dataset("message", data=np.asarray(messages, dtype=object) if len(messages) else np.zeros(0, dtype=object),
                         dtype=h5py.special_dtype(vlen=str), maxshape=(None,), chunks=True if len(messages) else (100,))
        g["message"].attrs["description"] = "log messages"
        if levels is not None:
            g.create_dataset("level", data=np.asarray(levels, dtype="u1"), maxshape=(None,), chunks=True if len(levels) else (100,))
            g["level"].attrs["description"] = "severity"


def add_table(path: Path, group: str, times, columns: dict, *, gains=None, offsets=None) -> None:
    """Numeric side channel (like ptp, sys_util); columns may be one- or two-dimensional."""
    with h5py.File(path, "a") as f:
        g = f.create_group(group)
        g.create_dataset("time", data=np.asarray(times, dtype="u8"))
        g["time"].attrs["description"] = "system time [s]"
        for name, arr in columns.items():
            d = g.create_dataset(name, data=arr)
            k = arr.shape[1] if arr.ndim > 1 else 1
            d.attrs["description"] = ", ".join([f"{name}{i} [n]" for i in range(k)])
            if gains and name in gains:
                d.attrs["gain"] = gains[name]
            if offsets and name in offsets:
                d.attrs["offset"] = offsets[name]


def rich_h5(path: Path, rng, npr, *, n: int | None = None, **kw) -> Path:
    """Emulator-like recording with gpio trace, logs and side channels."""
    n = n or rng.choice([20_000, 30_000, 120_000])
    t, v, c = iv_arrays(npr, n, kind=rng.choice(["rand", "const", "sine"]))
    kw.setdefault("mode", rng.choice(["harvester", "emulator"]))
    raw_h5(path, t=t, v=v, c=c, **kw)
    t0 = int(t[0])
    k = rng.randint(1, 60)
    add_gpio(path, t0 + np.cumsum(npr.integers(1, 10**6, k)), npr.integers(0, 16, k),
             {0: "tgt_io0", 1: "tgt_io1", 2: "swd", 3: "uart"})
    m = rng.randint(0, 12)
    add_log(path, "sheep", t0 + np.arange(m) * 1000, [f"msg {i} äß" for i in range(m)], npr.choice([10, 20, 30, 40, 50], m))
    m = rng.randint(0, 5)
    add_log(path, "uart", t0 + np.arange(m) * 10**9, [f"line {i}" for i in range(m)])
    m = rng.randint(0, 5)
    add_table(path, "ptp", t0 + np.arange(m) * 10**9, {"values": npr.integers(-50, 50, (m, 3))})
    return path
