"""C30: user accounts, their secrets and the rules for content that others can see."""
from __future__ import annotations

import base64
import hashlib
import io
import json
import logging
import os
import random
import subprocess
import sys
import time
from uuid import UUID

import numpy as np

from vlib import models as M
from vlib.core import SRC_CORE
from vlib.core import Ctx
from vlib.core import Family

PROPERTY = "C30"
TECHNIQUE = "runtime monitoring of user accounts: every text the library emits for an account is searched for its secrets, tokens and hashes are compared across accounts, processes and reseeded generators"
LEVEL_NOTE = "Accounts with planted secrets run through every textual output (also logging and traceback-free dumps); tokens of hundreds of accounts, several processes and reseeded random-generators are compared; password-hashes are compared and their cost measured in CPU-time."
RULE = "A case builds accounts, hashes passwords or publishes content. Signature: given fields, kind of secret, kind of fault, model."
REQUIRED = {"accounts": 400, "tokens_fresh": 200, "tokens_given": 60, "secrets_searched": 1500, "reseeded": 40, "processes": 4, "hashes": 12, "near_pairs": 9, "hash_cost": 4,
            "bad_accounts": 150, "bad_passwords": 20, "content": 150, "published": 60, "unpublishable": 30}
ASSUMPTIONS = ["a hash may cost down to a fourth of the promised million rounds before it counts as too cheap (noise of CPU-time)"]

ALNUM = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def secret(rng, n: int = 40) -> str:
    return "".join(rng.choice(ALNUM) for _ in range(n))


def kw_user(rng) -> dict:
    d = {"name": M.name_str(rng), "group": M.name_str(rng), "email": f"{secret(rng, 8).lower()}@example{rng.randint(0, 99)}.{rng.choice(['de', 'com', 'org'])}"}
    M.maybe(rng, d, "name_full", lambda: M.name_str(rng))
    M.maybe(rng, d, "description", lambda: rng.choice([None, M.safe_str(rng)]))
    M.maybe(rng, d, "comment", lambda: M.safe_str(rng))
    M.maybe(rng, d, "id", lambda: M.rand_id(rng))
    M.maybe(rng, d, "active", lambda: rng.random() < 0.5)
    return d


def forms(sec: bytes) -> list[str]:
    """Readable forms of a secret."""
    return [sec.decode("latin-1"), sec.hex(), base64.b64encode(sec).decode().rstrip("="), str(list(sec))[1:-1]]


def texts(user) -> dict[str, str]:
    buf = io.StringIO()
    log = logging.getLogger("vt_user")
    log.propagate = False
    h = logging.StreamHandler(buf)
    log.addHandler(h)
    log.warning("%s %r", user, user)
    log.removeHandler(h)
    print(user, file=buf)  # noqa: T201
    return {
        "str": str(user), "repr": repr(user), "format": f"{user}{user!r}", "log": buf.getvalue(), "json": user.model_dump_json(), "dict_json": json.dumps(user.model_dump(mode="json")),
        "dict": repr(user.model_dump()), "minimal": str(user.model_dump(exclude_unset=True, exclude_defaults=True)), "hash": user.get_hash(), "items": str(dict(user.items())), "field": f"{user.token} {user['token']!r} {user.pw_hash}",
        "list": str([user]),
    }


def family_account(ctx: Ctx) -> None:
    from pydantic import ValidationError
    from shepherd_core.testbed_client.user_model import User

    rng = ctx.rng
    seen: dict[str, object] = {}
    ids: set = set()
    template = kw_user(rng)
    template.pop("id", None)
    for k in range(8):
        kw = dict(template) if k % 3 == 2 else kw_user(rng)
        how = rng.choice(["none", "missing", "text", "text", "missing"]) if k % 3 != 2 else "missing"
        tok = secret(rng, rng.choice([8, 24, 171]))
        if how == "none":
            kw["token"] = None
        elif how == "text":
            kw["token"] = tok
        pw = None
        if rng.random() < 0.5:
            pw = rng.choice([secret(rng).encode(), bytes(rng.randrange(1, 128) for _ in range(rng.choice([32, 128])))])
            kw["pw_hash"] = pw
        build = rng.choice(["kwargs", "validate"])
        before = repr(kw)
        user = User(**kw) if build == "kwargs" else User.model_validate(template if k % 3 == 2 and pw is None else kw)
        ctx.check(repr(kw) == before and "token" not in template, "input-changed", f"creating an account changed the given data ({build})")
        ctx.count("accounts")
        got = user.token.get_secret_value()
        if how == "text":
            ctx.eq(got, tok, "token-altered", "given token")
            ctx.count("tokens_given")
        else:
            ctx.check(got not in seen, "token-shared", "two accounts got the same token")
            ctx.check(len(got) >= 32, "token-short", f"length of token is {len(got)}")
            seen[got] = user
            ctx.count("tokens_fresh")
        if pw is not None:
            ctx.eq(user.pw_hash.get_secret_value(), pw, "hash-altered", "given hash of password")
        else:
            ctx.check(user.pw_hash is None, "hash-invented", "account got a password-hash")
        for f in ("name", "group", "email", "name_full", "description", "comment"):
            ctx.eq(getattr(user, f), kw.get(f), "field-altered", f)
        ctx.check(user.active is kw.get("active", False), "active", f"account is active={user.active} with {kw.get('active')}")
        if "id" in kw:
            ctx.eq(str(user.id), str(kw["id"]), "id", "given id")
        else:
            ctx.check(isinstance(user.id, UUID) and user.id not in ids, "id", "fresh id isn't unique")
            ids.add(user.id)
        for place, text in texts(user).items():
            ctx.check(isinstance(text, str) and text, "no-text", place)
            for sec in [got.encode(), *([] if pw is None else [pw])]:
                ctx.count("secrets_searched")
                for form in forms(sec):
                    ctx.check(form not in text, "secret-leaked", f"secret of account appears in {place}")
                if len(sec) >= 24:
                    ctx.check(sec[-16:].decode("latin-1") not in text and sec[:20].decode("latin-1") not in text, "secret-leaked", f"part of secret appears in {place}")
        ctx.check(user.name in str(user) or "\\" in repr(user.name) or "'" in user.name or '"' in user.name, "name-missing", "text of account doesn't name it")
        # same account again
        again = User(**user.model_dump())
        ctx.check(again == user, "rebuilt-differs", "account rebuilt from its fields differs")
        other = User(**{**user.model_dump(), "token": secret(rng)})
        ctx.check(other != user, "equal-without-token", "accounts with different tokens count as equal")
        for f in ("token", "active", "name", "group", "pw_hash"):
            old = repr(user.model_dump()[f])
            ctx.rejects(lambda f=f: setattr(user, f, getattr(other, f)), "account-mutable", f, (ValidationError, TypeError, AttributeError))
            ctx.eq(repr(user.model_dump()[f]), old, "account-mutable", f)
        ctx.seen("account", how, build, pw is not None, tuple(sorted(kw)))
    # the state of the usual generators must not decide the token
    kw = kw_user(rng)
    kw.pop("id", None)
    toks = []
    keep = random.getstate(), np.random.get_state()  # noqa: NPY002
    for _ in range(3):
        random.seed(1)
        np.random.seed(1)  # noqa: NPY002
        toks.append(User(**kw).token.get_secret_value())
        ctx.count("reseeded")
    random.setstate(keep[0])
    np.random.set_state(keep[1])  # noqa: NPY002
    ctx.eq(len(set(toks)), 3, "token-predictable", "different tokens of reseeded processes")
    bad = [{"group": None}, {"email": "joe"}, {"email": "a@b@c.de"}, {"email": ""}, {"name": "a/b"}, {"name": "x" * 33}, {"name": ""}, {"group": "a|b"}, {"admin": True}, {"description": "ä"}, {"id": "abc"}, {"active": "maybe"},
           {"name": None}, {"email": None}, {"id": 1.5}, {"comment": "\n\x07"}]
    for b in bad:
        ctx.count("bad_accounts")
        ctx.rejects(lambda b=b: User(**{**kw, **b}), "bad-account-accepted", str(b), (ValidationError,))
    for f in ("name", "group", "email"):
        ctx.count("bad_accounts")
        ctx.rejects(lambda f=f: User(**{k: v for k, v in kw.items() if k != f}), "bad-account-accepted", f"without {f}", (ValidationError,))


def family_tokens(ctx: Ctx) -> None:
    """Entropy over many accounts and processes."""
    from shepherd_core.testbed_client.user_model import User

    code = (
        "import sys, random, time, os\n"
        "random.seed(7)\n"
        "from shepherd_core.testbed_client.user_model import User\n"
        "for _ in range(5): print(User(name='a', group='b', email='a@example.com').token.get_secret_value())\n"
    )
    toks = [User(name="a", group="b", email="a@example.com").token.get_secret_value() for _ in range(120)]
    ctx.count("tokens_fresh", 120)
    ctx.count("accounts", 120)
    env = {"PATH": os.environ["PATH"], "PYTHONPATH": str(SRC_CORE.parent), "PYTHONHASHSEED": "0", "HOME": str(ctx.dir)}
    jobs = [subprocess.Popen([sys.executable, "-c", code], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for _ in range(2)]
    for j in jobs:
        out, err = j.communicate(timeout=300)
        ctx.check(j.returncode == 0, "process-failed", err[-300:])
        got = out.split()
        ctx.check(len(got) == 5, "process-failed", out[-300:])
        toks += got
        ctx.count("processes")
    ctx.eq(len(set(toks)), len(toks), "token-shared", "different tokens")
    n = min(len(t) for t in toks)
    varied = sum(len({t[i] for t in toks}) >= 14 for i in range(n))
    ctx.check(varied >= 24, "token-predictable", f"only {varied} of {n} characters of tokens vary")
    half = [len({t[i:i + 8] for t in toks}) for i in range(n - 8)]
    ctx.check(max(half) == len(toks), "token-predictable", "no part of the token is unique")
    ctx.seen("tokens", ctx.index)


def family_password(ctx: Ctx) -> None:
    from shepherd_core.testbed_client.user_model import hash_password

    rng = ctx.rng
    long = secret(rng, rng.choice([90, 99]))
    # pairs of different passwords, that weak hashing would not keep apart
    pairs = [
        ("pässwörter sind 漢字 " + (s := secret(rng, 6)), "pässwörter sind 漢宇 " + s),
        ("müde_bin_ich_geh_zur_ruh" + s, "mude_bin_ich_geh_zur_ruh" + s),
        (long, long[:-1] + chr(ord(long[-1]) ^ 1)),
        (" leading and trailing " + s + " ", "leading and trailing  " + s + " "),
        ((b := secret(rng, 20)), b + b[-1]),
        ((b := secret(rng, rng.choice([21, 40]))), b.swapcase() if b.swapcase() != b else b[::-1]),
        ((b := secret(rng, rng.choice([20, 64, 72]))), "~" + b[1:] if b[0] != "~" else "!" + b[1:]),
        ("ä" * 30 + s, "ö" * 30 + s),
        ((b := secret(rng, 30)), b[:19] + ("~" if b[19] != "~" else "!") + b[20:]),
    ]
    k = (ctx.index + ctx.seed) % len(pairs)
    (base, near), extra = pairs[k], pairs[(4 * k + 1) % len(pairs)][1]
    todo = list(dict.fromkeys([base, near] + ([extra] if ctx.index % 3 == 0 else [])))
    hashes = {}
    t0 = time.process_time()
    hashlib.pbkdf2_hmac("sha512", b"x" * 30, b"salt", 50_000, dklen=64)
    unit = time.process_time() - t0
    for pw in todo:
        t0 = time.process_time()
        h = hash_password(pw)
        cost = time.process_time() - t0
        ctx.check(isinstance(h, bytes) and len(h) >= 32, "hash-form", f"hash is {type(h).__name__} of length {len(h)}")
        ctx.check(cost >= 5 * unit, "hash-cheap", f"hash costs {cost:.3f} s, 50k rounds cost {unit:.3f} s")
        ctx.check(pw.encode() not in h, "hash-reveals", "hash contains the password")
        hashes[pw] = h
        ctx.count("hashes")
        ctx.count("hash_cost")
    ctx.eq(len(set(hashes.values())), len(hashes), "hash-collision", "hashes of different passwords")
    ctx.count("near_pairs", len(hashes) - 1)
    code = "import sys\nfrom shepherd_core.testbed_client.user_model import hash_password\nsys.stdout.write(hash_password(bytes.fromhex(sys.argv[1]).decode()).hex())\n"
    env = {"PATH": os.environ["PATH"], "PYTHONPATH": str(SRC_CORE.parent), "HOME": str(ctx.dir), "PYTHONHASHSEED": str(rng.randrange(1000))}
    r = subprocess.run([sys.executable, "-c", code, base.encode().hex()], env=env, capture_output=True, text=True, timeout=600, check=False)
    ctx.check(r.returncode == 0, "process-failed", r.stderr[-300:])
    ctx.eq(r.stdout, hashes[base].hex(), "hash-unstable", "hash of the same password in another process")
    ctx.count("processes")
    for bad in ("", "short", secret(rng, 19), secret(rng, 101), None, 12345678901234567890123, secret(rng, 500)):
        ctx.count("bad_passwords")
        ctx.rejects(lambda bad=bad: hash_password(bad), "bad-password-accepted", f"length {len(str(bad))}", (ValueError,))
    ctx.seen("password", len(base), base.isascii(), len(todo))


CONTENT = {"EnergyEnvironment": M.kw_eenv, "Firmware": M.kw_firmware, "VirtualHarvesterConfig": M.kw_vhrv, "VirtualSourceConfig": M.kw_vsrc}


def family_publish(ctx: Ctx) -> None:
    """Content for others needs a description, an owner and a group."""
    from pydantic import ValidationError

    rng = ctx.rng
    classes = M.classes()
    for name, gen in CONTENT.items():
        kw = gen(rng)
        for f in ("visible2group", "visible2all"):
            kw.pop(f, None)
        if rng.random() < 0.5:
            kw.pop("description", None)
        cls = classes[name]
        cls = cls[0] if isinstance(cls, tuple) else cls
        private = cls(**kw, visible2group=False, visible2all=False)
        ctx.count("content")
        ctx.check(bool(private.owner) and bool(private.group), "no-owner", f"{name} without owner or group")
        for grp, everyone in ((True, False), (False, True), (True, True)):
            ctx.seen("publish", name, grp, everyone, private.description is None)
            if private.description is None:
                ctx.count("unpublishable")
                ctx.rejects(lambda: cls(**kw, visible2group=grp, visible2all=everyone), "published-without-description", f"{name} group={grp} all={everyone}", (ValidationError,))
            else:
                m = cls(**kw, visible2group=grp, visible2all=everyone)
                ctx.check(m.visible2group is grp and m.visible2all is everyone, "visibility-altered", name)
                ctx.count("published")
        if "owner" in kw:
            ctx.eq(private.owner, kw["owner"], "owner-altered", name)
        if "group" in kw:
            ctx.eq(private.group, kw["group"], "owner-altered", name)
        for f in ("owner", "group"):
            for bad in ("", "a/b", "x" * 33, 5):
                ctx.rejects(lambda f=f, bad=bad: cls(**{**kw, f: bad}), "bad-owner-accepted", f"{name} {f}={bad}", (ValidationError,))


FAMILIES = {
    "account": Family(family_account, quick=80, thorough=2000),
    "tokens": Family(family_tokens, quick=2, thorough=12),
    "password": Family(family_password, quick=9, thorough=63),
    "publish": Family(family_publish, quick=60, thorough=2000),
}
