"""C27: sessions with the testbed server transfer models and credentials unchanged."""
from __future__ import annotations

import http.server
import json
import os
import threading
import time
from datetime import datetime
from datetime import time as dtime
from pathlib import Path
from urllib.parse import parse_qs
from urllib.parse import urlsplit

from vlib import models as M
from vlib.core import Ctx
from vlib.core import Family

PROPERTY = "C27"
TECHNIQUE = "runtime monitoring of client sessions: a loopback server records every request, answers with scripted faults and rebuilds transferred models"
LEVEL_NOTE = "The real client talks over real sockets to a monitoring server that answers properly, with rejections, garbage, delays or not at all; requests, credentials, rebuilt models and results are compared with what was given."
RULE = ("A case runs one session (connect, inserts, user-data, unsupported calls) against a scripted server. Signature: token kind, server form, fault and its stage, model kinds, outcome.")
REQUIRED = {"sessions": 60, "sessions_ok": 25, "requests": 200, "inserted": 60, "tokens_text": 8, "tokens_file": 8, "tokens_none": 8, "faults_connect": 20, "faults_insert": 20,
            "timeouts": 2, "user_data": 50, "unsupported": 100, "local_models": 30}
ASSUMPTIONS = ["the server keeps the interface /session_key, /user?token= and /add the client was written for"]

PUBLIC = "basic_public_access"
FAULTS = [("status", 400), ("status", 401), ("status", 403), ("status", 404), ("status", 500), ("status", 503), ("close", None), ("hang", None)]
GARBAGE = [("body", b""), ("body", b"<html>ok</html>"), ("body", b"[1, 2"), ("body", b'{"other": 1}'), ("body", b"null"), ("body", b"[]")]
BYTES = {"CapeData", "CalibrationCape", "CalMeasurementCape"}  # carry raw bytes of an eeprom, no content for a server


class Server:
    """Scripted server, records everything it gets."""

    def __init__(self, user: dict, key: str) -> None:
        self.log: list = []
        self.script: dict[str, list] = {}
        self.answers = {"/session_key": {"value": key}, "/user": user, "/add": {}}
        outer = self

        class Handler(http.server.BaseHTTPRequestHandler):
            def log_message(self, *_) -> None:
                pass

            def do(self) -> None:
                u = urlsplit(self.path)
                n = int(self.headers.get("Content-Length") or 0)
                body = self.rfile.read(n)
                outer.log.append({"method": self.command, "path": u.path, "query": parse_qs(u.query, keep_blank_values=True), "raw": self.path, "headers": dict(self.headers), "body": body})
                end = "/" + u.path.rsplit("/", 1)[-1]
                todo = outer.script.get(end, [])
                kind, val = todo.pop(0) if todo else ("ok", None)
                status, out = 200, json.dumps(outer.answers.get(end, {})).encode()
                if end not in outer.answers:
                    status, out = 404, b"{}"
                if kind == "status":
                    status, out = val, b'{"detail": "no"}'
                elif kind == "body":
                    out = val
                elif kind == "hang":
                    outer.stop.wait(25)
                    self.close_connection = True
                    return
                elif kind == "close":
                    self.close_connection = True
                    return
                self.send_response(status)
                self.send_header("Content-Type", "application/json")
                self.send_header("Content-Length", str(len(out)))
                self.end_headers()
                self.wfile.write(out)

            do_GET = do_POST = do_PUT = do_PATCH = do_DELETE = do_HEAD = do

        self.stop = threading.Event()
        self.srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
        self.srv.daemon_threads = True
        self.thread = threading.Thread(target=self.srv.serve_forever, kwargs={"poll_interval": 0.02}, daemon=True)
        self.thread.start()

    def close(self) -> None:
        self.stop.set()
        self.srv.shutdown()
        self.srv.server_close()
        self.thread.join(5)


def rand_token(rng) -> str:
    alpha = rng.choice(["abcXYZ019-_", "abcXYZ019-_", "aZ9+/=", "a&b=c?#", "a b%20", "aäß"])
    t = "".join(rng.choice(alpha) for _ in range(rng.choice([1, 8, 40, 190])))
    return t.strip() or "t"


def rand_user(rng) -> dict:
    d = {"name": M.name_str(rng), "group": M.name_str(rng), "email": rng.choice(["a@b.de", "first.last@tu-dresden.de"]), "token": rand_token(rng)}
    if rng.random() < 0.5:
        d["id"] = rng.choice([1, 12345, "6fa459ea-ee8a-4ca4-894e-db77e160355e"])
    if rng.random() < 0.3:
        d["active"] = True
    return d


def local_models(ctx: Ctx, what: str) -> None:
    """Local fixtures serve models, whatever happened to the connection."""
    from shepherd_core.data_models.content import VirtualSourceConfig
    from shepherd_core.data_models.testbed import Target

    src = VirtualSourceConfig(name="diode+capacitor")
    ctx.check(src.name == "diode+capacitor" and src.V_input_drop_mV > 0, "local-fixtures", f"source after {what}")
    ctx.eq(Target(id=6).id, 6, "local-fixtures", f"target after {what}")
    ctx.count("local_models")


def spawn(ctx: Ctx):
    os.environ["NO_PROXY"] = os.environ["no_proxy"] = "*"
    rng = ctx.rng
    user = rand_user(rng)
    srv = Server(user, "key")
    base = rng.choice(["/testbed", "", "/a/b", "/shepherd"])
    host = rng.choice(["127.0.0.1", "127.0.0.1", "localhost"])
    url = f"{rng.choice(['http', 'HTTP', 'http'])}://{host}:{srv.srv.server_port}{base}"
    return srv, url, base, user


def rand_credentials(ctx: Ctx):
    rng = ctx.rng
    kind = rng.choice(["none", "text", "file", "file"])
    if kind == "none":
        return kind, None, PUBLIC
    tok = rand_token(rng)
    if kind == "text":
        return kind, tok, tok
    p = ctx.dir / "my.token"
    p.write_text(rng.choice(["", "", "\n", "  ", "\r\n\n"]) + tok + rng.choice(["", "\n", "\r\n", "\n\n"]), encoding="utf-8")
    return kind, p, tok


def check_session(ctx: Ctx, srv: Server, base: str, tok: str) -> None:
    log = srv.log
    ctx.eq([(r["method"], r["path"]) for r in log[:2]], [("GET", base + "/session_key"), ("GET", base + "/user")], "session-requests", "requests of the connection")
    if len(log) > 1:
        ctx.eq(log[1]["query"], {"token": [tok]}, "token", "presented credentials")
    if tok != PUBLIC and len(tok) > 3:
        for r in (*log[:1], *log[2:]):
            ctx.check(tok not in r["raw"] and not any(tok in h for h in r["headers"].values()), "token-spread", f"token was sent to {r['path']}")
    ctx.count("requests", len(log))


def plain_dates(obj):
    """The dates of a cape are kept as date or as datetime, text can't tell both apart at midnight."""
    if isinstance(obj, dict):
        for k, v in obj.items():
            if k in ("calibrated", "created") and "calibrated" in obj and isinstance(v, datetime) and v.time() == dtime(0):
                obj[k] = v.date()
            plain_dates(v)
    elif isinstance(obj, list):
        for v in obj:
            plain_dates(v)


def rand_model(ctx: Ctx):
    rng = ctx.rng
    name = rng.choice([n for n in M.ALL if n not in BYTES] + ["Experiment"] * 3)
    kw = M.kw_experiment(rng) if name == "Experiment" else M.ALL[name](rng)
    cls = M.classes()[name]
    kw = cls(**kw).model_dump()
    plain_dates(kw)
    return name, cls, cls(**kw)


def check_insert(ctx: Ctx, req: dict, base: str, name: str, cls, model) -> None:
    from shepherd_core.data_models.base.wrapper import Wrapper

    ctx.eq((req["method"], req["path"], req["query"]), ("POST", base + "/add", {}), "insert-request", name)
    doc = json.loads(req["body"])
    ctx.eq(doc["datatype"], name, "insert-type", name)
    wrap = Wrapper.model_validate_json(req["body"])
    back = cls(**wrap.parameters)
    ctx.check(back == model, "insert-differs", f"{name} rebuilt from the request differs", {"got": repr(back)[:600], "want": repr(model)[:600]})
    ctx.count("inserted")


def case_session(ctx: Ctx) -> None:
    from shepherd_core import WebClient

    rng = ctx.rng
    srv, url, base, user = spawn(ctx)
    try:
        kind, cred, tok = rand_credentials(ctx)
        cl = WebClient(server=url, token=cred) if rng.random() < 0.7 else WebClient(url, cred)
        check_session(ctx, srv, base, tok)
        ctx.eq(len(srv.log), 2, "session-requests", "count")
        ctx.count(f"tokens_{kind}")
        names = []
        for _ in range(rng.randint(1, 4)):
            name, cls, model = rand_model(ctx)
            ref = model.model_copy(deep=True)
            n = len(srv.log)
            fault = rng.choice(FAULTS[:-1]) if rng.random() < 0.35 else None
            if fault:
                srv.script["/add"] = [fault]
                ctx.rejects(lambda m=model: cl.insert(m), "insert-pretended", f"server answered {fault}", Exception)
                ctx.count("faults_insert")
                srv.script.clear()
            else:
                ctx.check(cl.insert(model) is True, "insert-result", name)
                ctx.eq(len(srv.log), n + 1, "insert-request", "one request per model")
            check_insert(ctx, srv.log[n], base, name, cls, ref)
            ctx.check(model == ref, "insert-modified", f"{name} was changed by the transfer")
            names.append(name)
        for _ in range(4):
            given = {k: v for k, v in (("owner", M.name_str(rng)), ("group", M.name_str(rng))) if rng.random() < 0.5}
            if rng.random() < 0.3:
                given["owner"] = None
            vals = {"name": "x", **given}
            out = cl.fill_in_user_data(dict(vals))
            want = {**vals, "owner": given.get("owner") or user["name"], "group": given.get("group") or user["group"]}
            ctx.eq(out, want, "user-data", f"filled {given}")
            ctx.count("user_data")
        model = rand_model(ctx)[2]
        n = len(srv.log)
        for fn in (lambda: cl.query_ids("Target"), lambda: cl.query_names("Target"), lambda: cl.query_item("Target", uid=1), lambda: cl.query_item("Target", name="x"),
                   lambda: cl.try_inheritance("Target", {}), lambda: cl.submit_experiment(model), lambda: cl.schedule_experiment("x"), lambda: cl.get_experiment_status("x"),
                   lambda: cl.get_experiment_results("x", ctx.dir)):
            try:
                res = fn()
            except NotImplementedError:
                ctx.count("unsupported")
                continue
            # whenever this is implemented it has to ask the server
            ctx.check(len(srv.log) > n, "unsupported-answered", f"answer {res!r} without asking the server")
        check_session(ctx, srv, base, tok)
        ctx.count("sessions_ok")
        ctx.count("sessions")
        local_models(ctx, "session")
        ctx.seen("session", kind, base, tuple(sorted(names)))
        ctx.sample(f"token {kind}, inserted {names}, {len(srv.log)} requests")
    finally:
        srv.close()


def case_fault(ctx: Ctx) -> None:
    """Connections that cannot work end in an error."""
    from shepherd_core import WebClient

    rng = ctx.rng
    srv, url, base, user = spawn(ctx)
    try:
        kind, cred, tok = rand_credentials(ctx)
        stage = rng.choice(["/session_key", "/user", "/user", "port", "token_path", "token_dir", "user_incomplete"])
        fault = rng.choice([*FAULTS[:-1], *GARBAGE, *([FAULTS[-1]] if ctx.index % 9 == 0 else [])])
        if stage == "port":
            srv.close()
        elif stage == "token_path":
            cred = ctx.dir / "missing.token"
        elif stage == "token_dir":
            cred = Path(ctx.dir)
        elif stage == "user_incomplete":
            bad = dict(user)
            if rng.random() < 0.6:
                del bad[rng.choice(["name", "group", "email"])]
            else:
                bad.update(rng.choice([{"email": "no mail"}, {"name": ""}, {"name": "a:b"}, {"group": 5}, {"name": None}]))
            srv.answers["/user"] = bad
        else:
            srv.script[stage] = [fault]
        t = time.monotonic()
        ctx.rejects(lambda: WebClient(server=url, token=cred), "connect-pretended", f"{stage} with {fault if stage in srv.answers else stage}", Exception)
        if fault[0] == "hang" and stage in srv.answers:
            ctx.check(time.monotonic() - t < 20, "hang", "client waits for a silent server")
            ctx.count("timeouts")
        if stage.startswith("token"):
            ctx.check(all(PUBLIC not in r["raw"] for r in srv.log), "token-replaced", "public access was used instead of the given token")
        ctx.check(all(r["method"] == "GET" for r in srv.log), "session-requests", "only questions while connecting")
        if tok != PUBLIC:
            for r in srv.log:
                ctx.check(r["query"] in ({}, {"token": [tok]}), "token", "presented credentials")
        ctx.count("faults_connect")
        ctx.count("sessions")
        local_models(ctx, stage)
        ctx.seen("fault", stage, fault if stage in ("/session_key", "/user") else None, kind)
        # the next attempt starts from scratch
        if stage not in ("port",):
            srv.script.clear()
            srv.answers["/user"] = user
            n = len(srv.log)
            _kind2, cred2, tok2 = rand_credentials(ctx)
            WebClient(server=url, token=cred2)
            srv.log = srv.log[n:]
            check_session(ctx, srv, base, tok2)
    finally:
        if stage != "port":
            srv.close()


def case_late(ctx: Ctx) -> None:
    """Server disappears or falls silent after the connection was made."""
    from shepherd_core import WebClient

    rng = ctx.rng
    srv, url, base, _ = spawn(ctx)
    kind, cred, _tok = rand_credentials(ctx)
    cl = WebClient(url, cred)
    name, cls, model = rand_model(ctx)
    if rng.random() < 0.5:
        srv.script["/add"] = [("hang", None)]
        t = time.monotonic()
        ctx.rejects(lambda: cl.insert(model), "insert-pretended", "silent server", Exception)
        ctx.check(time.monotonic() - t < 20, "hang", "client waits for a silent server")
        ctx.count("timeouts")
        check_insert(ctx, srv.log[2], base, name, cls, model)
        srv.close()
    else:
        srv.close()
        ctx.rejects(lambda: cl.insert(model), "insert-pretended", "server is gone", Exception)
    ctx.count("faults_insert")
    ctx.count("sessions")
    local_models(ctx, "late loss")
    ctx.seen("late", kind, name)


FAMILIES = {
    "session": Family(case_session, quick=120, thorough=2500),
    "fault": Family(case_fault, quick=120, thorough=2500),
    "late": Family(case_late, quick=16, thorough=160),
}
