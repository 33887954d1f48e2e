"""The dashboard and the remote control of a scheduler, called in this process without a server."""

from __future__ import annotations

import email.message
import io
import json
import urllib.error
import urllib.parse
import urllib.request

BASE = "http://worker.test/control"
TOKEN = "s3cret, to:ken;x=1"


def asgi(app, method, path, query="", headers=(), body=b"", raw_path=None):
    """one request; the application may not wait for anything: (status, headers, body)"""
    scope = {
        "type": "http", "asgi": {"version": "3.0", "spec_version": "2.3"}, "http_version": "1.1", "method": method,
        "scheme": "http", "path": path, "raw_path": raw_path or urllib.parse.quote(path).encode(),
        "query_string": query.encode(), "root_path": "",
        "headers": [(k.lower().encode("latin-1"), v.encode("latin-1")) for k, v in headers],
        "client": ("127.0.0.1", 5000), "server": ("worker.test", 80), "state": {},
    }  # fmt: skip
    sent, got = [], [{"type": "http.request", "body": body, "more_body": False}]

    async def receive():
        return got.pop(0) if got else {"type": "http.disconnect"}

    async def send(message):
        sent.append(message)

    coro = app(scope, receive, send)
    try:
        coro.send(None)
    except StopIteration:
        pass
    else:
        coro.close()
        raise RuntimeError("the application waits")
    start = [m for m in sent if m["type"] == "http.response.start"]
    return (
        start[0]["status"],
        [(k.decode("latin-1").lower(), v.decode("latin-1")) for k, v in start[0].get("headers", [])],
        b"".join(m.get("body", b"") for m in sent if m["type"] == "http.response.body"),
    )


class Response(io.BytesIO):
    def __init__(self, status, body):
        super().__init__(body)
        self.status = status


class Wire:
    """what urllib would do over the network"""

    def __init__(self, app):
        self.app = app

    def urlopen(self, request, timeout=None):
        url = urllib.parse.urlsplit(request.full_url)
        path = url.path.removeprefix("/control")
        try:
            status, headers, body = asgi(
                self.app, request.get_method(), urllib.parse.unquote(path), url.query, list(request.header_items()),
                request.data or b"", path.encode(),
            )  # fmt: skip
        except Exception:
            # what a server makes of it
            status, headers, body = 500, [("content-type", "text/plain")], b"Internal Server Error"
        if status >= 400:
            raise urllib.error.HTTPError(request.full_url, status, "-", email.message.Message(), io.BytesIO(body))
        return Response(status, body)


ENDPOINTS = {
    "info": ("GET", "/info"), "instances": ("GET", "/instances"), "tasks": ("GET", "/tasks"), "add": ("POST", "/tasks"),
    "detail": ("GET", "/tasks/{id}"), "update": ("PATCH", "/tasks/{id}"), "preview": ("GET", "/tasks/{id}/preview"),
    "run": ("POST", "/tasks/{id}/run"), "pause": ("POST", "/tasks/{id}/pause"), "resume": ("POST", "/tasks/{id}/resume"),
    "remove": ("POST", "/tasks/{id}/remove"),
}  # fmt: skip
# headers without the right token
WRONG = ["none", "empty", "short", "long", "case", "other", "bearer", "query", "twice", "space", "part", "part2", "joined"]
BODIES = {
    "add": {"fn": "hbodies:sync_body", "id": "d", "args": ["ok"], "trigger": "interval", "trigger_args": {"seconds": 5}, "replace_existing": True},
    "update": {"updates": {"name": "taken", "next_run_time": None}},
}  # fmt: skip


def probe(app, what, ident, tok):
    """(status, body) of a request which does not have the token"""
    method, path = ENDPOINTS[what]
    name = "x-asyncz-remote-token"
    headers = {
        "none": [], "empty": [(name, "")], "short": [(name, TOKEN[:-1])], "long": [(name, TOKEN + "x")],
        "case": [(name, TOKEN.upper())], "other": [("x-token", TOKEN)], "bearer": [("authorization", "Bearer " + TOKEN)],
        "query": [], "twice": [(name, "wrong"), (name, "worse")], "space": [(name, "None")],
        "part": [(name, TOKEN.split(",")[0])], "part2": [(name, TOKEN.split(", ")[1])], "joined": [(name, TOKEN.replace(" ", ""))],
    }[tok]  # fmt: skip
    query = urllib.parse.urlencode({name: TOKEN, "token": TOKEN}) if tok == "query" else ""
    body = json.dumps(BODIES.get(what, {})).encode() if method != "GET" else b""
    path = path.format(id=urllib.parse.quote(ident, safe=""))
    status, _, out = asgi(app, method, urllib.parse.unquote(path), query, [("content-type", "application/json"), *headers], body, path.encode())
    try:
        out = json.loads(out)
    except ValueError:
        out = {}
    return status, out


def remote_client(scheduler, token=TOKEN):
    from asyncz.contrib.dashboard import remote

    app = remote.create_remote_scheduler_app(scheduler, token=token)
    wire = Wire(app)
    urllib.request.urlopen = wire.urlopen
    return remote.RemoteSchedulerClient(BASE, token=token), app


def dashboard(scheduler, **storages):
    """the dashboard without login, as a host would mount it"""
    from asyncz.contrib.dashboard.admin.core import AsynczAdmin

    return AsynczAdmin(enable_login=False, scheduler=scheduler, url_prefix="/board", **storages).get_asgi_app(with_url_prefix=True)


def post(app, path, fields, cookie=""):
    body = urllib.parse.urlencode(fields).encode()
    headers = [("content-type", "application/x-www-form-urlencoded"), ("content-length", str(len(body))), ("host", "worker.test")]
    if cookie:
        headers.append(("cookie", cookie))
    return asgi(app, "POST", urllib.parse.unquote(path), "", headers, body, path.encode())


def quote(ident):
    return urllib.parse.quote(ident, safe="")


class Board:
    """a dashboard with storages of its own"""

    def __init__(self, scheduler):
        from asyncz.contrib.dashboard.audit import MemoryAuditTrailStorage

        self.audit = MemoryAuditTrailStorage()
        self.app = dashboard(scheduler, audit_storage=self.audit)

    def post(self, path, fields):
        known = {r.event_id for r in self.audit.query(limit=10**6)}
        status, _, _ = post(self.app, "/board" + path, fields)
        new = [r for r in reversed(self.audit.query(limit=10**6)) if r.event_id not in known]
        return status, [{"act": r.action, "id": str(r.target_id), "st": r.status} for r in new]


FIELDS = {"nm": "name", "fn": "callable_path", "ex": "executor", "ar": "args", "kw": "kwargs", "co": "coalesce",
          "mx": "max_instances", "gr": "mistrigger_grace_time"}  # fmt: skip
EDIT = {"name": "n", "callable_path": "hbodies:sync_body", "executor": "e1", "args": '["ok"]', "kwargs": "{}", "coalesce": "true",
        "max_instances": "1", "mistrigger_grace_time": ""}  # fmt: skip


def edit_fields(task):
    """the form as the page shows it"""
    return {
        "name": task.name or "", "callable_path": task.fn_reference or "", "args": json.dumps(list(task.args), indent=2),
        "kwargs": json.dumps(dict(task.kwargs), indent=2), "executor": task.executor, "coalesce": "true" if task.coalesce else "false",
        "max_instances": str(task.max_instances),
        "mistrigger_grace_time": "" if task.mistrigger_grace_time is None else str(task.mistrigger_grace_time),
        "clear": task.mistrigger_grace_time is None,
    }  # fmt: skip
