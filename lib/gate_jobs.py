"""Requests to dashboards with a login, judged by GateTrace."""

from __future__ import annotations

import asyncio
import base64
import itertools
import json
import logging
import random
import sys
import urllib.parse

import hist_jobs

ROOTS = ["", "", "/host", "/login", "/host/static"]
BASES = ["", "/board", "/board", "/a/b", "/static-board", "/a/login"]
TASK = "sekret-task"


def load():
    global Lilya, Include, AsynczAdmin, Backend, User, itsdangerous, audit, history, LogEntry, MemoryLogStorage
    hist_jobs.load()
    import itsdangerous
    from lilya.apps import Lilya
    from lilya.routing import Include

    from asyncz.contrib.dashboard import audit, history
    from asyncz.contrib.dashboard.admin import AsynczAdmin, SimpleUsernamePasswordBackend as Backend
    from asyncz.contrib.dashboard.admin.protocols import User
    from asyncz.contrib.dashboard.logs.storage import LogEntry, MemoryLogStorage

    logging.disable(logging.CRITICAL)


class Header:
    """a backend of one's own: a header instead of a session"""

    def __init__(self, inner):
        self.inner = inner

    async def authenticate(self, request):
        return request.headers.get("x-user") or None

    async def login(self, request):
        return await self.inner.login(request)

    async def logout(self, request):
        return await self.inner.logout(request)


class Stage:
    def __init__(self, s):
        import hbodies

        self.s = s
        self.log = [{"op": "new", "root": s["root"], "base": s["base"], "fwd": s["fwd"]}]
        self.scheduler = hist_jobs.NativeAsyncIOScheduler()
        self.scheduler.setup({})
        self.scheduler.add_task(hbodies.sync_body, "interval", hours=9, args=("k",), id=TASK, name="sekret name")
        self.audit = audit.MemoryAuditTrailStorage()
        self.audit.append(action="run", status="failed", target_id=TASK, message="sekret audit")
        self.runs = history.MemoryRunHistoryStorage()
        self.logs = MemoryLogStorage()
        self.logs.append({"message": "sekret log", "task_id": TASK})
        backend = Backend(lambda u, p: User(id=7, name=u, team="x") if (u, p) == ("root", "pass wörd") else None)
        admin = AsynczAdmin(
            enable_login=True, backend=backend, url_prefix=s["base"] or "/unused", scheduler=self.scheduler, include_cors=s["cors"],
            enable_forward_middleware=bool(s["fwd"]), audit_storage=self.audit, run_history_storage=self.runs, log_storage=self.logs,
        )  # fmt: skip
        if s["base"] and not s["root"] and s["include"]:
            self.app = Lilya()
            admin.include_in(self.app)
        else:
            app = admin.get_asgi_app(with_url_prefix=True) if s["base"] else admin.get_asgi_app()
            self.app = Lilya(routes=[Include(s["root"], app=app)]) if s["root"] else app
        self.cookie_name = admin.config.session_cookie
        self.jars = {1: {}, 2: {}}
        self.loop = asyncio.new_event_loop()

    def close(self):
        self.loop.run_until_complete(self.loop.shutdown_default_executor())
        self.loop.close()

    def world(self):
        tasks = [(t.id, t.name, str(t.next_run_time), t.pending) for t in self.scheduler.get_tasks()]
        return [tasks, self.scheduler.state, self.audit.summary(), self.runs.summary(), len(list(self.logs.query(limit=10**6)))]

    def cookie(self, o):
        jar = self.jars[o["who"]].get(self.cookie_name)
        how = o["cookie"]
        if how == "jar":
            return jar
        name = self.cookie_name
        payload = base64.b64encode(json.dumps({"asyncz_admin": {"id": 7, "name": "root", "is_admin": True}}).encode()).decode()
        if how == "tampered":
            if jar is None:
                return None
            raw = jar.strip('"')
            k = o["k"] % max(1, len(raw) - 12)
            other = "A" if raw[k] != "A" else "B"
            return '"' + raw[:k] + other + raw[k + 1 :] + '"'
        if how == "cut":
            return jar[: len(jar) * (o["k"] % 9 + 1) // 11] if jar else None
        if how == "foreign":
            return itsdangerous.TimestampSigner("another secret").sign(payload.encode()).decode()
        if how == "plain":
            return payload
        if how == "null":
            return "null"
        return None if how == "none" else f"{name}"

    def request(self, o):
        headers = [("host", "worker.test")]
        value = self.cookie(o)
        if value is not None:
            headers.append(("cookie", f"{self.cookie_name}={value}"))
        if o["htmx"]:
            headers.append(("hx-request", "true"))
        if self.s["fwd"]:
            headers.append(("x-forwarded-prefix", self.s["fwd"]))
        preflight = o["method"] == "PREFLIGHT"
        if preflight or o["origin"]:
            headers.append(("origin", "http://evil.test"))
        if preflight:
            headers.append(("access-control-request-method", "POST"))
        for k, v in o["headers"]:
            headers.append((k, v))
        body = b""
        if o["fields"] is not None:
            body = urllib.parse.urlencode(o["fields"]).encode()
            headers += [("content-type", "application/x-www-form-urlencoded"), ("content-length", str(len(body)))]
        reached = False

        def spy(frame, event, arg):
            nonlocal reached
            if event == "call" and "dashboard/controllers/" in frame.f_code.co_filename and frame.f_code.co_name in (
                "get", "post", "put", "patch", "delete", "head", "options"):  # fmt: skip
                reached = True

        before = self.world()
        error = ""
        sys.setprofile(spy)
        try:
            status, got, out = self.loop.run_until_complete(self.asgi("OPTIONS" if preflight else o["method"], o["path"], o["query"], headers, body))
        except Exception as e:
            status, got, out, error = 500, [], b"", repr(e)[:300]
        finally:
            sys.setprofile(None)
        d = dict(got)
        loc, nxt = self.split(d.get("location", ""))
        hx, hxnext = self.split(d.get("hx-redirect", ""))
        if o["login"] is not None:
            nxt = o["login"]["next"] or ""
            loc = urllib.parse.unquote(d.get("location", ""))
        if o["cookie"] == "jar":
            for k, v in got:
                if k == "set-cookie":
                    self.keep(o["who"], v)
        self.log.append({
            "op": "req", "who": o["who"], "path": o["path"], "method": "OPTIONS" if preflight else o["method"], "cookie": o["cookie"], "htmx": o["htmx"],
            "preflight": preflight, "right": bool(o["login"] and o["login"]["right"]), "status": status, "loc": loc, "next": nxt, "hx": hx,
            "hxnext": hxnext, "reached": reached, "secret": b"sekret" in out, "changed": self.world() != before, "error": error,
        })  # fmt: skip

    @staticmethod
    def split(url):
        """the address and where it leads afterwards"""
        head, _, query = url.partition("?")
        return urllib.parse.unquote(head), urllib.parse.parse_qs(query, keep_blank_values=True).get("next", [""])[0]

    def keep(self, who, header):
        first, *attributes = header.split(";")
        name, _, value = first.partition("=")
        gone = any("1970" in a or a.strip().lower() == "max-age=0" for a in attributes)
        if gone:
            self.jars[who].pop(name.strip(), None)
        else:
            self.jars[who][name.strip()] = value.strip()

    async def asgi(self, method, path, query, headers, body):
        scope = {
            "type": "http", "asgi": {"version": "3.0", "spec_version": "2.3"}, "http_version": "1.1", "method": method, "scheme": "http",
            "path": path, "raw_path": urllib.parse.quote(path).encode(), "query_string": query.encode(), "root_path": "",
            "headers": [(k.lower().encode("latin-1"), v.encode("latin-1")) for k, v in headers],
            "client": ("127.0.0.1", 5000), "server": ("worker.test", 80), "state": {},
        }  # fmt: skip
        sent, got = [], [{"type": "http.request", "body": body, "more_body": False}]

        async def receive():
            return got.pop(0) if got else {"type": "http.disconnect"}

        async def send(message):
            sent.append(message)

        await self.app(scope, receive, send)
        start = [m for m in sent if m["type"] == "http.response.start"]
        return (
            start[0]["status"],
            [(k.decode("latin-1").lower(), v.decode("latin-1")) for k, v in start[0].get("headers", [])],
            b"".join(m.get("body", b"") for m in sent if m["type"] == "http.response.body"),
        )


# ------------------------------------------------------------------ requests
BLANK = {"op": "req", "who": 1, "method": "GET", "path": "/", "query": "", "cookie": "jar", "htmx": False, "origin": False, "headers": [],
         "fields": None, "login": None, "k": 0}  # fmt: skip
PAGES = ["/", "/tasks/", "/tasks/partials/table", f"/tasks/{TASK}", f"/tasks/{TASK}/edit", "/logs/", "/logs/partials/table",
         "/history/", "/history/partials/table", "/events/", "/timeline/", "/instances/", "/runtime/", "/audit/"]  # fmt: skip
EDIT = {"name": "n", "callable_path": "hbodies:sync_body", "executor": "default", "args": '["ok"]', "kwargs": "{}", "coalesce": "true",
        "max_instances": "1", "mistrigger_grace_time": ""}  # fmt: skip
ACTIONS = {
    "/tasks/create": {"id": "made", "name": "made", "callable_path": "hbodies:sync_body", "trigger_type": "interval", "seconds": "50"},
    f"/tasks/{TASK}/edit": EDIT,
    **{f"/tasks/hx/bulk/{a}": {"task_ids": TASK} for a in ("pause", "resume", "run", "remove")},
    **{f"/tasks/{TASK}/{a}": {} for a in ("run", "pause", "resume", "remove")},
}  # fmt: skip
METHODS = ["GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "PREFLIGHT", "TRACE", "FOO"]


def login(s, who, right, r=None, nxt=None):
    fields = {"username": "root", "password": "pass wörd"}
    if not right:
        k = r.randrange(5) if r else 0
        fields = [{"username": "root", "password": "x"}, {"username": "root"}, {}, {"username": "", "password": ""}, {"username": "root", "password": "pass wörd "}][k]
    if nxt:
        fields["next"] = nxt
    return {**BLANK, "who": who, "method": "POST", "path": s["root"] + "/login", "fields": fields, "login": {"right": right, "next": nxt}}


def known(s, r, who=1):
    if r.random() < 0.6:
        return {**BLANK, "who": who, "path": s["root"] + s["base"] + r.choice(PAGES), "htmx": r.random() < 0.3}
    page = r.choice(list(ACTIONS))
    return {**BLANK, "who": who, "method": "POST", "path": s["root"] + s["base"] + page, "fields": ACTIONS[page], "htmx": r.random() < 0.4}


def strange(s, r, who=1):
    """a path that is nearly one of the known ones"""
    page = r.choice([*PAGES, *ACTIONS, "/static/css/asyncz.css", "/assets/x", "/login", "/logout", "/nope"])
    path = s["root"] + s["base"] + page if r.random() < 0.7 else s["root"] + page
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.randrange(11)
        cut = [j for j, ch in enumerate(path) if ch == "/"]
        j = r.choice(cut) if cut else 0
        if k == 0:
            path = path[:j] + "/" + path[j:]
        elif k == 1:
            path = path.rstrip("/") if path.endswith("/") else path + "/"
        elif k == 2:
            path = path[:j] + r.choice(["/static/..", "/login/..", "/./", "/../", "/static", "/login", "/logout", "/assets"]) + path[j:]
        elif k == 3:
            path = path.swapcase() if r.random() < 0.5 else path[: j + 1] + path[j + 1 :].capitalize()
        elif k == 4:
            path = path + r.choice(["%2f", "%00", "\x00", "\n", "é", "日", " ", ";x", "?x", "#", "\\", "/static", "/login", ".html", "%2e%2e/"])
        elif k == 5:
            path = r.choice(["/static", "/login", "/logout", "/assets", "//"]) + path
        elif k == 6:
            path = path.replace(s["base"], s["base"] + r.choice(["x", "//", "/login", "/static"]), 1) if s["base"] else path
        elif k == 7:
            path = path[j + 1 :] if r.random() < 0.2 else path
        elif k == 8:
            path = path.replace("/", "\\", 1) if r.random() < 0.3 else path
        elif k == 9:
            path = path[: r.randrange(1, len(path) + 1)] if path else "/"
        else:
            path = urllib.parse.quote(path, safe="/") if r.random() < 0.5 else path
    if not path.startswith("/"):
        path = "/" + path
    if s["root"] or s["include"]:
        # the host's router drops a newline at the end
        path = path.replace("\n", "_")
    method = r.choice(METHODS) if r.random() < 0.5 else "GET"
    return {**BLANK, "who": who, "method": method, "path": path, "htmx": r.random() < 0.3, "fields": {} if method == "POST" else None,
            "query": r.choice(["", "", "next=/login", "x=1&login"]), "origin": r.random() < 0.2,
            "headers": r.choice([[], [], [], [("x-forwarded-path", "/login")], [("x-original-url", "/login")], [("x-http-method-override", "GET")]])}  # fmt: skip


def config(r):
    return {"root": r.choice(ROOTS), "base": r.choice(BASES), "fwd": r.choice(["", "", "", "/ops"]), "cors": r.random() < 0.7, "include": r.random() < 0.5}


def random_script(seed):
    r = random.Random(seed)
    s = config(r)
    ops = []
    for _ in range(r.randint(5, 22)):
        who = r.choice([1, 1, 2])
        x = r.random()
        if x < 0.15:
            o = login(s, who, True, r, r.choice([None, None, s["root"] + s["base"] + "/tasks/"]))
        elif x < 0.23:
            o = login(s, who, False, r)
        elif x < 0.33:
            o = {**BLANK, "who": who, "method": r.choice(["GET", "POST"]), "path": s["root"] + "/logout"}
        elif x < 0.37:
            o = {**BLANK, "who": who, "path": s["root"] + "/login"}
        elif x < 0.65:
            o = known(s, r, who)
        else:
            o = strange(s, r, who)
        if o["login"] is None and r.random() < 0.25:
            o = {**o, "cookie": r.choice(["none", "tampered", "tampered", "cut", "foreign", "plain", "null", "name"]), "k": r.randrange(10**6)}
        ops.append(o)
    return {**s, "seed": seed, "ops": ops}


def sweep_scripts():
    """every page and action: by nobody, with strange cookies, in every configuration; then by someone logged in"""
    for root, base, fwd, include in itertools.product(["", "/host", "/login"], ["", "/board", "/a/login"], ["", "/ops"], [False, True]):
        if include and (root or not base):
            continue
        s = {"root": root, "base": base, "fwd": fwd, "cors": True, "include": include, "seed": "sweep"}
        plain = [{**BLANK, "path": root + base + p} for p in PAGES]
        acts = [{**BLANK, "method": "POST", "path": root + base + p, "fields": f} for p, f in ACTIONS.items() if "remove" not in p]
        every = plain + acts + [{**BLANK, "method": "POST", "path": root + base + p, "fields": f} for p, f in ACTIONS.items() if "remove" in p]
        other = [{**o, "method": m} for o in plain[:6] for m in METHODS if m != "GET"]
        yield {**s, "ops": [{**o, "htmx": h} for o in every + other for h in (False, True)]}
        yield {**s, "ops": [login(s, 1, True), *plain, *acts, {**BLANK, "path": root + "/logout", "method": "POST"}, *plain, *acts,
                            login(s, 2, True), *[{**o, "who": 2} for o in every[-1:]], *[{**o, "who": 1} for o in plain]]}  # fmt: skip
        strange_ = ["tampered", "cut", "foreign", "plain", "null", "name", "none"]
        yield {**s, "ops": [login(s, 1, True), *[{**o, "cookie": c, "k": 37 * k} for k, (o, c) in enumerate(itertools.product(every, strange_))]]}


def play(job, scripts, exact=0):
    log, segs = [], []
    for s in scripts:
        stage = Stage(s)
        for o in s["ops"]:
            stage.request(o)
        stage.close()
        log += [{**e, "seg": len(segs)} for e in stage.log]
        segs.append(s)
    return hist_jobs.judge(job, log, segs, "GateTrace", exact)


def random_job(job):
    load()
    return play(job, [random_script(f"gate:{job['seed0'] + k}") for k in range(job["n"])])


def sweep_job(job):
    load()
    return play(job, [s for k, s in enumerate(sweep_scripts()) if k % job["parts"] == job["part"]])


def model_job(job):
    """behaviours of GateMC"""
    load()
    scripts = []
    for n, b in enumerate(job["scripts"]):
        c = b["c"]
        s = {"root": c["root"], "base": c["base"], "fwd": c["fwd"], "cors": True, "include": n % 2 == 0, "seed": n}
        ops = []
        for x in b["h"]:
            if x["kind"] in ("right", "wrong"):
                ops.append(login(s, x["who"], x["kind"] == "right"))
                continue
            act = x["path"].endswith("/run")
            ops.append({**BLANK, "who": x["who"], "path": x["path"], "method": "POST" if act else "GET", "fields": {} if act else None})
        if job.get("paths"):
            # with and without a session
            for o in [o for o in ops if o["login"] is None]:
                ops += [{**o, "method": "POST", "fields": {}}, {**o, "htmx": True}]
        scripts.append({**s, "ops": ops})
    if job.get("paths"):
        merged = {}
        for s in scripts:
            merged.setdefault((s["root"], s["base"]), {**s, "ops": []})["ops"] += s["ops"]
        scripts = list(merged.values())
    return play(job, scripts, exact=len(job["scripts"]))


def replay(job):
    load()
    return play(job, job["scripts"])
