"""Drives real stores (memory, file, SQLAlchemy, Redis, MongoDB on a stand-in server), judged by StoreTrace."""

from __future__ import annotations

import asyncio
import ctypes
import inspect
import itertools
import json
import logging
import os
import pickle
import random
import shutil
import signal
import sqlite3
import subprocess
import sys
import time
import traceback
from datetime import datetime, timedelta, timezone
from pathlib import Path
from zoneinfo import ZoneInfo

import common
import sbodies

UTC = timezone.utc
KEYENV = "ASYNCZ_STORE_ENCRYPTION_KEY"
FORBIDDEN = ("/", "\\", "\0", ":")
SECRET = "sEcReT"

# instants of the run times, a rank each; some are the same instant in other zones
B = datetime(2031, 10, 26, 0, 30, tzinfo=UTC)
INSTANTS = sorted([
    datetime(1955, 5, 5, 5, 5, 5, 5, tzinfo=UTC), datetime(1970, 1, 1, tzinfo=UTC), datetime(2001, 9, 9, 1, 46, 40, tzinfo=UTC),
    B, B + timedelta(microseconds=1), B + timedelta(microseconds=400001), B + timedelta(minutes=30), B + timedelta(minutes=60),
    B + timedelta(minutes=60, microseconds=999999), B + timedelta(days=1), datetime(2038, 1, 19, 3, 14, 8, tzinfo=UTC),
    datetime(2099, 12, 31, 23, 59, 59, 999999, tzinfo=UTC),
])  # fmt: skip
ZONES = [UTC, ZoneInfo("Europe/Berlin"), ZoneInfo("Asia/Kolkata"), timezone(timedelta(hours=-9, minutes=-30)), ZoneInfo("America/New_York")]
IDS = ["a", "b", "A", "c", "with space", "ünï-ß", "x.task", "100%_", "*", "[a]?", "it's \"q\"", "l" * 120, "None", "1", "a-b",
       "../up", "/abs", ".dot", "x:y", "back\\slash", "new\nline", "$set", "a.b.c", "{store}", "~"]  # fmt: skip


def rank(dt):
    """of a point in time: 2k for a known instant, odd between them"""
    if dt is None:
        return -1
    for k, x in enumerate(INSTANTS):
        if dt == x or dt.timestamp() == x.timestamp():
            return 2 * k + 2
        if dt.timestamp() < x.timestamp():
            return 2 * k + 1
    return 2 * len(INSTANTS) + 1


def at(r, tz=UTC):
    if r == -1:
        return None
    if r % 2 == 0:
        return INSTANTS[r // 2 - 1].astimezone(tz)
    if r > 2 * len(INSTANTS):
        return (INSTANTS[-1] + timedelta(days=3)).astimezone(tz)
    hi = INSTANTS[(r - 1) // 2]
    if r == 1:
        return (hi - timedelta(days=1)).astimezone(tz)
    return (INSTANTS[(r - 1) // 2 - 1] + (hi - INSTANTS[(r - 1) // 2 - 1]) / 2).astimezone(tz)


# ------------------------------------------------------------------ a stand-in for a MongoDB server
class FakeMongo:
    def __init__(self):
        self.dbs = {}

    def __getitem__(self, name):
        return self.dbs.setdefault(name, FakeDB())

    def close(self):
        pass


class FakeDB:
    def __init__(self):
        self.cols = {}

    def __getitem__(self, name):
        return self.cols.setdefault(name, FakeCollection())


class Result:
    def __init__(self, n):
        self.matched_count = self.deleted_count = self.modified_count = n
        self.acknowledged = True


class FakeCollection:
    """what a server answers to single document operations; documents are kept as BSON"""

    def __init__(self):
        self.docs = {}

    def _all(self):
        import bson

        return [bson.decode(d) for d in self.docs.values()]

    def _put(self, doc):
        import bson

        self.docs[doc["_id"]] = bson.encode(doc)

    def _match(self, doc, flt):
        for k, cond in flt.items():
            if k in ("$and", "$or"):
                if not (all if k == "$and" else any)(self._match(doc, f) for f in cond):
                    return False
                continue
            has, v = k in doc, doc.get(k)
            if not (isinstance(cond, dict) and cond and all(x.startswith("$") for x in cond)):
                cond = {"$eq": cond}
            for op, x in cond.items():
                num = isinstance(v, (int, float)) and isinstance(x, (int, float))
                ok = {
                    "$eq": lambda: v == x, "$ne": lambda: v != x, "$in": lambda: v in x, "$nin": lambda: v not in x,
                    "$exists": lambda: has == bool(x), "$lte": lambda: num and v <= x, "$lt": lambda: num and v < x,
                    "$gte": lambda: num and v >= x, "$gt": lambda: num and v > x,
                    "$type": lambda: isinstance(v, (int, float)),
                }[op]()  # fmt: skip
                if not ok:
                    return False
        return True

    def find(self, filter=None, projection=None, sort=None, limit=0, **kw):
        if filter is not None and not isinstance(filter, dict):
            filter = {"_id": filter}
        docs = [d for d in self._all() if self._match(d, filter or {})]
        return FakeCursor(docs, projection).sort(sort or []).limit(limit)

    def find_one(self, filter=None, projection=None, sort=None, **kw):
        docs = list(self.find(filter, projection, sort, limit=1))
        return docs[0] if docs else None

    def insert_one(self, doc):
        from pymongo.errors import DuplicateKeyError

        if doc["_id"] in self.docs:
            raise DuplicateKeyError("E11000 duplicate key error", 11000)
        self._put(doc)
        return Result(1)

    def _change(self, flt, change, upsert, many):
        n = 0
        for d in self._all():
            if self._match(d, flt) and (many or n == 0):
                n += 1
                d.update(change.get("$set", {}))
                for k in change.get("$unset", {}):
                    d.pop(k, None)
                self._put(d)
        if n == 0 and upsert:
            self._put({**{k: v for k, v in flt.items() if not isinstance(v, dict)}, **change.get("$set", {})})
        return Result(n)

    def update_one(self, filter, update, upsert=False):
        return self._change(filter, update, upsert, False)

    def update_many(self, filter, update, upsert=False):
        return self._change(filter, update, upsert, True)

    def replace_one(self, filter, doc, upsert=False):
        for d in self._all():
            if self._match(d, filter):
                self._put({**doc, "_id": d["_id"]})
                return Result(1)
        if upsert:
            self._put({"_id": filter.get("_id"), **doc})
        return Result(0)

    def _drop(self, flt, many):
        gone = [d["_id"] for d in self._all() if self._match(d, flt)]
        gone = gone if many else gone[:1]
        for k in gone:
            del self.docs[k]
        return Result(len(gone))

    def delete_one(self, filter):
        return self._drop(filter, False)

    def delete_many(self, filter):
        return self._drop(filter, True)

    def count_documents(self, filter, **kw):
        return len(list(self.find(filter)))

    def find_one_and_delete(self, filter, **kw):
        d = self.find_one(filter)
        self._drop({"_id": d["_id"]} if d else filter, False)
        return d

    def create_index(self, *a, **k):
        return "index"


class FakeCursor:
    def __init__(self, docs, projection):
        self.docs, self.projection = docs, projection

    def sort(self, keys, direction=1):
        keys = [(keys, direction)] if isinstance(keys, str) else keys
        for k, d in reversed(keys):
            self.docs.sort(key=lambda x: (x.get(k) is not None, x.get(k) if x.get(k) is not None else 0), reverse=d < 0)
        return self

    def limit(self, n):
        if n:
            self.docs = self.docs[:n]
        return self

    def __iter__(self):
        for d in self.docs:
            if self.projection:
                keep = self.projection if not isinstance(self.projection, dict) else [k for k, v in self.projection.items() if v]
                d = {k: v for k, v in d.items() if k == "_id" or k in keep}
            yield d


# ------------------------------------------------------------------ backends
def die_with_parent():
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


class Redis:
    """a server of our own, in the scratch directory"""

    def __init__(self, directory):
        self.path = os.path.join(directory, "redis.sock")
        self.proc = subprocess.Popen(
            ["redis-server", "--port", "0", "--unixsocket", self.path, "--save", "", "--appendonly", "no", "--dir", directory],
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=die_with_parent,
        )  # fmt: skip
        for _ in range(200):
            if os.path.exists(self.path):
                break
            time.sleep(0.02)

    def stop(self):
        self.proc.kill()
        self.proc.wait()


def scheduler():
    from asyncz.schedulers import AsyncIOScheduler

    s = AsyncIOScheduler()
    return s


class Backend:
    """one place where a store keeps its records; stores on it are opened and closed"""

    def __init__(self, kind, where, env):
        self.kind, self.where, self.env = kind, where, env

    def make(self, key):
        if key is None:
            os.environ.pop(KEYENV, None)
        else:
            os.environ[KEYENV] = key
        k = self.kind
        if k == "mem":
            from asyncz.stores.memory import MemoryStore

            return MemoryStore()
        if k in ("file", "filex", "filec"):
            from asyncz.stores.file import FileStore

            extra = {"filex": {"suffix": "-t.pkl", "pickle_protocol": 4}, "filec": {"cleanup_directory": True}}.get(k, {})
            return FileStore(directory=self.where if k != "filex" else Path(self.where) / "deep" / "er", **extra)
        if k == "sql":
            from asyncz.stores.sqlalchemy import SQLAlchemyStore

            return SQLAlchemyStore(database=f"sqlite:///{self.where}.sqlite")
        if k == "redis":
            from asyncz.stores.redis import RedisStore

            name = os.path.basename(self.where)
            return RedisStore(unix_socket_path=self.env["redis"], tasks_key=name + "t", run_times_key=name + "r")
        from asyncz.stores.mongo import MongoDBStore

        self.env.setdefault("mongo", {})
        client = self.env["mongo"].setdefault(self.where, FakeMongo())
        return MongoDBStore(client=client)

    def directory(self):
        return Path(self.where) / "deep" / "er" if self.kind == "filex" else Path(self.where)

    def suffix(self):
        return "-t.pkl" if self.kind == "filex" else ".task"

    def _redis(self):
        import redis

        return redis.Redis(unix_socket_path=self.env["redis"])

    def raw(self):
        """id -> stored record"""
        if self.kind.startswith("file"):
            d = self.directory()
            return {p.name[: -len(self.suffix())]: p.read_bytes() for p in d.iterdir() if p.name.endswith(self.suffix()) and p.is_file()} if d.is_dir() else {}
        if self.kind == "sql":
            con = sqlite3.connect(f"{self.where}.sqlite")
            try:
                return {i: bytes(s) for i, s in con.execute("select id, state from asyncz_store")}
            finally:
                con.close()
        if self.kind == "redis":
            r = self._redis()
            out = {k.decode(): v for k, v in r.hgetall(os.path.basename(self.where) + "t").items()}
            r.close()
            return out
        if self.kind == "mongo":
            col = self.env["mongo"][self.where]["asyncz"]["tasks"]
            return {d["_id"]: bytes(d["state"]) for d in col._all()}
        return {}

    def rest(self):
        """everything stored besides of the records (other files of the directory)"""
        if self.kind.startswith("file") and self.directory().is_dir():
            return b"".join(p.read_bytes() for p in self.directory().iterdir() if p.is_file())
        return b""

    def put(self, id, data, dt):
        """write a record past the store"""
        stamp = dt.timestamp() if dt else None
        if self.kind.startswith("file"):
            tmp = self.directory() / "raw"
            tmp.write_bytes(data)
            os.replace(tmp, self.directory() / f"{id}{self.suffix()}")
        elif self.kind == "sql":
            con = sqlite3.connect(f"{self.where}.sqlite")
            con.execute("insert or replace into asyncz_store (id, next_run_time, state) values (?,?,?)", (id, stamp, data))
            con.commit()
            con.close()
        elif self.kind == "redis":
            r = self._redis()
            name = os.path.basename(self.where)
            r.hset(name + "t", id, data)
            r.zrem(name + "r", id)
            if stamp is not None:
                r.zadd(name + "r", {id: stamp})
            r.close()
        elif self.kind == "mongo":
            from bson.binary import Binary

            self.env["mongo"][self.where]["asyncz"]["tasks"]._put({"_id": id, "next_run_time": stamp, "state": Binary(data)})

    def wipe(self):
        if self.kind.startswith("file"):
            shutil.rmtree(self.where, ignore_errors=True)
        elif self.kind == "sql":
            for p in Path(self.where).parent.glob(os.path.basename(self.where) + ".sqlite*"):
                p.unlink()
        elif self.kind == "mongo":
            self.env["mongo"].pop(self.where, None)


# ------------------------------------------------------------------ tasks
def values(r, n):
    """argument values; n makes versions differ"""
    pool = [
        None, True, 0, -1, 3.5, float("inf"), 10**30, "", "täxt", SECRET + "arg", b"\x00\xff" + SECRET.encode(), (1, (2, [3])),
        {"k": {"n": [1, {"x"}]}}, frozenset({1, 2}), [n, n], sbodies.Color.BLUE, sbodies.Box([1, 2]), timedelta(seconds=1.5),
        datetime(2030, 1, 2, 3, 4, 5, 6, tzinfo=ZoneInfo("Europe/Berlin")), datetime(2020, 2, 29), sbodies.plain, dict, 2 + 3j, range(3), "x" * 300,
    ]  # fmt: skip
    return [r.choice(pool) for _ in range(r.randrange(4))]


def make_trigger(r):
    from asyncz.triggers import AndTrigger, CronTrigger, DateTrigger, IntervalTrigger, OrTrigger, ShutdownTrigger

    x = r.randrange(12)
    tz = r.choice(["UTC", "Europe/Berlin", "Asia/Kolkata"])
    if x == 0:
        return DateTrigger(run_at=at(r.randrange(1, 23), r.choice(ZONES)))
    if x == 1:
        return DateTrigger(run_at="2031-05-06 07:08:09", timezone=tz)
    if x in (2, 3):
        kw = {}
        if r.random() < 0.5:
            kw["start_at"] = at(r.randrange(7, 20), r.choice(ZONES))
        else:
            kw["start_at"] = "2031-10-20 12:00:00"
        if r.random() < 0.4:
            kw["end_at"] = r.choice(["2031-11-20 12:00:00", at(22, r.choice(ZONES))])
        if r.random() < 0.3:
            kw["jitter"] = r.choice([1, 30])
        return IntervalTrigger(timezone=tz, **r.choice([{"seconds": 90}, {"hours": 7, "minutes": 1}, {"days": 1}, {"weeks": 2}, {"seconds": 0.25}]), **kw)
    if x in (4, 5, 6):
        kw = r.choice([
            {"hour": "*/5"}, {"day": "last", "hour": 3}, {"day_of_week": "mon-fri", "minute": "10,50"}, {"second": "*/20"},
            {"day": "2nd tue,last fri", "month": "jan-oct/3"}, {"week": "1-53/2", "day_of_week": 6}, {"year": "2031-2040/3", "month": 10},
        ])  # fmt: skip
        if r.random() < 0.3:
            kw = {**kw, "start_at": at(r.randrange(7, 16), UTC)}
        if r.random() < 0.3:
            kw = {**kw, "end_at": datetime(2045, 1, 1)}
        if r.random() < 0.2:
            kw = {**kw, "jitter": 20}
        return CronTrigger(timezone=tz, **kw)
    if x == 7:
        return CronTrigger.from_crontab("5 4 * * sun", timezone=tz)
    if x in (8, 9):
        cls = r.choice([AndTrigger, OrTrigger])
        a = IntervalTrigger(timezone=tz, hours=2, start_at="2031-10-20 12:00:00")
        b = IntervalTrigger(timezone=tz, hours=3, start_at="2031-10-20 12:00:00")
        c = OrTrigger([CronTrigger(minute="*/30", timezone=tz), DateTrigger(run_at=at(20))])
        return cls([a, b if cls is AndTrigger else r.choice([b, c])], jitter=r.choice([None, 7]))
    if x == 10:
        return ShutdownTrigger()
    return sbodies.Steps(points=[at(k) for k in sorted(r.sample(range(1, 24), 3))])


def make_task(spec):
    """spec: {id, seed, t, n}: the same task for the same spec"""
    from asyncz.tasks import Task

    r = random.Random(f"{spec['seed']}")
    fns = [
        sbodies.plain, sbodies.other, sbodies.coro, sbodies.instance.method, sbodies.Box.kmethod, sbodies.Box.smethod,
        sbodies.Box.Inner.deep, "sbodies:plain", "sbodies:instance.method", "sbodies:Box.kmethod", sbodies.Box(SECRET + "self").method,
    ]  # fmt: skip
    fn = r.choice(fns) if spec["seed"] else sbodies.plain
    args = [spec["n"], *(values(r, spec["n"]) if spec["seed"] else [])]
    kwargs = {f"k{k}": v for k, v in enumerate(values(r, spec["n"]))} if spec["seed"] else {}
    if r.random() < 0.5:
        args = tuple(args)
    task = Task(
        fn, id=spec["id"], args=args, kwargs=kwargs, trigger=make_trigger(r), executor=r.choice(["default", "pool-2", "ex é"]),
        name=r.choice([None, "n", SECRET + "name", "nämé\n", "task " + str(spec["n"])]),
        coalesce=r.choice([True, False]), max_instances=r.choice([1, 2, 7, 10**6]),
        mistrigger_grace_time=r.choice([None, 1, 0.5, 3600, 1e-3, 86400 * 365, 10**12, 2.0]),
    )  # fmt: skip
    task.next_run_time = at(spec["t"], r.choice(ZONES)) if spec["t"] != -1 else None
    return task


def show(x):
    """repr without what may differ between processes"""
    if isinstance(x, (set, frozenset)):
        return type(x).__name__ + "{" + ",".join(sorted(show(y) for y in x)) + "}"
    if isinstance(x, dict):
        return "{" + ",".join(f"{show(k)}:{show(v)}" for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return type(x).__name__ + "[" + ",".join(show(y) for y in x) + "]"
    if inspect.isroutine(x):
        return f"{x.__module__}.{x.__qualname__}"
    return repr(x)


def describe(task):
    """what a user can see of a task"""
    try:
        res = task.fn(*task.args, **task.kwargs)
        if inspect.isawaitable(res):
            res = ("async", asyncio.run(_await(res)))
        call = show(res)
    except Exception as exc:
        call = "raised " + repr(exc)
    random.seed(7)
    probes = []
    for k, (prev, now) in enumerate([(None, 7), (7, 8), (10, 9), (16, 21), (None, 20), (22, 22)]):
        prev = at(prev, ZONES[k % len(ZONES)]) if prev else None
        try:
            x = task.trigger.get_next_trigger_time(ZONES[(k + 1) % len(ZONES)], prev, at(now, UTC))
            probes.append(x.astimezone(UTC).isoformat() if x else "-")
        except Exception as exc:
            probes.append("raised " + repr(exc))
    nrt = task.next_run_time
    return {
        "call": call[:20000],
        "ref": str(task.fn_reference) + " " + ("coroutine" if inspect.iscoroutinefunction(task.fn) else "function"),
        "trigger": type(task.trigger).__name__ + " ".join(probes),
        "name": show(task.name), "executor": show(task.executor), "coalesce": show(task.coalesce),
        "max": show(task.max_instances), "grace": show(task.mistrigger_grace_time), "tid": show(task.id),
        "nrt": nrt.astimezone(UTC).isoformat() + " " + str(nrt.utcoffset()) if nrt else "-",
    }  # fmt: skip


async def _await(x):
    return await x


# ------------------------------------------------------------------ one store under test
class Subject:
    """a store and the record of what it answered"""

    def __init__(self, cfg, where, env):
        self.cfg = cfg
        self.backend = Backend(cfg["kind"], where, env)
        self.store = None
        self.sched = scheduler()

    def open(self, key, same=False):
        if key is None:
            os.environ.pop(KEYENV, None)
        else:
            os.environ[KEYENV] = key
        if not same or self.store is None:
            self.store = self.backend.make(key)
        self.store.start(self.sched, "st")

    def close(self):
        self.store.shutdown()

    def call(self, op, a):
        """the answer as a record of StoreTrace"""
        from asyncz.exceptions import ConflictIdError, TaskLookupError

        s = self.store
        e = {"op": op, "r": "ok", "res": [], "t": -1}
        try:
            if op == "add":
                s.add_task(a)
            elif op == "update":
                s.update_task(a)
            elif op == "delete":
                s.delete_task(a)
            elif op == "lookup":
                x = s.lookup_task(a)
                e["res"] = [] if x is None else [self.entry(x)]
            elif op == "list":
                e["res"] = [self.entry(x) for x in s.get_all_tasks()]
            elif op == "due":
                e["res"] = [self.entry(x) for x in s.get_due_tasks(a)]
            elif op == "next":
                e["t"] = rank(s.get_next_run_time())
            elif op == "clear":
                s.remove_all_tasks()
        except ConflictIdError:
            e["r"] = "conflict"
        except TaskLookupError:
            e["r"] = "missing"
        except Exception as exc:
            e["r"] = "refused" if op in ("add", "update", "delete", "lookup") and self.forbidden(a if isinstance(a, str) else a.id) else "error " + repr(exc)[:200]
        return e

    def entry(self, task):
        v = describe(task)
        if self.cfg["kind"] != "mem" and (task.store_alias != "st" or task.scheduler is not self.sched or task.pending or not task.submitted):
            v["active"] = show((task.store_alias, task.pending, task.submitted))
        return {"id": task.id, "v": v}

    def forbidden(self, id):
        return self.cfg["kind"].startswith("file") and (id.startswith(".") or any(c in id for c in FORBIDDEN))


def broken(kind, good, enc, key, shape):
    """an undecodable record; good: a decodable one"""
    from asyncz.datastructures import TaskState
    from asyncz.stores.persistence import TaskStateEnvelope

    def pack(x):
        return enc(pickle.dumps(x))

    env = dict(entity="task_state", version=1, shape=shape, payload=TaskState(id="x", fn="sbodies:plain"))
    return {
        "empty": b"", "short": good[: max(1, len(good) // 2)], "byte": b"\x80", "junk": bytes(random.Random(len(good)).randrange(256) for _ in range(90)),
        "tail": good[:-1], "text": b"not a pickle", "flip": good[:20] + bytes(255 - x for x in good[20:21]) + good[21:] if len(good) > 20 and key else b"?",
        "entity": pack(TaskStateEnvelope(**{**env, "entity": "other"})), "version": pack(TaskStateEnvelope(**{**env, "version": 2})),
        "shape": pack(TaskStateEnvelope(**{**env, "shape": "nosuch"})), "payload": pack(TaskStateEnvelope(**{**env, "payload": 5})),
        "type": pack(["a", "list"]), "none": pack(None), "nofn": pack(TaskStateEnvelope(**{**env, "payload": TaskState(id="x", fn="sbodies:nosuch")})),
        "nomod": pack(TaskStateEnvelope(**{**env, "payload": TaskState(id="x", fn="nosuchmodule:f")})),
        "oserr": pack(sbodies.Exploding("os")), "permerr": pack(sbodies.Exploding("perm")), "valerr": pack(sbodies.Exploding("val")), "recerr": pack(sbodies.Exploding("rec")),
        "noclass": enc(b"cnosuchmodule\nThing\n."), "otherkey": None,
    }[kind]  # fmt: skip


BROKEN = ["empty", "short", "byte", "junk", "tail", "text", "flip", "entity", "version", "shape", "payload", "type", "none",
          "nofn", "nomod", "oserr", "permerr", "valerr", "recerr", "noclass"]  # fmt: skip


def encrypter(key):
    if key is None:
        return lambda b: b
    import hashlib

    from cryptography.hazmat.primitives.ciphers.aead import AESCCM

    c = AESCCM(hashlib.sha256(key.encode()).digest())

    def enc(b):
        nonce = os.urandom(13)
        return nonce + c.encrypt(nonce, b, None)

    return enc


# ------------------------------------------------------------------ scripts
def random_script(seed):
    """a configuration and a list of steps"""
    r = random.Random(seed)
    kind = r.choice(["mem", "file", "file", "filex", "filec", "sql", "sql", "redis", "redis", "mongo"])
    key = r.choice([None, None, "k1", "lóng " * 20]) if kind != "mem" else None
    cfg = {"kind": kind, "key": key}
    ids = r.sample(IDS, r.choice([2, 3, 5]))
    steps = []
    n = itertools.count(1)
    mess = r.random() < 0.45 and kind not in ("mem",)
    for _ in range(r.choice([6, 12, 25, 40])):
        x = r.random()
        id = r.choice(ids)
        t = r.choice([-1, -1, *(2 * r.randrange(1, 13) for _ in range(4))])
        spec = {"id": id, "seed": r.randrange(1, 10**6), "t": t, "n": next(n)}
        if x < 0.3:
            steps.append(["add", spec])
        elif x < 0.45:
            steps.append(["update", spec])
        elif x < 0.55:
            steps.append(["delete", id])
        elif x < 0.57:
            steps.append(["clear"])
        elif x < 0.67:
            steps.append(["open", r.choice(["same", "new", "dirty"])])
        elif x < 0.75 and mess:
            y = r.random()
            if y < 0.85:
                steps.append(["break", id, r.choice(BROKEN), r.choice([-1, 2 * r.randrange(1, 13)])])
            else:
                steps.append(["rekey", f"rk{len(steps)}"])  # never back to an old one
        elif x < 0.8 and kind != "mem":
            steps.append(["legacy", spec])
        elif x < 0.84 and kind in ("file", "filex", "sql", "redis"):
            steps.append(["far", r.choice(["list", "lookup", "due", "next", "rewrite"]), id, r.randrange(1, 26)])
        for _ in range(r.choice([0, 0, 1, 2])):
            steps.append([r.choice(["lookup", "list", "due", "next"]), r.choice(ids), r.randrange(1, 26)])
    steps += [["list", "", 0], ["next", "", 0], ["due", "", 25], ["open", "new"], *([["far", "list", "", 0]] if kind in ("file", "sql", "redis") and r.random() < 0.3 else []),
              *(["lookup", i, 0] for i in ids), ["list", "", 0]]  # fmt: skip
    return {"cfg": cfg, "steps": steps}


def model_scripts(h, k):
    """a history of StoreMC for a store"""
    steps, n = [], 0
    for c in h:
        n += 1
        op, t = c["op"], c["t"]
        if op in ("add", "update"):
            # the ranks 2 and 4 of the model are neighbouring instants
            steps.append([op, {"id": c["id"], "seed": 0, "t": t if t == -1 else t + 6, "n": n}])
        elif op in ("delete",):
            steps.append([op, c["id"]])
        elif op == "break":
            steps.append(["break", c["id"], BROKEN[(k + n) % len(BROKEN)], -2])
        elif op == "open":
            steps.append(["open", ("same", "new", "dirty")[(k + n) % 3]])
        elif op == "clear":
            steps.append(["clear"])
        elif op == "due":
            steps.append(["due", "", t + 6])
        else:
            steps.append([op, c["id"], 0])
    return steps + [["next", "", 0], ["due", "", 9], ["list", "", 0], *(["lookup", i, 0] for i in "abc"), ["next", "", 0], ["due", "", 25]]


class Far:
    """another process using the same records"""

    def __init__(self, env):
        self.proc = subprocess.Popen(
            [common.PY, os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, preexec_fn=die_with_parent,
            env={**os.environ, "PYTHONHASHSEED": "4242", "TZ": "Asia/Tokyo"},
        )  # fmt: skip
        self.env = env

    def ask(self, job):
        self.proc.stdin.write(json.dumps({**job, "env": {"redis": self.env.get("redis", "")}}) + "\n")
        self.proc.stdin.flush()
        return json.loads(self.proc.stdout.readline())

    def stop(self):
        self.proc.kill()
        self.proc.wait()


def far_main():
    logging.disable(logging.CRITICAL)
    sys.dont_write_bytecode = True
    for line in sys.stdin:
        job = json.loads(line)
        sub = Subject(job["cfg"], job["where"], job["env"])
        sub.open(job["key"])
        op = job["op"]
        if op == "rewrite":
            task = sub.store.lookup_task(job["a"])
            e = sub.call("lookup", job["a"]) if task is None else sub.call("update", task)
            e["v"] = None if task is None else describe(task)
        else:
            e = sub.call(op, at(job["now"]) if op == "due" else job["a"])
        if job["cfg"]["kind"] != "filec":
            sub.close()
        print(json.dumps(e), flush=True)


class Runner:
    def __init__(self, directory):
        logging.disable(logging.CRITICAL)
        self.dir = directory
        self.env = {}
        self.redis = None
        self._far = None
        self.entries, self.seg = [], -1

    def far(self):
        if self._far is None:
            self._far = Far(self.env)
        return self._far

    def stop(self):
        if self.redis:
            self.redis.stop()
        if self._far:
            self._far.stop()

    def emit(self, e, **kw):
        self.entries.append({"seg": self.seg, "far": False, **e, **kw})

    def run(self, script):
        cfg = script["cfg"]
        self.seg += 1
        if cfg["kind"] == "redis" and self.redis is None:
            self.redis = Redis(self.dir)
            self.env["redis"] = self.redis.path
        where = os.path.join(self.dir, f"s{self.seg}")
        sub = Subject(cfg, where, self.env)
        self.entries.append({"op": "new", "seg": self.seg, "far": False, "kind": cfg["kind"],
                             "forbid": sorted({i for i in self.ids(script) if sub.forbidden(i)})})  # fmt: skip
        key = cfg["key"]
        keep = cfg["kind"] not in ("mem", "filec")
        try:
            self.guard("open", lambda: sub.open(key), keep=keep)
            for step in script["steps"]:
                key = self.step(sub, step, key, keep)
            if key and cfg["key"]:
                self.leaks(sub)
            self.guard("close", sub.close)
        finally:
            sub.backend.wipe()

    def ids(self, script):
        return {s[1]["id"] if isinstance(s[1], dict) else s[1] for s in script["steps"] if len(s) > 1 and s[1]}

    def guard(self, op, fn, **kw):
        try:
            fn()
            self.emit({"op": op, "r": "ok"}, **kw)
        except Exception as exc:
            self.emit({"op": op, "r": "error " + repr(exc)[:200]}, **kw)

    def step(self, sub, step, key, keep):
        op = step[0]
        back = sub.backend
        if op in ("add", "update", "legacy"):
            task = make_task(step[1])
            v, t, id = describe(task), step[1]["t"], step[1]["id"]
            if op == "legacy":
                if sub.forbidden(id):
                    return key
                back.put(id, encrypter(key)(pickle.dumps(task.__getstate__())), task.next_run_time)
                self.emit({"op": "legacy", "id": id, "v": v, "t": t})
            else:
                self.emit(sub.call(op, task), id=id, v=v, t=t)
        elif op == "delete":
            self.emit(sub.call("delete", step[1]), id=step[1])
        elif op == "clear":
            self.emit(sub.call("clear", None))
        elif op == "lookup":
            self.emit(sub.call("lookup", step[1]), id=step[1])
        elif op in ("list", "next"):
            self.emit(sub.call(op, None))
        elif op == "due":
            self.emit(sub.call("due", at(step[2], ZONES[step[2] % len(ZONES)])), now=step[2])
        elif op == "open":
            if step[1] == "same":
                self.guard("close", sub.close)
            elif step[1] == "new" or not keep:
                self.guard("close", sub.close)
                sub.store = None
            self.guard("open", lambda: sub.open(key, step[1] == "same"), keep=keep)
        elif op == "break":
            _, id, kind, t = step
            raw = back.raw()
            if sub.forbidden(id) or sub.cfg["kind"] == "mem" or (t == -2 and id not in raw):
                return key
            good = raw.get(id) or pickle.dumps(list(range(40)))
            if t == -2:
                found = sub.store.lookup_task(id)
                t = rank(found.next_run_time) if found is not None else -1
            back.put(id, broken(kind, good, encrypter(key), key, sub.store.shape.name), at(t))
            self.emit({"op": "break", "id": id, "t": t, "kind": kind})
        elif op == "rekey":
            if step[1] == key:
                return key
            key = step[1]
            self.guard("close", sub.close)
            sub.store = None
            self.guard("open", lambda: sub.open(key), keep=keep)
            self.emit({"op": "rekey"})
        elif op == "far":
            _, what, id, now = step
            if what in ("lookup", "rewrite") and sub.forbidden(id):
                return key
            e = self.far().ask({"cfg": sub.cfg, "where": back.where, "key": key, "op": what, "a": id, "now": now})
            if what == "rewrite":
                v = e.pop("v")
                if v is None:
                    self.emit(e, id=id, far=True)
                else:
                    # the same version, written by another process
                    self.emit({"op": "lookup", "r": "ok", "res": [{"id": id, "v": v}]}, id=id, far=True)
                    self.emit({"op": "update", "r": e["r"]}, id=id, v=v, t=self.rank_of(v), far=True)
            else:
                self.emit(e, id=id, now=now, far=True)
        return key

    def rank_of(self, v):
        return -1 if v["nrt"] == "-" else rank(datetime.fromisoformat(v["nrt"].split(" ")[0]))

    def leaks(self, sub):
        """with encryption nothing of the tasks can be read in the records"""
        words = [SECRET, "sbodies", "Trigger", "asyncz.", "TaskState", "pool-2", "default", "nämé"]
        blob = b"\0".join(sub.backend.raw().values()) + sub.backend.rest()
        self.emit({"op": "bytes", "leak": [w for w in words if w.encode() in blob]})


def run_scripts(job, scripts):
    runner = Runner(job["dir"])
    crashes = []
    try:
        for s in scripts:
            try:
                runner.run(s)
            except Exception:
                crashes.append((runner.seg, traceback.format_exc()[-1500:]))
    finally:
        runner.stop()
    trace = os.path.join(job["dir"], "trace.ndjson")
    common.write_trace(trace, runner.entries)
    bads, stats = common.validate("StoreTrace", trace)
    out = []
    for b in bads:
        if not any(o["seg"] == b["seg"] for o in out):
            e = runner.entries[b["n"] - 1]
            out.append({**b, "script": scripts[b["seg"]], "entry": str(e)[:2000]})
    for seg, text in crashes:
        out.append({"n": 0, "seg": seg, "cl": "broken", "props": ["D01", "D02"], "d": text, "script": scripts[seg]})
    kinds = {}
    for s in scripts:
        kinds[s["cfg"]["kind"]] = kinds.get(s["cfg"]["kind"], 0) + 1
    return {"bads": out[:40], "stats": stats, "segs": len(scripts), "entries": len(runner.entries), "kinds": kinds,
            "sample": {"cfg": scripts[0]["cfg"], "steps": scripts[0]["steps"][:5]} if scripts else None}  # fmt: skip


def random_job(job):
    return run_scripts(job, [random_script(f"store:{job['seed0'] + k}") for k in range(job["n"])])


def model_replay(job):
    """job: hists, variants: [[kind, key], ...]"""
    scripts = []
    for k, h in enumerate(job["hists"]):
        for kind, key in job["variants"]:
            scripts.append({"cfg": {"kind": kind, "key": key}, "steps": model_scripts(h, k)})
    return run_scripts(job, scripts)


def replay(job):
    return run_scripts(job, job["scripts"])


if __name__ == "__main__":
    far_main()
