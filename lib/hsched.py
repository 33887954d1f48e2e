"""Drives real schedulers on virtual time and records what they observably do."""

from __future__ import annotations

import asyncio
import concurrent.futures
import contextlib
import contextvars
import json
import logging
import math
import os
import random
import shutil
import sys
import tempfile
import threading
import time
from concurrent.futures import Future
from concurrent.futures import ThreadPoolExecutor as _RealThreadPool
from datetime import timedelta, timezone
from zoneinfo import ZoneInfo

import vclock

vclock.import_core()
logging.disable(logging.CRITICAL)

import hbodies  # noqa: E402
import hdash  # noqa: E402
from asyncz.events.constants import ALL_EVENTS  # noqa: E402
from asyncz.executors.asyncio import AsyncIOExecutor  # noqa: E402
from asyncz.executors.base import BaseExecutor, run_task  # noqa: E402
from asyncz.executors.debug import DebugExecutor  # noqa: E402
from asyncz.executors.pool import ThreadPoolExecutor  # noqa: E402
from asyncz.schedulers.asyncio import AsyncIOScheduler, NativeAsyncIOScheduler  # noqa: E402
from asyncz.schedulers.base import BaseScheduler  # noqa: E402
from asyncz.stores.file import FileStore  # noqa: E402
from asyncz.stores.memory import MemoryStore  # noqa: E402
from asyncz.stores.sqlalchemy import SQLAlchemyStore  # noqa: E402
from asyncz.tasks import Task  # noqa: E402
from asyncz.triggers import AndTrigger, CronTrigger, DateTrigger, IntervalTrigger, OrTrigger  # noqa: E402
from asyncz.triggers.shutdown import ShutdownTrigger  # noqa: E402
from asyncz.typing import undefined  # noqa: E402

NONE, UNDEF, WEIRD = -1, -2, -999999
CLOCK = vclock.CLOCK
SYNC: contextvars.ContextVar[bool] = contextvars.ContextVar("sync", default=False)  # runs within the call
BID: contextvars.ContextVar[int] = contextvars.ContextVar("bid", default=0)


class BodyError(Exception):
    pass


class BodyBaseError(BaseException):
    pass


class FaultError(Exception):
    pass


def dt(ms, tz=timezone.utc):
    return (CLOCK.epoch + timedelta(milliseconds=ms)).astimezone(tz)


# grace times that no timedelta can hold stand in traces as lengths beyond every lateness
HUGE = {2_000_000_000: math.inf, 1_999_999_999: 10**13}


def grace_s(v):
    return HUGE.get(v, v / 1000)


def grace_ms(g):
    return next((k for k, h in HUGE.items() if h == g), None) or int(round(g * 1000))


def ms(value):
    """datetime -> milliseconds since the epoch of the harness; None -> -1"""
    if value is None:
        return NONE
    if not hasattr(value, "tzinfo") or value.tzinfo is None:
        return WEIRD
    delta = value.astimezone(timezone.utc) - CLOCK.epoch
    us = (delta.days * 86400 + delta.seconds) * 1_000_000 + delta.microseconds
    if us % 1000 or not -(2**31) < us // 1000 < 2**31:
        return WEIRD
    return us // 1000


def abs_trig(trigger):
    rec = {"k": "?", "at": NONE, "st": NONE, "per": 0, "en": NONE, "ts": [], "fk": "", "parts": []}
    if isinstance(trigger, DateTrigger):
        rec.update(k="date", at=ms(trigger.run_at))
    elif isinstance(trigger, IntervalTrigger):
        rec.update(
            k="int",
            st=ms(trigger.start_at),
            per=int(trigger.interval.total_seconds() * 1000),
            en=ms(trigger.end_at),
        )
    elif isinstance(trigger, ShutdownTrigger):
        rec.update(k="shut")
    elif isinstance(trigger, CronTrigger):
        fields = {f.name: str(f) for f in trigger.fields}
        unit, length = ("second", 1000) if fields.get("second") != "0" else ("minute", 60000)
        step = fields.get(unit, "*").partition("/")[2] or "1"
        rec.update(k="cron", per=int(step) * length, en=ms(trigger.end_at))
    elif isinstance(trigger, hbodies.ListTrigger):
        rec.update(k="list", ts=list(trigger.ts), fk=trigger.fkey)
    elif isinstance(trigger, OrTrigger):
        rec.update(k="or", parts=[abs_trig(t) for t in trigger.triggers])
    elif isinstance(trigger, AndTrigger):
        rec.update(k="and", parts=[abs_trig(t) for t in trigger.triggers])
    return rec


def make_trig(spec, tz=timezone.utc):
    """abstract trigger -> real trigger"""
    k = spec["k"]
    if k == "date":
        return DateTrigger(run_at=dt(spec["at"], tz))
    if k == "int":
        return IntervalTrigger(
            seconds=spec["per"] / 1000,
            start_at=dt(spec["st"], tz),
            end_at=None if spec["en"] == NONE else dt(spec["en"], tz),
        )
    if k == "shut":
        return ShutdownTrigger()
    if k == "cron":
        return CronTrigger(
            second=f"*/{spec['per'] // 1000}",
            timezone=tz,
            end_at=None if spec["en"] == NONE else dt(spec["en"], tz),
        )
    if k == "list":
        return hbodies.ListTrigger(
            base=CLOCK.epoch, ts=spec["ts"], fkey=",".join(map(str, spec["ts"]))
        )
    if k == "or":
        return OrTrigger([make_trig(p, tz) for p in spec["parts"]])
    if k == "and":
        return AndTrigger([make_trig(p, tz) for p in spec["parts"]])
    raise ValueError(k)


def jargs(args):
    return json.dumps(list(args))


def jkw(kwargs):
    return json.dumps(dict(kwargs), sort_keys=True)


# ------------------------------------------------------------------ instrumented extension points
class _Observed:
    """Executors: record every hand-off (``do_send_task`` is the extension point of executors)."""

    def do_send_task(self, task, run_times):
        h = hbodies.HARNESS
        with h.lock:
            h.bid += 1
            bid = h.bid
        alias = h.exec_alias.get(id(self), "?")
        h.item(
            k="hand",
            b=bid,
            id=task.id,
            sa=str(task.store_alias),
            ex=alias,
            rts=[ms(t) for t in run_times],
            now=CLOCK.ms,
        )
        token = BID.set(bid)
        SYNC.set(isinstance(self, (DebugExecutor, AsyncIOExecutor)))
        if bid in h.early or isinstance(self, DebugExecutor):
            h.begin(bid)
        try:
            h.maybe_fault("exec", alias)
            return super().do_send_task(task, run_times)
        except BaseException:
            h.item(k="handfail", b=bid)
            raise
        finally:
            BID.reset(token)


class _Manual(BaseExecutor):
    """The driver decides when a run starts; outcome and slot handling is the one of asyncz."""

    def start(self, scheduler, alias):
        super().start(scheduler, alias)
        if not hasattr(self, "queue"):
            self.queue = []

    def do_send_task(self, task, run_times):
        self.queue.append((BID.get(), task, list(run_times), contextvars.copy_context()))

    def run_one(self, index):
        bid, task, run_times, ctx = self.queue.pop(index)
        ctx.run(self._run, bid, task, run_times)

    def _run(self, bid, task, run_times):
        hbodies.HARNESS.begin(bid)
        try:
            events = run_task(task, task.store_alias, run_times, self.logger)
        except BaseException:
            self.run_task_error(task.id)
        else:
            self.run_task_success(task.id, events)


class ManualExecutor(_Observed, _Manual):
    pass


class ODebugExecutor(_Observed, DebugExecutor):
    pass


class OAsyncIOExecutor(_Observed, AsyncIOExecutor):
    def do_send_task(self, task, run_times):
        # the run of a coroutine starts with the next turn of the event loop
        h = hbodies.HARNESS
        bid = h.bid + 1
        if asyncio.iscoroutinefunction(task.fn):
            h.loop.call_soon(h.begin, bid)
        else:
            h.early.add(bid)
        return super().do_send_task(task, run_times)


class CtxPool(concurrent.futures.Executor):
    """A thread pool which tells exactly when it is idle (callbacks of the futures included)."""

    def __init__(self, max_workers):
        self._max_workers = max_workers
        self.cond = threading.Condition()
        self.queue, self.active, self.closed = [], {}, False

    def submit(self, fn, /, *args, **kwargs):
        future: Future = Future()
        with self.cond:
            if self.closed:
                raise RuntimeError("cannot schedule new futures after shutdown")
            self.queue.append((BID.get(), future, contextvars.copy_context(), fn, args, kwargs))
        self.pump()
        return future

    def pump(self):
        with self.cond:
            while self.queue and len(self.active) < self._max_workers:
                job = self.queue.pop(0)
                thread = self.active[job[0]] = threading.Thread(target=self.work, args=[job], daemon=True)
                thread.seg = hbodies.HARNESS.seg
                thread.start()
            self.cond.notify_all()

    def work(self, job):
        bid, future, ctx, fn, args, kwargs = job
        if future.set_running_or_notify_cancel():
            hbodies.HARNESS.begin(bid)
            try:
                result = ctx.run(fn, *args, **kwargs)
            except BaseException as exc:
                future.set_exception(exc)
            else:
                future.set_result(result)
        with self.cond:
            del self.active[bid]
        self.pump()

    def busy(self, gated):
        with self.cond:
            return any(b not in gated for b in self.active) or (
                bool(self.queue) and len(self.active) < self._max_workers
            )

    def shutdown(self, wait=True, *, cancel_futures=False):
        with self.cond:
            self.closed = True
            cancelled = []
            if cancel_futures:
                cancelled, self.queue = self.queue, []
        for job in cancelled:
            job[1].cancel()
            job[1].set_running_or_notify_cancel()
            hbodies.HARNESS.item(k="cancel", b=job[0])
        if wait:
            # the bodies come to their end, the later ones of a batch too
            deadline, done = time.monotonic() + 8, False
            while not done:
                hbodies.HARNESS.open_gates()
                with self.cond:
                    done = self.cond.wait_for(lambda: not self.active and not self.queue, 0.05)
                if not done and time.monotonic() > deadline:
                    raise RuntimeError("the running bodies do not come to their end")


class OThreadPoolExecutor(_Observed, ThreadPoolExecutor):
    def __init__(self, max_workers=2, **kwargs):
        super().__init__(max_workers, **kwargs)
        self.pool.shutdown(False)
        self.pool = CtxPool(max_workers)


class InlineExecutor(_RealThreadPool):
    """Default executor of the virtual loop: runs at once, in the loop's thread."""

    def submit(self, fn, /, *args, **kwargs):
        future: Future = Future()
        ctx = contextvars.copy_context()
        try:
            future.set_result(ctx.run(fn, *args, **kwargs))
        except BaseException as exc:
            future.set_exception(exc)
        return future


class _FaultLock:
    """the lock of a store, which may fail, e.g. when its file cannot be opened"""

    def __init__(self, lock, alias):
        self.lock, self.alias = lock, alias

    def protected(self, *args, **kwargs):
        hbodies.HARNESS.maybe_fault("lock", self.alias)
        return self.lock.protected(*args, **kwargs)

    def __getattr__(self, name):
        return getattr(self.lock, name)


class _FaultStore:
    def create_lock(self):
        return _FaultLock(super().create_lock(), self.alias)

    def get_due_tasks(self, now):
        h = hbodies.HARNESS
        h.maybe_fault("due", self.alias)
        result = super().get_due_tasks(now)
        return result

    def get_next_run_time(self):
        hbodies.HARNESS.maybe_fault("next", self.alias)
        return super().get_next_run_time()

    def lookup_task(self, task_id):
        h = hbodies.HARNESS
        h.maybe_fault("look", self.alias)
        result = super().lookup_task(task_id)
        return result

    def get_all_tasks(self):
        hbodies.HARNESS.maybe_fault("all", self.alias)
        return super().get_all_tasks()

    def add_task(self, task):
        h = hbodies.HARNESS
        h.maybe_fault("add", self.alias)
        return super().add_task(task)

    def update_task(self, task):
        h = hbodies.HARNESS
        h.maybe_fault("upd", task.id)
        return super().update_task(task)

    def delete_task(self, task_id):
        h = hbodies.HARNESS
        h.maybe_fault("del", task_id)
        return super().delete_task(task_id)

    def start(self, scheduler, alias):
        hbodies.HARNESS.maybe_fault("ststart", alias)
        return super().start(scheduler, alias)


class FMemoryStore(_FaultStore, MemoryStore):
    pass


class FFileStore(_FaultStore, FileStore):
    pass


class FSQLStore(_FaultStore, SQLAlchemyStore):
    pass


class _ObservedScheduler:
    def create_lock(self):
        return WRLock()

    def process_tasks(self):
        h = hbodies.HARNESS
        if h.par is not None:
            rec = h.par[h.tls.th]
            rec["op"] = "round"
            wait = super().process_tasks()
            rec["wait"] = NONE if wait is None else int(round(wait * 1000))
            return wait
        with h.entry("round", {}) as entry:
            wait = super().process_tasks()
            entry["wait"] = NONE if wait is None else int(round(wait * 1000))
            entry["ret"] = "wait"
        return wait


class ManualScheduler(_ObservedScheduler, BaseScheduler):
    event_loop = None

    def wakeup(self):
        hbodies.HARNESS.woke()

    def create_default_executor(self):
        return hbodies.HARNESS.make_exec("man", "default")

    def create_default_store(self):
        return hbodies.HARNESS.make_store("mem", "default")


class VAsyncIOScheduler(_ObservedScheduler, AsyncIOScheduler):
    def create_default_executor(self):
        return hbodies.HARNESS.make_exec("aio", "default")

    def create_default_store(self):
        return hbodies.HARNESS.make_store("mem", "default")


class VNativeScheduler(_ObservedScheduler, NativeAsyncIOScheduler):
    def create_default_executor(self):
        return hbodies.HARNESS.make_exec("aio", "default")

    def create_default_store(self):
        return hbodies.HARNESS.make_store("mem", "default")


class _EntryCtx:
    def __init__(self, harness, op, a):
        self.h, self.op, self.a = harness, op, a

    def __enter__(self):
        h = self.h
        h.flush_async()
        self.rec = h.new_rec(self.op, self.a)
        with h.lock:
            h.stack.append((h.items, h.wokes, h.lev))
            h.items, h.wokes, h.lev = [], 0, {}
        return self.rec

    def __exit__(self, et, ev, tb):
        h = self.h
        rec = self.rec
        if et is not None:
            rec["exc"] = et.__name__
        rec["tend"] = CLOCK.ms
        rec["post"] = h.post()
        with h.lock:
            rec["items"], rec["woke"] = h.items, h.wokes
            rec["lev"] = h.take_lev()
            h.items, h.wokes, h.lev = h.stack.pop()
        h.emit(rec)
        return False


class WRLock:
    """A reentrant lock that tells the harness when a thread has to wait for it."""

    def __init__(self):
        self.lock = threading.RLock()

    def acquire(self, blocking=True, timeout=-1):
        if self.lock.acquire(False):
            return True
        if not blocking:
            return False
        h = hbodies.HARNESS
        h.blocked(True)
        try:
            return self.lock.acquire(True, timeout)
        finally:
            h.blocked(False)

    def release(self):
        self.lock.release()

    def mine(self):
        return self.lock._is_owned()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()


TRACED = ("asyncz/schedulers/base.py", "asyncz/tasks/base.py", "asyncz/tasks/types.py", "asyncz/stores/base.py", "asyncz/stores/memory.py",
          "asyncz/stores/file.py", "asyncz/executors/base.py", "asyncz/locks.py")  # fmt: skip


class Turns:
    """Threads that run one at a time, from line to line; the plan says who goes on."""

    def __init__(self, plan, n):
        self.cond = threading.Condition()
        self.state = {th: "new" for th in range(1, n + 1)}
        self.turn = 0
        self.plan, self.lines = plan, dict.fromkeys(self.state, 0)
        self.rnd = random.Random(str(plan.get("seed", 0)))
        self.order = list(self.state)
        if plan.get("mode") == "pct":
            self.rnd.shuffle(self.order)
        self.changes = sorted(self.rnd.randrange(1, plan.get("span", 300)) for _ in range(plan.get("switch", 0)))
        self.cuts = [list(c) for c in plan.get("cuts", [])]
        self.ticks = 0
        # lines of the first thread where others may use the tasks
        self.free, self.held = [], lambda: False

    # in the threads
    def enter(self, th):
        def local(frame, event, arg):
            if event == "line":
                self.pause(th)
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.endswith(TRACED) else None

        self.pause(th)
        sys.settrace(tracer)

    def pause(self, th):
        with self.cond:
            self.lines[th] += 1
            if th == 1 and not self.held():
                self.free.append(self.lines[th])
            self.state[th] = "ready"
            if self.settled():
                self.turn = self.pick([t for t, s in self.state.items() if s == "ready"])
                if self.turn == th:
                    self.turn = 0
                    self.state[th] = "running"
                    return
                self.state[self.turn] = "running"
            self.cond.notify_all()
            while self.turn != th:
                self.cond.wait()
            self.turn = 0
            self.state[th] = "running"

    def leave(self, th):
        sys.settrace(None)
        with self.cond:
            self.state[th] = "done"
            self.cond.notify_all()

    def blocked(self, th, flag):
        with self.cond:
            self.state[th] = "blocked" if flag else "running"
            self.cond.notify_all()

    # in the driver
    def pick(self, ready):
        self.ticks += 1
        if self.cuts:
            while self.cuts and (self.cuts[0][1] <= 0 or self.state[self.cuts[0][0]] != "ready"):
                self.cuts.pop(0)
            if self.cuts:
                self.cuts[0][1] -= 1
                return self.cuts[0][0]
        if self.plan.get("mode") == "walk":
            return self.rnd.choice(ready)
        if self.changes and self.ticks >= self.changes[0]:
            self.changes.pop(0)
            self.order.append(self.order.pop(0))
        return min(ready, key=self.order.index)

    def settled(self):
        states = set(self.state.values())
        return self.turn == 0 and not states & {"running", "new"} and ("ready" in states or states == {"done"})

    def control(self):
        """lets them run to the end; False when they do not come to it"""
        with self.cond:
            idle = time.monotonic()
            while True:
                # who runs comes to its next line, unless it waits for a lock
                ticks = self.ticks
                self.cond.wait_for(self.settled, 0.05)
                if all(s == "done" for s in self.state.values()):
                    return True
                if ticks != self.ticks:
                    idle = time.monotonic()
                    if not self.settled():
                        continue
                ready = [th for th, s in self.state.items() if s == "ready"]
                if ready and self.turn == 0:
                    idle = time.monotonic()
                    self.turn = self.pick(ready)
                    self.state[self.turn] = "running"
                    self.cond.notify_all()
                elif time.monotonic() - idle > 6:
                    return False


class Harness:
    def __init__(self, scratch=None):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.scratch = scratch or tempfile.mkdtemp(prefix="vsched", dir=base)
        self.own_scratch = scratch is None
        self.entries = []
        self.lock = threading.RLock()
        self.n_store = self.seg = 0
        self.sched = None
        self.loop = None
        hbodies.HARNESS = self

    # ---------------------------------------------------------------- recording
    def new_rec(self, op, a, post=None):
        return {
            "op": op,
            "seg": self.seg,
            "now": CLOCK.ms,
            "tend": CLOCK.ms,
            "a": a,
            "ret": "-",
            "exc": "-",
            "wait": UNDEF,
            "items": [],
            "woke": 0,
            "lev": [],
            "post": post if post is not None else {},
        }

    def take_lev(self):
        lev, self.lev = self.lev, {}
        return [{"l": name, "s": serials} for name, serials in lev.items() if serials]

    def emit(self, rec):
        if self.stack:
            # happened inside of another call: comes after it
            self.deferred.append(rec)
            return
        self.entries.append(rec)
        deferred, self.deferred = self.deferred, []
        self.entries.extend(deferred)

    def stale(self):
        """in a thread that was left over by an earlier segment"""
        return getattr(threading.current_thread(), "seg", self.seg) != self.seg

    def item(self, **kw):
        with self.lock:
            if self.stale():
                return
            if self.par is not None:
                kw["th"] = getattr(self.tls, "th", 0)
            self.items.append(kw)

    def flush_async(self):
        """Items that happened outside of any recorded call become an entry of their own."""
        with self.lock:
            if not self.items or self.stack:
                return
            rec = self.new_rec("async", {})
            rec["items"], self.items = self.items, []
            rec["woke"], self.wokes = self.wokes, 0
            rec["lev"] = self.take_lev()
        rec["post"] = self.post()
        self.emit(rec)

    def begin(self, bid):
        self.item(k="begin", b=bid, now=CLOCK.ms)

    def entry(self, op, a):
        return _EntryCtx(self, op, a)

    def call(self, op, a, fn):
        if self.par is not None:
            return self.par_call(op, a, fn)
        result = None
        self.lastop = op
        try:
            with self.entry(op, a) as rec:
                result = fn()
                rec["ret"] = self.ret(result)
        except (Exception, BodyBaseError):
            pass
        return result

    def acall(self, op, a, make):
        """a call of a coroutine, recorded inside of the loop"""

        async def main():
            try:
                with self.entry(op, a) as rec:
                    rec["ret"] = self.ret(await make())
            except (Exception, BodyBaseError):
                pass

        self.loop.run_until_complete(main())

    # ---------------------------------------------------------------- concurrent calls
    def par_call(self, op, a, fn):
        rec = self.par[self.tls.th]
        rec["op"], rec["a"] = op, a
        try:
            result = fn()
            rec["ret"] = self.ret(result)
            return result
        except (Exception, BodyBaseError) as exc:
            rec["exc"] = type(exc).__name__

    def par_finish(self, ex, i):
        """a queued run takes place and ends, while other calls are on their way"""
        rec = self.par[self.tls.th]
        rec["op"], rec["a"] = "fin", {"b": 0, "id": ""}
        with self.lock:
            # (bodies which call the scheduler themselves are not for this)
            queue = getattr(ex, "queue", [])
            mine = [q for q in queue if q[0] < self.par_bid and self.plain_body(q[1])]
            if not mine:
                return
            one = mine[i % len(mine)]
            queue.remove(one)
        rec["a"] = {"b": one[0], "id": one[1].id}
        one[3].run(ex._run, *one[:3])

    def plain_body(self, task):
        key = str(task.args[0] if task.args else task.kwargs.get("key", "ok"))
        return not key.startswith(("adv", "gate", "self")) and key not in self.body_hooks

    def blocked(self, flag):
        th = getattr(self.tls, "th", 0)
        if self.par is not None and th:
            self.turns.blocked(th, flag)

    def op_par(self, a):
        """a: calls [{op, a}], plan: {mode, seed, switch} or {cuts: [[thread, lines], ...]}: how the threads take turns"""
        self.drain()
        recs = {}
        for th in range(1, len(a["calls"]) + 1):
            recs[th] = {"op": "?", "a": {}, "ret": "-", "exc": "-", "wait": UNDEF}
        now = CLOCK.ms
        with self.lock:
            self.stack.append((self.items, self.wokes, self.lev))
            self.items, self.wokes, self.lev = [], 0, {}
        self.par = recs
        self.par_bid = self.bid + 1
        turns = Turns(a["plan"], len(a["calls"]))
        self.turns = turns
        turns.held = getattr(getattr(self.sched, "store_lock", None), "mine", turns.held)

        def run(th, call):
            self.tls.th = th
            turns.enter(th)
            try:
                self.do(call["op"], **call["a"])
            except BaseException as exc:
                recs[th]["exc"] = repr(exc)[:200]
            finally:
                turns.leave(th)

        threads = [
            threading.Thread(target=run, args=[th, call], daemon=True) for th, call in enumerate(a["calls"], 1)
        ]
        for thread in threads:
            thread.start()
        hang = not turns.control()
        for thread in threads:
            thread.join(0 if hang else 20)
        self.par, self.turns = None, None
        self.par_lines, self.par_free = turns.lines, turns.free
        with self.lock:
            items = self.items
            wokes = self.wokes
            self.items, self.wokes, self.lev = self.stack.pop()
        calls = []
        for th, r in recs.items():
            own = [i for i in items if i.get("th") == th]
            failed = {i["b"] for i in own if i["k"] == "handfail"}
            hands = [i for i in own if i["k"] == "hand" and i["b"] not in failed]
            calls.append({
                "op": r["op"], "a": r["a"], "ret": r["ret"], "exc": "hang" if hang else r["exc"],
                "wait": r["wait"], "b": [i["b"] for i in hands],
                "hand": [{k: i[k] for k in ("id", "sa", "ex", "rts")} for i in hands],
            })
        evs = [i for i in items if i["k"] == "ev"]
        rec = self.new_rec("par", {"calls": calls, "chg": [i for i in items if i["k"] == "lchg"], "ev": evs})
        rec["now"] = now
        rec["woke"] = wokes
        rec["post"] = self.post()
        self.emit(rec)

    @staticmethod
    def ret(value):
        if value is True:
            return "true"
        if value is False:
            return "false"
        if value is None:
            return "none"
        if isinstance(value, Task):
            return "task:" + str(value.id)
        if type(value).__name__ == "RemoteTask":
            return hbodies.HARNESS.remote_ret(value)
        return str(value)

    def woke(self):
        self.wokes += 1

    def iso(self, at):
        return dt(at, self.tz).isoformat()

    @staticmethod
    def now_ms():
        return CLOCK.ms

    def post(self):
        saved, self.faults = self.faults, {}
        try:
            return self._post()
        finally:
            self.faults = saved

    def _post(self):
        s = self.sched
        if s is None:
            return {}
        api = self.api
        info = api.get_scheduler_info()
        tasks = s.get_tasks()
        infos = api.get_task_infos(sort_by="id")
        rec = {
            "st": info.state_label,
            "run": bool(api.running) == (info.state_label != "stopped") == bool(info.running),
            "tasks": [self.task_rec(t) for t in tasks],
            "infos": [self.info_rec(i) for i in infos],
            "cnt": [
                info.task_count,
                info.scheduled_task_count,
                info.paused_task_count,
                info.pending_task_count,
            ],
            "exs": list(info.executor_aliases),
            "sts": list(info.store_aliases),
            "sat": ms(info.started_at),
        }
        return rec

    @staticmethod
    def task_rec(t):
        grace = t.mistrigger_grace_time
        return {
            "id": str(t.id),
            "sa": str(t.store_alias),
            "nrt": ms(t.next_run_time),
            "tr": abs_trig(t.trigger),
            "ex": str(t.executor),
            "co": bool(t.coalesce),
            "mx": int(t.max_instances) if t.max_instances is not None else NONE,
            "gr": grace_ms(grace),
            "nm": str(t.name),
            "fn": getattr(t.fn, "__name__", "?"),
            "ar": jargs(t.args or ()),
            "kw": jkw(t.kwargs or {}),
            "pe": bool(t.pending),
        }

    @staticmethod
    def info_rec(i):
        grace = i.mistrigger_grace_time
        return {
            "id": str(i.id),
            "sa": str(i.store_alias),
            "nrt": ms(i.next_run_time),
            "ex": str(i.executor),
            "co": bool(i.coalesce),
            "mx": int(i.max_instances),
            "gr": grace_ms(grace),
            "nm": str(i.name),
            "fn": str(i.callable_name),
            "ar": jargs(i.args),
            "kw": jkw(i.kwargs),
            "ss": i.schedule_state.value,
            "pe": bool(i.pending),
            "pa": bool(i.paused),
            "su": bool(i.submitted),
            "ta": str(i.trigger_alias),
        }

    # ---------------------------------------------------------------- events and listeners
    def ev_rec(self, e):
        rts = getattr(e, "scheduled_run_times", None)
        exc = getattr(e, "exception", None)
        val = getattr(e, "return_value", None)
        return {
            "c": int(e.code),
            "id": str(getattr(e, "task_id", "")),
            "st": str(getattr(e, "store", "")),
            "al": str(e.alias),
            "rts": [ms(t) for t in rts] if rts is not None else [],
            "rt": ms(getattr(e, "scheduled_run_time", None)),
            "src": str(getattr(e, "source", "")),
            "cc": int(getattr(e, "coalesced_run_count", 0)),
            "val": "" if val is None else str(val),
            "exc": "" if exc is None else str(exc),
            "idn": str(getattr(e, "scheduler_identity", "")),
        }

    def primary(self, e):
        with self.lock:
            if self.stale():
                return
            self.serial += 1
            self.serials[id(e)] = self.serial
            self.keep.append(e)
            self.item(k="ev", n=self.serial, **self.ev_rec(e))

    def make_listener(self, name, behaviour="ok"):
        """behaviour: also off:NAME / on:NAME, removes or adds a listener when it is first called"""
        done = set()

        def listener(e):
            with self.lock:
                if self.stale():
                    return
                self.lev.setdefault(name, []).append(self.serials.get(id(e), 0))
            if behaviour.startswith(("off:", "on:")) and name not in done:
                done.add(name)
                act, other = behaviour.split(":")
                n = self.serials.get(id(e), 0)
                if act == "off":
                    target = self.listeners.pop(other, None)
                    if target is not None:
                        self.item(k="lchg", act="rm", l=other, n=n, mask=0)
                        self.sched.remove_listener(target)
                elif other not in self.listeners:
                    target = self.listeners[other] = self.make_listener(other)
                    self.item(k="lchg", act="add", l=other, n=n, mask=ALL_EVENTS)
                    self.sched.add_listener(target, ALL_EVENTS)
            if behaviour == "err":
                raise FaultError(name)
            if behaviour == "base":
                raise BodyBaseError(name)

        listener.__name__ = name
        return listener

    # ---------------------------------------------------------------- faults and gates
    def maybe_fault(self, at, key):
        for k in ((at, key), (at, "*")):
            left = self.faults.get(k, 0)
            if left:
                self.faults[k] = left - 1
                self.item(k="fault", at=at, key=str(key))
                raise FaultError(f"{at}:{key}")

    # ---------------------------------------------------------------- bodies
    def _token(self):
        with self.lock:
            self.tok += 1
            return f"v{self.tok}"

    def _body_start(self, fn, args, kwargs):
        self.item(
            k="body", b=BID.get(), fn=fn, ar=jargs(args), kw=jkw(kwargs), now=CLOCK.ms
        )

    def _body_end(self, kind, tok):
        self.item(k="end", b=BID.get(), o=kind, tok=tok, now=CLOCK.ms)

    def _finish(self, key, tok):
        if key.startswith("err"):
            self._body_end("exc", tok)
            raise BodyError(tok)
        if key.startswith("base") and not SYNC.get():
            self._body_end("base", tok)
            raise BodyBaseError(tok)
        self._body_end("ret", tok)
        return tok

    def run_body(self, fn, args, kwargs):
        key = str(args[0] if args else kwargs.get("key", "ok"))
        n = args[1] if len(args) > 1 else kwargs.get("n", 0)
        self._body_start(fn, args, kwargs)
        tok = self._token()
        if key.startswith("adv"):
            # (not for ever: a run may take longer than the interval of its task)
            self.advs += 1
            if self.advs <= 8:
                CLOCK.us += n * 1000
        elif key.startswith("once"):
            # fails every second time
            self.once += 1
            if self.once % 2:
                key = "err"
        elif key.startswith("gate"):
            event = threading.Event()
            with self.lock:
                self.thread_gates[BID.get()] = event
                self.gated.add(BID.get())
            event.wait(20)
            # a body may use the scheduler, also while a shutdown waits for it
            with contextlib.suppress(Exception):
                self.sched.get_tasks()
        elif key.startswith("self"):
            name = "-"
            try:
                self.sched.run_task(key[4:])
            except Exception as exc:
                name = type(exc).__name__
            self.item(k="self", id=key[4:], exc=name)
        hook = self.body_hooks.get(key)
        if hook is not None:
            hook()
        return self._finish(key, tok)

    async def run_async_body(self, fn, args, kwargs):
        key = args[0] if args else kwargs.get("key", "ok")
        self._body_start(fn, args, kwargs)
        tok = self._token()
        if "gate" in key:
            future = self.loop.create_future()
            self.async_gates.append(future)
            await future
            if future in self.async_gates:
                self.async_gates.remove(future)
        elif key.startswith("yield"):
            await asyncio.sleep(0)
        return self._finish(key, tok)

    # ---------------------------------------------------------------- construction
    def make_store(self, kind, alias):
        self.n_store += 1
        if kind == "mem":
            return FMemoryStore()
        if kind == "file":
            path = os.path.join(self.scratch, f"fs{self.n_store}")
            return FFileStore(path, cleanup_directory=False)
        if kind == "sql":
            path = os.path.join(self.scratch, f"sql{self.n_store}.db")
            return FSQLStore(database="sqlite:///" + path)
        raise ValueError(kind)

    def make_exec(self, kind, alias):
        ex = {
            "man": ManualExecutor,
            "dbg": ODebugExecutor,
            "aio": OAsyncIOExecutor,
            "thr": OThreadPoolExecutor,
        }[kind]()
        self.exec_alias[id(ex)] = alias
        self.exec_objs[alias] = ex
        self.exec_kinds[alias] = kind
        if kind == "thr":
            ex.done = False
            self.pools.append(ex)
        return ex

    def reset(self, cfg):
        """cfg: drv, tz, stores [{a,kind}], execs [{a,kind}], gr, co, mx, retry, lock"""
        self.close()
        if cfg.get("epoch"):
            CLOCK.reset(
                vclock.real_datetime.fromisoformat(cfg["epoch"]).replace(tzinfo=timezone.utc)
                - timedelta(seconds=cfg["fold"], milliseconds=cfg["t0"])
            )
        else:
            CLOCK.reset()
        CLOCK.us = cfg.get("t0", 0) * 1000
        self.tls = threading.local()
        self.par = None
        self.turns = None
        self.seg += 1
        self.stack, self.items, self.wokes, self.deferred = [], [], 0, []
        self.gated, self.early = set(), set()
        self.bid = self.tok = self.serial = self.once = self.advs = 0
        self.serials, self.keep = {}, []
        self.lev = {}
        self.faults = {}
        self.body_hooks, self.body_gates = {}, []
        self.thread_gates, self.async_gates = {}, []
        self.exec_alias, self.exec_objs, self.exec_kinds = {}, {}, {}
        self.pools = []
        self.listeners = {}
        self.cfg = cfg
        self.tz = ZoneInfo(cfg.get("tz", "UTC"))
        vclock.patch()
        self.loop = vclock.VirtualLoop()
        self.loop.set_default_executor(InlineExecutor(1))
        self.loop.vselector.on_jump = self.on_jump
        asyncio.set_event_loop(self.loop)
        defaults = {}
        if cfg["gr"] != UNDEF:
            defaults["mistrigger_grace_time"] = grace_s(cfg["gr"])
        if cfg["co"] != UNDEF:
            defaults["coalesce"] = bool(cfg["co"])
        if cfg["mx"] != UNDEF:
            defaults["max_instances"] = cfg["mx"]
        kwargs = {
            "timezone": self.tz,
            "identity": "sched-x",
            "store_retry_interval": cfg["retry"] / 1000,
            "task_defaults": defaults,
            "stores": {s["a"]: self.make_store(s["kind"], s["a"]) for s in cfg["stores"]},
            "executors": {e["a"]: self.make_exec(e["kind"], e["a"]) for e in cfg["execs"]},
        }
        if cfg.get("lock"):
            kwargs["lock_path"] = os.path.join(self.scratch, f"lock{self.n_store}-{{store}}")
            kwargs["startup_delay"] = cfg["delay"] / 1000
        drv = cfg.get("drv", "man")
        self.drv = drv
        self.sched = None
        if drv == "man":
            self.sched = ManualScheduler(**kwargs)
            self.sched.event_loop = self.loop
        elif drv == "aio":
            self.sched = VAsyncIOScheduler(event_loop=self.loop, **kwargs)
        else:
            self.sched = VNativeScheduler(**kwargs)
        self.sched.add_listener(self.primary, ALL_EVENTS)
        self.via = cfg.get("via", "local")
        self.api = self.sched
        if self.via == "remote":
            self.api, self.control = hdash.remote_client(self.sched)
        elif self.via == "dash":
            self.board = hdash.Board(self.sched)
        a = {
            "via": self.via,
            "gr": 1000 if cfg["gr"] == UNDEF else cfg["gr"],
            "co": True if cfg["co"] == UNDEF else bool(cfg["co"]),
            "mx": 1 if cfg["mx"] == UNDEF else cfg["mx"],
            "retry": cfg["retry"],
            "lock": bool(cfg.get("lock")),
            "delay": cfg.get("delay", 0) if cfg.get("lock") else 0,
            "man": drv == "man",
            "idn": "sched-x",
            "per": [s["a"] for s in cfg["stores"] if s["kind"] != "mem"],
            "sts": [s["a"] for s in cfg["stores"]],
            "exs": [e["a"] for e in cfg["execs"]],
            "aio": [e["a"] for e in cfg["execs"] if e["kind"] == "aio"]
            + (["default"] if drv != "man" and "default" not in self.exec_kinds else []),
            "queued": [e["a"] for e in cfg["execs"] if e["kind"] in ("man", "thr")]
            + (["default"] if drv == "man" and "default" not in self.exec_kinds else []),
        }
        self.emit(self.new_rec("reset", a, self.post()))

    def close(self):
        if getattr(self, "loop", None) is not None:
            self.open_gates()
            for ex in self.pools:
                ex.pool.shutdown(True)
            try:
                for task in asyncio.all_tasks(self.loop):
                    task.cancel()
                self.items, self.stack = [], []
                self.loop.run_until_complete(asyncio.sleep(0))
                self.loop.run_until_complete(asyncio.sleep(0))
            except BaseException:
                pass
            self.loop.close()
            self.loop = None
            self.sched = None

    def finish(self):
        self.close()
        if self.own_scratch:
            shutil.rmtree(self.scratch, ignore_errors=True)

    # ---------------------------------------------------------------- virtual time
    def on_jump(self, frm, to):
        # the event loop is idle and sleeps until its next timer
        self.flush_async()
        self.adv_entry(to // 1000, "sleep")

    def adv_entry(self, to, kind):
        self.emit(self.new_rec("adv", {"to": to, "kind": kind}))

    def drain(self):
        self.loop.drain()
        self.flush_async()

    def quiet(self):
        """Nothing is running any more except gated bodies and queued runs."""
        self.drain()
        self.settle()
        self.emit(self.new_rec("quiet", {}))

    def open_gates(self):
        for event in list(self.thread_gates.values()):
            event.set()
        self.gated.clear()

    def settle(self):
        """Wait until the worker threads have nothing to do any more (or wait at a gate)."""
        pools = [p for p in self.pools if not p.done]
        if not pools:
            return
        deadline = time.monotonic() + 10
        while time.monotonic() < deadline:
            if not any(p.pool.busy(self.gated) for p in pools):
                break
            time.sleep(0.0003)
        self.flush_async()

    def do(self, op, **a):
        result = getattr(self, "op_" + op)(a)
        if self.par is None and self.pools:
            self.settle()
        return result

    # ---------------------------------------------------------------- operations
    def op_start(self, a):
        if self.par is not None:
            return self.par_call("start", a, lambda: self.sched.start(a["paused"]))
        self.drain()
        if self.drv == "nat":
            self.acall("start", a, lambda: self.sched.start(a["paused"]))
        else:
            self.call("start", a, lambda: self.sched.start(a["paused"]))
        if self.drv != "man":
            self.drain()

    def op_shutdown(self, a):
        if self.par is not None:
            return self.par_call("shutdown", a, lambda: self.sched.shutdown(a["wait"]))
        self.drain()

        def fn():
            result = self.sched.shutdown(a["wait"])
            self.loop.drain()
            return result

        if self.drv == "nat":
            self.acall("shutdown", a, lambda: self.sched.shutdown(a["wait"]))
            self.drain()
        else:
            self.call("shutdown", a, fn)

    def op_pause(self, a):
        self.call("pause", a, self.sched.pause)

    def op_resume(self, a):
        self.call("resume", a, self.sched.resume)

    def op_setup(self, a):
        self.call("setup", a, lambda: self.sched.setup({}, timezone="UTC"))

    def task_kwargs(self, a):
        """options of an add operation that are given"""
        kw = {}
        if a["nrt"] != UNDEF:
            kw["next_run_time"] = None if a["nrt"] == NONE else dt(a["nrt"], self.tz)
        if a["gr"] != UNDEF:
            kw["mistrigger_grace_time"] = None if a["gr"] == NONE else grace_s(a["gr"])
        if a["co"] != UNDEF:
            kw["coalesce"] = bool(a["co"])
        if a["mx"] != UNDEF:
            kw["max_instances"] = a["mx"]
        if a["ex"]:
            kw["executor"] = a["ex"]
        if a["sa"]:
            kw["store"] = a["sa"]
        if a["nm"]:
            kw["name"] = a["nm"]
        return kw

    def trig_args(self, spec):
        """either a trigger object or alias + arguments, as in the call"""
        form = spec.get("form", "obj")
        if form == "obj":
            return make_trig(spec, self.tz), {}
        k = spec["k"]
        if k == "date":
            return "date", {"run_at": dt(spec["at"], self.tz)}
        if k == "datenow":
            return None, {}
        if k == "int":
            kw = {"seconds": spec["per"] / 1000, "start_at": dt(spec["st"], self.tz)}
            if spec["en"] != NONE:
                kw["end_at"] = dt(spec["en"], self.tz)
            return "interval", kw
        if k == "intnow":
            return "interval", {"seconds": spec["per"] / 1000}
        if k == "cron":
            return "cron", {"second": f"*/{spec['per'] // 1000}"}
        if k == "shut":
            return "shutdown", {}
        return make_trig(spec, self.tz), {}

    def norm_trig(self, spec):
        """what the trigger of the call means"""
        base = {
            "k": "?", "at": NONE, "st": NONE, "per": 0, "en": NONE, "ts": [], "fk": "", "parts": []
        }
        spec = {k: v for k, v in spec.items() if k != "form"}
        if spec["k"] == "datenow":
            spec = {"k": "date", "at": CLOCK.ms}
        elif spec["k"] == "intnow":
            spec = {"k": "int", "st": CLOCK.ms + spec["per"], "per": spec["per"]}
        base.update(spec)
        if base["k"] == "list":
            base["fk"] = ",".join(map(str, base["ts"]))
        base["parts"] = [self.norm_trig(p) for p in base["parts"]]
        return base

    def op_add(self, a):
        """a: id, sa, tr, nrt, ex, co, mx, gr, nm, rep, fn, ar, kw, how"""
        fn = getattr(hbodies, a["fn"])
        kw = self.task_kwargs(a)
        spec = a["tr"]
        log = dict(a)
        log["tr"] = self.norm_trig(spec)
        log["mis"] = spec["k"] == "datenow" and a["how"] != "obj"
        log["ar"], log["kw"] = jargs(a["ar"]), jkw(a["kw"])
        log["okargs"] = args_ok(a["ar"], a["kw"])
        trigger, targs = self.trig_args(spec)

        def run():
            if a["how"] == "call":
                return self.api.add_task(
                    fn,
                    trigger,
                    args=a["ar"],
                    kwargs=a["kw"],
                    id=a["id"],
                    replace_existing=a["rep"],
                    **kw,
                    **targs,
                )
            if a["how"] == "deco":
                kw2 = dict(kw)
                decorator = self.sched.add_task(
                    trigger=trigger, args=a["ar"], kwargs=a["kw"], id=a["id"], **kw2, **targs
                )
                decorator(fn)
                return "task:" + a["id"]
            okw = {k: v for k, v in kw.items() if k not in ("store", "next_run_time")}
            task = Task(
                id=a["id"],
                fn=fn,
                args=a["ar"],
                kwargs=a["kw"],
                trigger=trigger if hasattr(trigger, "get_next_trigger_time") else make_trig(log["tr"], self.tz),
                scheduler=self.sched,
                mistrigger_grace_time=okw.pop("mistrigger_grace_time", None),
                **{"coalesce": True, "max_instances": 1, **okw},
            )
            return self.sched.add_task(
                task,
                replace_existing=a["rep"],
                **{k: v for k, v in kw.items() if k in ("store", "next_run_time")},
            )

        self.call("add", log, run)
        self.after()

    def after(self):
        """asyncio schedulers: calls from outside are made between loop iterations"""

    def op_update(self, a):
        """a: id, sa, up: [{k,t,v}]"""
        updates = {}
        log = []
        for u in a["up"]:
            k, t, v = u["k"], u["t"], u["v"]
            rec = {"k": k, "t": t, "i": 0, "s": "", "tr": self.norm_trig({"k": "?"}), "ok": True}
            if k == "nrt":
                updates["next_run_time"] = None if t == "none" else dt(v, self.tz)
                rec["i"] = NONE if t == "none" else v
            elif k == "gr":
                updates["mistrigger_grace_time"] = (
                    None if t == "none" else (v if t == "str" else grace_s(v))
                )
                rec["i"] = v if t == "int" else NONE
            elif k == "mx":
                updates["max_instances"] = None if t == "none" else v
                rec["i"] = v if t == "int" else NONE
            elif k == "co":
                updates["coalesce"] = v
                rec["i"] = 1 if v else 0
            elif k == "nm":
                updates["name"] = None if t == "none" else v
                rec["s"] = v if t == "str" else ""
            elif k == "ex":
                updates["executor"] = v
                rec["s"] = v if t == "str" else ""
            elif k == "tr":
                updates["trigger"] = make_trig(v, self.tz) if t == "trig" else v
                if t == "trig":
                    rec["tr"] = self.norm_trig(v)
            elif k == "ar":
                updates["args"] = v
                rec["s"] = jargs(v) if t == "list" else ""
            elif k == "kw":
                updates["kwargs"] = v
                rec["s"] = jkw(v) if t == "dict" else ""
            elif k == "id":
                updates["id"] = v
            elif k == "fn":
                updates["fn"] = getattr(hbodies, v) if t == "fn" else v
                rec["s"] = v if t == "fn" else ""
            else:
                updates[k] = v
            log.append(rec)
        task = self.find(a["id"], a["sa"])
        args = updates.get("args", task.args if task else ())
        kwargs = updates.get("kwargs", task.kwargs if task else {})
        ok = args_ok(args, kwargs)
        self.call(
            "update",
            {"id": a["id"], "sa": a["sa"], "up": log, "okargs": ok},
            lambda: self.api.update_task(self.ref(a), a["sa"] or None, **updates),
        )

    def find(self, id, sa):
        saved, self.faults = self.faults, {}
        try:
            return self.sched.get_task(id, sa or None)
        finally:
            self.faults = saved

    def remote_ret(self, task):
        """the snapshot which was sent back is that of the task"""
        if self.lastop in ("add", "update", "pauset", "resumet"):
            saved, self.faults = self.faults, {}
            try:
                wants = [t.snapshot() for t in self.sched.get_tasks() if t.id == task.id]
            finally:
                self.faults = saved
            got = task.snapshot()
            skip = ("args", "kwargs", "next_run_time")
            for want in wants:
                same = all(getattr(want, k) == getattr(got, k) for k in type(want).model_fields if k not in skip)
                if same and self.info_rec(want) == self.info_rec(got) and isinstance(got.args, tuple):
                    break
            else:
                return f"other:{task.id}"
        return "task:" + str(task.id)

    def ref(self, a, api=True):
        """task id or (stale) task object"""
        if a.get("obj"):
            task = self.find(a["id"], a["sa"])
            if task is not None and api and self.via == "remote":
                return self.api.get_task(a["id"], a["sa"] or None)
            if task is not None:
                return task
        return a["id"]

    def op_resched(self, a):
        trigger, targs = self.trig_args(a["tr"])
        log = {"id": a["id"], "sa": a["sa"], "tr": self.norm_trig(a["tr"])}
        self.call(
            "resched",
            log,
            lambda: self.sched.reschedule_task(self.ref(a, False), a["sa"] or None, trigger, **targs),
        )

    def op_pauset(self, a):
        self.call("pauset", a, lambda: self.api.pause_task(self.ref(a), a["sa"] or None))

    def op_resumet(self, a):
        self.call("resumet", a, lambda: self.api.resume_task(self.ref(a), a["sa"] or None))

    def op_del(self, a):
        self.call("del", a, lambda: self.api.delete_task(self.ref(a), a["sa"] or None))

    def op_delall(self, a):
        self.call("delall", a, lambda: self.sched.remove_all_tasks(a["sa"] or None))

    def op_run(self, a):
        self.call(
            "run",
            a,
            lambda: self.api.run_task(
                self.ref(a), a["sa"] or None, force=a["force"], remove_finished=a["rmf"]
            ),
        )

    def op_addstore(self, a):
        self.call(
            "addstore",
            a,
            lambda: self.sched.add_store(self.make_store(a["kind"], a["al"]), a["al"]),
        )

    def op_rmstore(self, a):
        self.call("rmstore", a, lambda: self.sched.remove_store(a["al"]))

    def op_addexec(self, a):
        def fn():
            known = dict(self.exec_objs), dict(self.exec_kinds)
            ex = self.make_exec(a["kind"], a["al"])
            try:
                return self.sched.add_executor(ex, a["al"])
            except BaseException:
                self.exec_objs, self.exec_kinds = known
                raise

        self.call("addexec", a, fn)

    def op_rmexec(self, a):
        self.drain()

        def fn():
            self.sched.remove_executor(a["al"])
            self.loop.drain()

        self.call("rmexec", a, fn)

    def op_addlis(self, a):
        listener = self.make_listener(a["l"], a["beh"])
        self.listeners[a["l"]] = listener
        self.call("addlis", a, lambda: self.sched.add_listener(listener, a["mask"]))

    def op_rmlis(self, a):
        listener = self.listeners.pop(a["l"], None) or (lambda e: None)
        self.call("rmlis", a, lambda: self.sched.remove_listener(listener))

    def op_fault(self, a):
        key = (a["at"], a["key"])
        self.faults[key] = a["n"]

    def op_clear(self, a):
        self.faults.clear()

    def op_round(self, a):
        try:
            self.sched.process_tasks()
        except Exception:
            pass

    def op_adv(self, a):
        """Manual scheduler: the clock moves while nothing happens."""
        to = a["to"]
        if to <= CLOCK.ms:
            return
        if self.drv == "man":
            self.drain()
            self.adv_entry(to, "man")
            CLOCK.us = to * 1000
        else:
            self.loop.advance_to(to * 1000)
            self.flush_async()

    def op_late(self, a):
        """The process is suspended: the clock moves while the loop does not run."""
        to = a["to"]
        if to <= CLOCK.ms:
            return
        self.drain()
        self.adv_entry(to, "late")
        CLOCK.us = to * 1000

    def op_loop(self, a):
        self.drain()

    def op_begin(self, a):
        """run the i-th queued batch of a manual executor"""
        ex = self.exec_objs.get(a["ex"])
        if self.par is not None:
            return self.par_finish(ex, a["i"])
        if isinstance(ex, _Manual) and getattr(ex, "queue", None):
            ex.run_one(a["i"] % len(ex.queue))
            self.flush_async()

    def op_release(self, a):
        """let gated bodies go on"""
        pending = [f for f in self.async_gates if not f.done()] + sorted(self.gated)
        if pending:
            gate = pending[a["i"] % len(pending)]
            if isinstance(gate, int):
                self.gated.discard(gate)
                self.thread_gates[gate].set()
                self.settle()
            else:
                gate.set_result(None)
        self.drain()

    def op_quiet(self, a):
        self.quiet()

    def op_query(self, a):
        kw = {}
        if a["ss"]:
            kw["schedule_state"] = a["ss"]
        if a["ex"]:
            kw["executor"] = a["ex"]
        if a["tg"]:
            kw["trigger"] = a["tg"]
        if a["q"]:
            kw["q"] = a["q"]
        if a["sort"]:
            kw["sort_by"] = a["sort"]
        log = dict(a)
        log["res"] = []
        log["tgl"] = a["tg"].strip().lower()
        log["bad"] = a["sort"] not in SORTS or a["ss"].strip().lower() not in STATES
        needle = a["q"].strip().lower()
        infos = self.sched.get_task_infos()
        fields = {
            "kid": lambda i: i.id.lower(),
            "knm": lambda i: (i.name or "").lower(),
            "kex": lambda i: (i.executor or "").lower(),
            "kst": lambda i: (i.store_alias or "").lower(),
            "kss": lambda i: i.schedule_state.value,
            "ktg": lambda i: (i.trigger_alias or i.trigger_name or "").lower(),
        }
        log["all"] = [
            {
                "id": i.id, "sa": str(i.store_alias), "nrt": ms(i.next_run_time),
                "ss": i.schedule_state.value, "ex": str(i.executor),
                "tg": [(i.trigger_alias or "").lower(), (i.trigger_name or "").lower()],
                "hit": self.q_hit(i, needle),
                **{
                    k: sorted({f(j) for j in infos}).index(f(i)) for k, f in fields.items()
                },
            }
            for i in infos
        ]

        def fn():
            infos = self.api.get_task_infos(a["sa"] or None, descending=a["desc"], **kw)
            log["res"] = [{"id": i.id, "sa": str(i.store_alias)} for i in infos]

        self.call("query", log, fn)

    @staticmethod
    def q_hit(i, needle):
        if not needle:
            return True
        fields = (
            i.id,
            i.name,
            i.callable_name,
            i.callable_reference,
            i.trigger_alias,
            i.trigger_name,
            i.trigger_description,
            i.executor,
            i.store_alias,
            i.schedule_state.value,
        )
        return any(needle in (f or "").lower() for f in fields)

    def op_preview(self, a):
        log = dict(a)
        log["res"], log["exh"], log["cntr"] = [], False, 0

        def fn():
            kw = {} if a["now"] == NONE else {"now": dt(a["now"], self.tz)}
            p = self.api.preview_task_runs(a["id"], a["sa"] or None, count=a["n"], **kw)
            if p is None:
                return None
            log["res"] = [ms(t) for t in p.run_times]
            log["exh"] = p.exhausted
            log["cntr"] = p.requested_count
            return p.task.id

        self.call("preview", log, fn)

    def dash(self, log, path, fields):
        """one request to the dashboard, which is a call of the scheduler (or several)"""
        log.update(status=0, aud=[])

        def fn():
            if self.via == "dash":
                log["status"], log["aud"] = self.board.post(path, fields)
            else:
                self.instead(log)

        self.call("dash", log, fn)

    def instead(self, log):
        """the same calls without the dashboard (when a violation has to be told from one of the scheduler itself)"""
        s, act = self.sched, log["act"]
        calls = {"run": lambda i: s.run_task(i, force=True, remove_finished=False), "pause": s.pause_task, "resume": s.resume_task,
                 "remove": s.delete_task}  # fmt: skip
        for i in log["ids"]:
            with contextlib.suppress(Exception):
                if act in calls:
                    calls[act](i)
                elif act == "update" and log["apply"] and not log["bad"] and s.get_task(i) is not None:
                    new = self.new
                    keys = {"nm": "name", "ex": "executor", "co": "coalesce", "mx": "max_instances", "ar": "args", "kw": "kwargs"}
                    s.update_task(i, fn=getattr(hbodies, new["fn"]), mistrigger_grace_time=None if new["gr"] is None else grace_s(new["gr"]),
                                  **{keys[k]: v for k, v in new.items() if k in keys})  # fmt: skip
                elif act == "create" and not log["bad"]:
                    tr = log["tr"]
                    trigger = (CronTrigger.from_crontab(f"*/{tr['per'] // 60000} * * * *", timezone=self.tz) if tr["k"] == "cron"
                               else make_trig(tr, self.tz))  # fmt: skip
                    s.add_task(getattr(hbodies, log["fn"]), trigger, args=self.new[0], kwargs=self.new[1],
                               name=log["nm"] or None, store=log["sa"] or None)  # fmt: skip

    def op_dact(self, a):
        """run, pause, resume, remove: of one task or of several. a: act, ids, form"""
        log = {"act": a["act"], "ids": list(dict.fromkeys(a["ids"]))}
        if a["form"] == "one":
            path, fields = f"/tasks/{hdash.quote(a['ids'][0])}/{a['act']}", {}
        else:
            path = f"/tasks/hx/bulk/{a['act']}"
            ids = {"json": json.dumps(a["ids"]), "comma": " , ".join(a["ids"]), "mixed": json.dumps([*a["ids"], 7, None])}
            fields = {"ids": ids[a["form"]]}
        self.dash(log, path, fields)

    def op_dedit(self, a):
        """a: id, intent, set: fields that differ from those of the task"""
        task = self.find(a["id"], "")
        fields = hdash.edit_fields(task) if task else hdash.EDIT
        form, bad, clear = dict(fields), False, fields.get("clear")
        form.pop("clear", None)
        new = {
            "nm": task.name, "fn": task.fn.__name__, "ex": task.executor, "co": bool(task.coalesce), "mx": task.max_instances,
            "ar": list(task.args), "kw": dict(task.kwargs),
            "gr": None if task.mistrigger_grace_time is None else grace_ms(task.mistrigger_grace_time),
        } if task else {}  # fmt: skip
        for k, v in a["set"].items():
            if v["bad"]:
                bad = True
            elif task:
                new[k] = v["v"]
            if k == "gr" and (v["bad"] or v["v"] is not None):
                clear = False
            form.update({hdash.FIELDS[k]: v["text"]})
        if clear or ("gr" in a["set"] and not a["set"]["gr"]["bad"] and a["set"]["gr"]["v"] is None):
            form["clear_mistrigger_grace_time"] = "1"
        up = []
        for k, v in new.items():
            rec = {"k": k, "t": "none" if v is None else {"co": "bool", "mx": "int", "gr": "int", "ar": "list", "kw": "dict", "fn": "fn"}.get(k, "str"),
                   "i": 0, "s": "", "tr": self.norm_trig({"k": "?"}), "ok": True}  # fmt: skip
            if k in ("mx", "gr", "co"):
                rec["i"] = NONE if v is None else int(v)
            else:
                rec["s"] = jargs(v) if k == "ar" else jkw(v) if k == "kw" else v
            up.append(rec)
        log = {"act": "update", "ids": [a["id"]], "bad": bad, "apply": a["intent"] == "apply", "up": up,
               "okargs": not new or args_ok(new["ar"], new["kw"])}  # fmt: skip
        self.new = new
        self.dash(log, f"/tasks/{hdash.quote(a['id'])}/edit", {**form, "intent": a["intent"]})

    def op_dcreate(self, a):
        """a: fn, nm, sa, tt, tv, ar, kw (texts), spec: what they mean, bad"""
        spec = self.norm_trig(a["tr"])
        log = {
            "act": "create", "ids": [a["fn"]], "bad": a["bad"], "how": "call", "mis": False, "id": "", "sa": a["sa"].strip(), "tr": spec,
            "nrt": UNDEF, "ex": "", "co": UNDEF, "mx": UNDEF, "gr": UNDEF, "nm": a["nm"], "rep": False, "fn": a["fn"].partition(":")[2],
            "ar": "", "kw": "", "okargs": True,
        }  # fmt: skip
        if not a["bad"]:
            ar, kw = json.loads(a["ar"] or "[]"), json.loads(a["kw"] or "{}")
            self.new = [ar, kw]
            log["ar"], log["kw"], log["okargs"] = jargs(ar), jkw(kw), args_ok(ar, kw)
        saved, self.faults = self.faults, {}
        before = {t.id for t in self.sched.get_tasks()}
        self.faults = saved
        fields = {"callable_path": a["fn"], "name": a["nm"], "store": a["sa"], "trigger_type": a["tt"], "trigger_value": a["tv"],
                  "args": a["ar"], "kwargs": a["kw"]}  # fmt: skip

        def created():
            new = [t.id for t in self.sched.get_tasks() if t.id not in before]
            log["id"] = new[0] if len(new) == 1 else ""

        log.update(status=0, aud=[])

        def fn():
            if self.via == "dash":
                log["status"], log["aud"] = self.board.post("/tasks/create", fields)
            else:
                self.instead(log)
            saved, self.faults = self.faults, {}
            created()
            self.faults = saved

        self.call("dash", log, fn)

    def op_probe(self, a):
        log = {"id": a["id"], "res": []}

        def fn():
            for what in a["what"] if self.via == "remote" else []:
                status, body = hdash.probe(self.control, what, a["id"], a["tok"])
                log["res"].append({"what": what, "status": status, "data": "data" in body})

        self.call("probe", log, fn)

    def op_peek(self, a):
        """what a reader sees while other calls are on their way (id "": everything)"""
        rec = self.par[self.tls.th]
        rec["op"], rec["a"] = "peek", a
        try:
            if a["id"]:
                info = self.api.get_task_info(a["id"], a["sa"] or None)
                infos = [] if info is None else [info]
            else:
                infos = self.api.get_task_infos(a["sa"] or None, sort_by="id")
            rec["ret"] = [self.info_rec(i) for i in infos]
        except Exception as exc:
            rec["exc"] = type(exc).__name__

    def op_info(self, a):
        """the scheduler as a reader sees it while other calls are on their way"""
        rec = self.par[self.tls.th]
        rec["op"], rec["a"] = "info", a
        try:
            info = self.api.get_scheduler_info()
            rec["ret"] = {
                "st": info.state_label, "up": info.running, "sat": ms(info.started_at),
                "cnt": [info.task_count, info.scheduled_task_count, info.paused_task_count, info.pending_task_count],
            }  # fmt: skip
        except Exception as exc:
            rec["exc"] = type(exc).__name__

    def op_look(self, a):
        """the next runs of a task as a reader sees them while other calls are on their way"""
        rec = self.par[self.tls.th]
        rec["op"], rec["a"] = "look", a
        try:
            p = self.api.preview_task_runs(a["id"], a["sa"] or None, count=a["n"])
            rec["ret"] = {"info": [], "res": [], "exh": False}
            if p is not None:
                rec["ret"] = {"info": [self.info_rec(p.task)], "res": [ms(t) for t in p.run_times], "exh": p.exhausted}
        except Exception as exc:
            rec["exc"] = type(exc).__name__

    def op_lookup(self, a):
        def fn():
            t = self.api.get_task(a["id"], a["sa"] or None)
            i = self.api.get_task_info(a["id"], a["sa"] or None)
            if (t is None) != (i is None) or (t and (t.id != i.id or t.store_alias != i.store_alias)):
                return "inconsistent"
            return "none" if t is None else str(t.id) + "@" + str(t.store_alias)

        self.call("lookup", a, fn)


SORTS = ("", "id", "name", "next_run_time", "schedule_state", "executor", "store", "trigger")
STATES = ("", "scheduled", "paused", "pending")


def args_ok(args, kwargs):
    if not isinstance(args, (list, tuple)) or not isinstance(kwargs, dict):
        return False
    import inspect

    try:
        inspect.signature(hbodies._signature).bind(*args, **kwargs)
        return True
    except TypeError:
        return False
