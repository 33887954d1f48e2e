"""Virtual time for the code under test: every ``datetime``/``time`` global of the asyncz modules is
replaced (in this process only) by a proxy that reads a driver-controlled clock."""

from __future__ import annotations

import asyncio
import datetime as _dtmod
import heapq
import importlib
import pkgutil
import selectors
import sys
import time as _timemod
import types
from datetime import datetime as real_datetime
from datetime import timedelta, timezone

EPOCH = real_datetime(2030, 1, 1, tzinfo=timezone.utc)


class Clock:
    def __init__(self) -> None:
        self.us = 0
        self.epoch = EPOCH

    def reset(self, epoch=EPOCH) -> None:
        self.us = 0
        self.epoch = epoch

    def now(self, tz=None):
        value = self.epoch + timedelta(microseconds=self.us)
        if tz is None:
            return value.replace(tzinfo=None)
        return value.astimezone(tz)

    @property
    def ms(self) -> int:
        return self.us // 1000


CLOCK = Clock()


class _Meta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, real_datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, real_datetime)

    def __getattr__(cls, name):
        return getattr(real_datetime, name)

    def __call__(cls, *args, **kwargs):
        return real_datetime(*args, **kwargs)


class VDatetime(metaclass=_Meta):
    @staticmethod
    def now(tz=None):
        return CLOCK.now(tz)

    @staticmethod
    def utcnow():
        return CLOCK.now(timezone.utc).replace(tzinfo=None)

    @staticmethod
    def today():
        return CLOCK.now()


class _ModuleProxy(types.ModuleType):
    def __init__(self, module, **overrides):
        super().__init__(module.__name__)
        self.__dict__["_module"] = module
        self.__dict__.update(overrides)

    def __getattr__(self, name):
        return getattr(self.__dict__["_module"], name)


def _vtime():
    return CLOCK.now(timezone.utc).timestamp()


V_DT_MODULE = _ModuleProxy(_dtmod, datetime=VDatetime)
V_TIME_MODULE = _ModuleProxy(_timemod, time=_vtime, monotonic=lambda: CLOCK.us / 1e6)


def patch(*extra_modules: str) -> None:
    for name, module in list(sys.modules.items()):
        if module is None or not (name == "asyncz" or name.startswith("asyncz.")):
            continue
        for key, value in list(vars(module).items()):
            if value is real_datetime:
                setattr(module, key, VDatetime)
            elif value is _dtmod:
                setattr(module, key, V_DT_MODULE)
            elif value is _timemod:
                setattr(module, key, V_TIME_MODULE)
            elif value is _timemod.time:
                setattr(module, key, _vtime)


def import_core() -> None:
    """Import the core packages of asyncz (everything but cli and contrib) and patch their clock."""
    import asyncz  # noqa

    for sub in ("triggers", "tasks", "stores", "executors", "schedulers", "events", "shapes"):
        package = importlib.import_module(f"asyncz.{sub}")
        for info in pkgutil.walk_packages(package.__path__, f"asyncz.{sub}."):
            try:
                importlib.import_module(info.name)
            except ImportError:
                pass
    patch()


class VirtualSelector(selectors.SelectSelector):
    """Instead of waiting, jump the clock to the next timer."""

    on_jump = None
    horizon_us = None

    def select(self, timeout=None):
        events = super().select(0)
        if events or timeout == 0:
            return events
        if timeout is None:
            raise RuntimeError("virtual loop would wait forever")
        target = CLOCK.us + max(0, round(timeout * 1_000_000))
        if target > CLOCK.us:
            if self.on_jump is not None:
                self.on_jump(CLOCK.us, target)
            CLOCK.us = max(CLOCK.us, target)
        return events


class VirtualLoop(asyncio.SelectorEventLoop):
    def __init__(self) -> None:
        self.vselector = VirtualSelector()
        super().__init__(self.vselector)

    def time(self) -> float:
        return CLOCK.us / 1_000_000

    def drain(self, limit: int = 2000) -> None:
        """Run everything that is ready, without advancing the clock."""
        for _ in range(limit):
            self.call_soon(self.stop)
            self.run_forever()
            if not self._ready and not self._due():
                return
        raise RuntimeError("virtual loop does not become idle")

    def _due(self) -> bool:
        while self._scheduled and self._scheduled[0]._cancelled:
            handle = heapq.heappop(self._scheduled)
            handle._scheduled = False
            self._timer_cancelled_count = max(0, self._timer_cancelled_count - 1)
        return bool(self._scheduled) and self._scheduled[0]._when <= self.time() + 1e-9

    def advance_to(self, target_us: int) -> None:
        """Let the loop run on virtual time until the target."""
        if target_us > CLOCK.us:
            self.call_at(target_us / 1_000_000, self.stop)
            self.run_forever()
        self.drain()
