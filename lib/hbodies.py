"""Task bodies, triggers used by the harness. Importable by name, so persistent stores can restore them."""

from __future__ import annotations

import inspect
from datetime import datetime, timedelta
from typing import Any, ClassVar, Optional

from asyncz.triggers.base import BaseTrigger

HARNESS: Any = None


def _signature(key: str, n: int = 0, *, opt: Any = None) -> Any: ...


def sync_body(*args: Any, **kwargs: Any) -> Any:
    return HARNESS.run_body("sync_body", args, kwargs)


async def async_body(*args: Any, **kwargs: Any) -> Any:
    return await HARNESS.run_async_body("async_body", args, kwargs)


def shut_body(*args: Any, **kwargs: Any) -> Any:
    return HARNESS.run_body("shut_body", args, kwargs)


async def ashut_body(*args: Any, **kwargs: Any) -> Any:
    return await HARNESS.run_async_body("ashut_body", args, kwargs)


for _fn in (sync_body, async_body, shut_body, ashut_body):
    _fn.__signature__ = inspect.signature(_signature)


class ListTrigger(BaseTrigger):
    """Yields the given points in time (milliseconds since the harness epoch)."""

    alias: ClassVar[str] = "hlist"
    base: datetime
    ts: list[int]
    fkey: str = ""

    def get_next_trigger_time(
        self, timezone: Any, previous_time: Optional[datetime], now: Optional[datetime] = None
    ) -> Optional[datetime]:
        if HARNESS is not None:
            HARNESS.maybe_fault("trig", self.fkey)
        for ms in self.ts:
            value = self.base + timedelta(milliseconds=ms)
            if previous_time is not None:
                if value > previous_time:
                    return value.astimezone(timezone)
            elif value >= now:
                return value.astimezone(timezone)
        return None

    def __str__(self) -> str:
        return f"hlist{self.ts}"
