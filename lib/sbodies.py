"""Callables of the tasks the store checks write. They tell how they were called."""

from __future__ import annotations

import dataclasses
import enum
from datetime import datetime
from typing import Any, ClassVar, Optional

from asyncz.triggers.base import BaseTrigger


def plain(*args: Any, **kwargs: Any) -> Any:
    return ("plain", args, kwargs)


def other(*args: Any, **kwargs: Any) -> Any:
    return ("other", args, kwargs)


async def coro(*args: Any, **kwargs: Any) -> Any:
    return ("coro", args, kwargs)


@dataclasses.dataclass
class Box:
    value: Any = None

    def method(self, *args: Any, **kwargs: Any) -> Any:
        return ("method", self.value, args, kwargs)

    @classmethod
    def kmethod(cls, *args: Any, **kwargs: Any) -> Any:
        return ("kmethod", cls.__name__, args, kwargs)

    @staticmethod
    def smethod(*args: Any, **kwargs: Any) -> Any:
        return ("smethod", args, kwargs)

    class Inner:
        @staticmethod
        def deep(*args: Any, **kwargs: Any) -> Any:
            return ("deep", args, kwargs)


instance = Box("global")


class Color(enum.Enum):
    RED = 1
    BLUE = "blue"


class Exploding:
    """cannot be unpickled"""

    def __init__(self, kind: str):
        self.kind = kind

    def __reduce__(self) -> Any:
        return (explode, (self.kind,))


def explode(kind: str) -> Any:
    raise {"os": FileNotFoundError, "perm": PermissionError, "val": ValueError, "rec": RecursionError}[kind]("record")


class Steps(BaseTrigger):
    """a user defined trigger"""

    alias: ClassVar[str] = "vsteps"
    points: list[datetime]

    def get_next_trigger_time(
        self, timezone: Any, previous_time: Optional[datetime], now: Optional[datetime] = None
    ) -> Optional[datetime]:
        low = previous_time or now
        for point in self.points:
            if point > low or (previous_time is None and point == low):
                return point
        return None
