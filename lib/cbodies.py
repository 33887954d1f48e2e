"""Callables for the command line, found by their import path."""

import json

RUNS = []
SCHEDULER = None
REGISTRY = []


def _note(fn, args, kwargs):
    RUNS.append({"fn": fn, "ar": json.dumps(list(args)), "kw": json.dumps(kwargs, sort_keys=True)})


def mark(*args, **kwargs):
    _note("mark", args, kwargs)


async def amark(*args, **kwargs):
    import asyncio

    await asyncio.sleep(0)
    await asyncio.sleep(0.001)
    _note("amark", args, kwargs)


def boom(*args, **kwargs):
    _note("boom", args, kwargs)
    raise ValueError("boom")


async def aboom(*args, **kwargs):
    _note("aboom", args, kwargs)
    raise ValueError("boom")


def one(x):
    _note("one", (x,), {})


HOOKS = []


EXECUTORS = []
KINDS = {"AsyncIOExecutor": "asyncio", "ThreadPoolExecutor": "thread", "ProcessPoolExecutor": "process", "DebugExecutor": "debug"}


def hook():
    HOOKS.append("sync")
    EXECUTORS[:] = running()


MADE = []


def running():
    """the executors of the scheduler which was made last: alias, kind, workers"""
    from concurrent.futures import Executor

    got = []
    for alias, ex in MADE[0].executors.items():
        kind = next((KINDS[c.__name__] for c in type(ex).__mro__ if c.__name__ in KINDS), type(ex).__name__)
        pool = next((x for x in vars(ex).values() if isinstance(x, Executor)), None)
        got.append([alias, kind, getattr(pool, "_max_workers", 0)])
    return sorted(got)


async def ahook():
    HOOKS.append("async")


def spec():
    return SCHEDULER()


def registry(scheduler):
    return REGISTRY
