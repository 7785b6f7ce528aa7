"""Put clocks, entropy and identity behind the simulator.

Must be imported before docket (``from datetime import datetime`` copies the
name).  Outside a running SimLoop everything falls through to the real thing.
"""

from __future__ import annotations

import datetime as _dtmod
import os
import random
import sys
import time as _time
import uuid as _uuid
from asyncio import events

from .loop import EPOCH, NODE, SimLoop

_real_datetime = _dtmod.datetime
real_time = _time.time
real_monotonic = _time.monotonic
real_perf = _time.perf_counter


def _loop() -> SimLoop | None:
    lp = events._get_running_loop()
    return lp if isinstance(lp, SimLoop) else None


def sim_wall() -> float | None:
    lp = _loop()
    if lp is None:
        return None
    return EPOCH + lp._now + NODE.get().skew


class _Meta(type(_real_datetime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real_datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _real_datetime)


class datetime(_real_datetime, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        w = sim_wall()
        if w is None:
            return _real_datetime.now(tz)
        return _real_datetime.fromtimestamp(round(w, 6), tz)

    @classmethod
    def utcnow(cls):
        w = sim_wall()
        if w is None:
            return _real_datetime.utcnow()
        return _real_datetime.fromtimestamp(round(w, 6), _dtmod.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()

    def __new__(cls, *a, **k):
        return _real_datetime.__new__(_real_datetime, *a, **k)

    @classmethod
    def fromisoformat(cls, s):
        return _real_datetime.fromisoformat(s)

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        return _real_datetime.fromtimestamp(t, tz)

    @classmethod
    def strptime(cls, s, f):
        return _real_datetime.strptime(s, f)

    @classmethod
    def combine(cls, *a, **k):
        return _real_datetime.combine(*a, **k)


datetime.__module__ = "datetime"
datetime.__qualname__ = "datetime"

_rng = random.Random(0)


def reseed(seed) -> None:
    _rng.seed(f"entropy/{seed}")
    random.seed(f"random/{seed}")


def _sim_time() -> float:
    w = sim_wall()
    return real_time() if w is None else w


def _sim_mono() -> float:
    lp = _loop()
    return real_monotonic() if lp is None else 1000.0 + lp._now


def _urandom(n: int) -> bytes:
    return _rng.randbytes(n)


def _uuid4():
    return _uuid.UUID(int=_rng.getrandbits(128), version=4)


def _uuid1(node=None, clock_seq=None):
    return _uuid.UUID(int=_rng.getrandbits(128), version=1)


def _rebuild_datetime(*a):
    return _real_datetime(*a)


def _reduce_datetime(d):
    r = d.__reduce_ex__(2)
    return (_rebuild_datetime, r[1])


_installed = False


def install() -> None:
    global _installed
    if _installed:
        return
    _installed = True
    bad = [m for m in sys.modules if m == "docket" or m.startswith("docket.")]
    if bad:
        raise RuntimeError(f"docket imported before the simulator: {bad[:3]}")
    # Preload libraries that must keep the real datetime class.
    import email.utils  # noqa: F401
    import json  # noqa: F401
    import logging  # noqa: F401

    # pickle looks the class up by name and insists on identity; objects are
    # always instances of the real class, so teach it how to reduce them.
    import copyreg

    copyreg.pickle(_real_datetime, _reduce_datetime)  # type: ignore[arg-type]

    _dtmod.datetime = datetime  # type: ignore[misc]
    _time.time = _sim_time
    _time.time_ns = lambda: int(_sim_time() * 1e9)
    _time.monotonic = _sim_mono
    _time.monotonic_ns = lambda: int(_sim_mono() * 1e9)
    _time.perf_counter = _sim_mono
    _time.perf_counter_ns = lambda: int(_sim_mono() * 1e9)
    os.urandom = _urandom
    _uuid.uuid4 = _uuid4
    _uuid.uuid1 = _uuid1
    random.SystemRandom.random = lambda self: _rng.random()
    random.SystemRandom.getrandbits = lambda self, k: _rng.getrandbits(k)
