"""Freeze the clock that metrics_layer sees (pendulum.now, datetime.now, time.time)."""
import contextlib
import datetime as dt
import sys
import time

import pendulum

REAL_NOW, REAL_TIME, REAL_DT = pendulum.now, time.time, dt.datetime


@contextlib.contextmanager
def at(instant):
    """instant: an aware datetime"""
    ts = instant.timestamp()

    def now(tz=None):
        return pendulum.from_timestamp(ts).in_timezone(tz or "UTC")

    class Fixed(REAL_DT):
        @classmethod
        def now(cls, tz=None):
            d = REAL_DT.fromtimestamp(ts, tz or dt.timezone.utc)
            return d if tz else d.replace(tzinfo=None)

        @classmethod
        def utcnow(cls):
            return REAL_DT.fromtimestamp(ts, dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.utcnow()

    swapped = []
    for name, mod in list(sys.modules.items()):
        if name.startswith("metrics_layer") and getattr(mod, "datetime", None) is REAL_DT:
            mod.datetime = Fixed
            swapped.append(mod)
    pendulum.now = now
    time.time = lambda: ts
    try:
        yield
    finally:
        pendulum.now, time.time = REAL_NOW, REAL_TIME
        for mod in swapped:
            mod.datetime = REAL_DT
