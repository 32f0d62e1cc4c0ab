"""A clock which stands still, for the tools that only look at the time."""
import datetime as _dtmod
import time as _time

real = _dtmod.datetime


class Clock:
    us = 0


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, real)

    def __subclasscheck__(cls, c):
        return issubclass(c, real)


class FixedDateTime(real, metaclass=_Meta):
    # all instances are real ones; the methods of a subclass lose the fold
    def __new__(cls, *a, **kw):
        return real(*a, **kw)

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        return real.fromtimestamp(t, tz)

    @classmethod
    def now(cls, tz=None):
        return real.fromtimestamp(Clock.us // 1000000, tz).replace(microsecond=Clock.us % 1000000)

    @classmethod
    def utcnow(cls):
        return real.fromtimestamp(Clock.us // 1000000, _dtmod.timezone.utc).replace(microsecond=Clock.us % 1000000, tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


FixedDateTime.__name__ = FixedDateTime.__qualname__ = "datetime"
FixedDateTime.__module__ = "datetime"


def install():
    _dtmod.datetime = FixedDateTime
    _time.time = lambda: Clock.us / 1000000
    _time.time_ns = lambda: Clock.us * 1000
