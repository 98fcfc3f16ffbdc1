"""Virtual clock: time only passes when the workload says so (install before quocslib is imported)."""
import datetime as _dt
import time as _time

_real_now = _dt.datetime.now
_real_cls = _dt.datetime
OFFSET = [0.0]
FROZEN = [None]


def now_s():
    return FROZEN[0] + OFFSET[0]


SLEEP = [None]      # what happens while the library sleeps


def sleep(seconds):
    (SLEEP[0] or advance)(seconds)


def advance(seconds):
    OFFSET[0] += float(seconds)


class VDateTime(_real_cls):
    @classmethod
    def now(cls, tz=None):
        return _real_cls.fromtimestamp(now_s(), tz)

    @classmethod
    def utcnow(cls):
        return _real_cls.fromtimestamp(now_s(), _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return _real_cls.fromtimestamp(now_s())


def install():
    FROZEN[0] = 1.7e9 + _time.time() % 1000
    _dt.datetime = VDateTime
    _time.time = now_s
    _time.monotonic = now_s
    _time.perf_counter = now_s
    _time.time_ns = lambda: int(now_s() * 1e9)
    _time.monotonic_ns = _time.time_ns
    _time.perf_counter_ns = _time.time_ns
    _time.sleep = sleep
