"""A virtual-time asyncio event loop.

Time advances only when nothing is runnable, straight to the next timer, so all timing
observations are exact and do not depend on the load of the machine.  Two situations that are
only guessable with a wall clock become logical facts here:

* Deadlock: nothing is runnable and no timer is pending, yet the main task is not done.
* Livelock: the loop keeps iterating without virtual time ever advancing.

Callback order is left exactly as asyncio defines it: no interleaving is manufactured that the
real loop could not produce.
"""
import asyncio
import heapq
import math
import selectors
import time

EPOCH = 1_700_000_000.0
TICKS = 2.0**20  # instants are multiples of this fraction of a second, which EPOCH + instant holds exactly

_real_time = time.time
_real_monotonic = time.monotonic
_current = None
skew = 0.0  # of the wall clock, which an administrator or NTP may set


class Deadlock(Exception):
    """Nothing can ever run again but the scenario has not finished."""


class Livelock(Exception):
    """The loop spins without virtual time advancing."""


class TimeLimit(Exception):
    """The scenario ran past its virtual-time horizon."""


class _NullSelector(selectors.BaseSelector):
    def __init__(self):
        self._map = {}

    def register(self, fileobj, events, data=None):
        key = selectors.SelectorKey(fileobj, fileobj if isinstance(fileobj, int) else fileobj.fileno(), events, data)
        self._map[key.fd] = key
        return key

    def unregister(self, fileobj):
        fd = fileobj if isinstance(fileobj, int) else fileobj.fileno()
        return self._map.pop(fd)

    def modify(self, fileobj, events, data=None):
        self.unregister(fileobj)
        return self.register(fileobj, events, data)

    def get_key(self, fileobj):
        fd = fileobj if isinstance(fileobj, int) else fileobj.fileno()
        return self._map[fd]

    def get_map(self):
        return self._map

    def select(self, timeout=None):
        return []

    def close(self):
        self._map.clear()


class VirtualLoop(asyncio.SelectorEventLoop):
    SPIN_LIMIT = 200_000

    def __init__(self, horizon=1e9):
        self._vt = 0.0
        self._spin = 0
        self.steps = 0
        self.horizon = horizon
        self.contexts = []
        super().__init__(_NullSelector())
        self._clock_resolution = math.ulp(0.0)  # timers are never early, or waiting for an instant could spin
        self.set_exception_handler(self._on_context)

    def time(self):
        return self._vt

    @staticmethod
    def _on_context(loop, context):
        loop.contexts.append(context)

    def _run_once(self):
        if not self._ready:
            sched = self._scheduled
            while sched and sched[0]._cancelled:
                self._timer_cancelled_count -= 1
                handle = heapq.heappop(sched)
                handle._scheduled = False
            if sched:
                when = sched[0]._when
                if when > self._vt:
                    if when > self.horizon:
                        raise TimeLimit(f"virtual time would pass {self.horizon}")
                    # Timers fire up to a microsecond late, as real ones do, never early on any clock.
                    self._vt = math.ceil(when * TICKS) / TICKS
                    self._clock_resolution = math.ulp(self._vt)
                    self._spin = 0
            elif not self._stopping:
                raise Deadlock("nothing is runnable and no timer is pending")
        self._spin += 1
        self.steps += 1
        if self._spin > self.SPIN_LIMIT:
            raise Livelock(f"{self._spin} loop iterations at virtual time {self._vt}")
        super()._run_once()


def block(dt):
    """The running callback keeps the processor for a while: time passes and nothing else runs."""
    loop = _current
    loop._vt = math.ceil((loop._vt + dt) * TICKS) / TICKS
    loop._clock_resolution = math.ulp(loop._vt)
    loop._spin = 0


def virtual_time():
    return EPOCH + (_current._vt if _current is not None else 0.0) + skew


def virtual_monotonic():
    return 1000.0 + (_current._vt if _current is not None else 0.0)


def install_time():
    """Bind the process' clocks to the running virtual loop (before aiok8s is imported)."""
    time.time = virtual_time
    time.monotonic = virtual_monotonic
    time.perf_counter = virtual_monotonic
    time.time_ns = lambda: int(virtual_time() * 1_000_000_000)
    time.monotonic_ns = lambda: int(virtual_monotonic() * 1_000_000_000)


def run(main_factory, horizon=1e9, spin_limit=None):
    """Run main_factory(loop) (a coroutine function) on a fresh virtual loop; always tears down.

    Returns (result, loop).  Exceptions of the main coroutine and Deadlock/Livelock propagate.
    """
    global _current, skew
    skew = 0.0
    loop = VirtualLoop(horizon)
    if spin_limit:
        loop.SPIN_LIMIT = spin_limit
    _current = loop
    asyncio.set_event_loop(loop)
    try:
        result = loop.run_until_complete(main_factory(loop))
        return result, loop
    finally:
        try:
            _teardown(loop)
        finally:
            asyncio.set_event_loop(None)
            loop.close()
            _current = None


def _teardown(loop):
    loop.horizon = float("inf")
    for _ in range(5):
        tasks = [t for t in asyncio.all_tasks(loop) if not t.done()]
        if not tasks:
            return
        loop._spin = 0
        for t in tasks:
            t.cancel()

        async def drain():
            # bounded in virtual time
            await asyncio.wait(tasks, timeout=200)

        try:
            loop.run_until_complete(drain())
        except Exception:
            pass
    for t in asyncio.all_tasks(loop):
        t._log_destroy_pending = False
