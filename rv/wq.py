"""Work queue model and monitors shared by C16 and C17."""
from aiok8s.workqueue import delaying_queue, queue, rate_limiting_queue

NO = object()
INIT = ((), frozenset(), frozenset(), False)  # queue, dirty, processing, shutting down


class FixedLimiter:
    """A limiter with a fixed delay per item."""

    def __init__(self, delays=None, default=0.0):
        self.delays = delays or {}
        self.default = default
        self.n = {}

    def when(self, item):
        self.n[item] = self.n.get(item, 0) + 1
        return self.delays.get(item, self.default)

    def forget(self, item):
        self.n.pop(item, None)

    def num_requeues(self, item):
        return self.n.get(item, 0)


KINDS = ("plain", "delaying", "ratelimited")


def make(kind, limiter=None):
    if kind == "plain":
        return queue.new()
    if kind == "delaying":
        return delaying_queue.new()
    return rate_limiting_queue.new(limiter or FixedLimiter())


def apply(state, op):
    q, dirty, proc, shut = state
    kind = op[0]
    if kind == "add":
        x = op[1]
        if shut or x in dirty:
            return state, None
        dirty = dirty | {x}
        if x not in proc:
            q = q + (x,)
        return (q, dirty, proc, shut), None
    if kind == "get":
        res = op[1][0]
        if res == "shutdown":
            return state, ("shutdown" if shut and not q else NO)
        if q and q[0] == res:
            return (q[1:], dirty - {res}, proc | {res}, shut), res
        return state, NO
    if kind == "done":
        x = op[1]
        proc = proc - {x}
        if x in dirty:
            q = q + (x,)
        return (q, dirty, proc, shut), None
    if kind == "len":
        return state, len(q)
    if kind == "shut_down":
        return (q, dirty, proc, True), None
    if kind == "shutting_down":
        return state, shut
    raise AssertionError(kind)


def result_of(got):
    item, shut = got
    if shut:
        return "shutdown"
    return item
