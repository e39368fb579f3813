"""Case runner, verdicts, evidence."""
import collections
import gc
import hashlib
import json
import logging
import os
import random
import signal
import sys
import time
import traceback
import warnings

from rv import vloop

_wall = vloop._real_monotonic

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AIOK8S_REPO", "/repo")
CPU_LIMIT = 40  # CPU seconds for one case; cases use well under a second


class Violation(Exception):
    def __init__(self, msg, mechanism=None, **witness):
        super().__init__(msg)
        self.mechanism = mechanism
        self.witness = witness


class Inconclusive(Exception):
    pass


class CpuHang(KeyboardInterrupt):
    """Raised by the CPU-time watchdog (KeyboardInterrupt so that tasks do not swallow it)."""


class Ctx:
    """What a scenario gets: its PRNG, an event log and counters."""

    def __init__(self, prop, scenario, seed, tier, index=0):
        self.prop = prop
        self.scenario = scenario
        self.seed = seed
        self.tier = tier
        self.index = index
        self.rng = random.Random(seed)
        self.log = []
        self.counts = collections.Counter()
        self.nontrivial = False
        self.loop = None
        self.first = None  # the first violation seen, also when raised inside a callback of the library

    def rec(self, *event):
        """Append an observation to the event log (the history monitors judge)."""
        if self.loop is not None:
            self.log.append((round(self.loop._vt, 6), *event))
        else:
            self.log.append(event)

    def count(self, name, n=1):
        self.counts[name] += n

    def check(self, cond, msg, **witness):
        self.counts["oracle_evaluations"] += 1
        if not cond:
            self.fail(msg, **witness)

    def fail(self, msg, **witness):
        v = Violation(msg, **witness)
        if self.first is None:
            self.first = v
        raise v


def _digest(log):
    return hashlib.sha1(repr(log).encode()).hexdigest()[:16]


def import_repo():
    """Import aiok8s from the working tree of the repository, never from stale bytecode."""
    import kubernetes_asyncio.client  # noqa: F401  (third party: its bytecode may be reused)
    import kubernetes_asyncio.client.api  # noqa: F401
    import kubernetes_asyncio.client.models  # noqa: F401
    import kubernetes_asyncio.watch  # noqa: F401

    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    sys.pycache_prefix = "/nonexistent-pycache"
    import aiok8s

    assert os.path.realpath(aiok8s.__file__).startswith(os.path.realpath(REPO) + "/"), aiok8s.__file__


def setup_process():
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    sys.unraisablehook = lambda *a: None
    vloop.install_time()


def case_seed(prop, scenario, seed, index):
    return f"{prop}:{scenario}:{seed}:{index}"


def _on_cpu(signum, frame):
    raise CpuHang("CPU budget of one case exhausted")


def run_case(mod, scenario, seed_str, tier, index=0):
    """Run one case; returns a result dict."""
    fn = mod.SCENARIOS[scenario]
    ctx = Ctx(mod.PROPERTY, scenario, seed_str, tier, index)
    random.seed(seed_str + ":lib")  # the library's own random choices
    old = signal.signal(signal.SIGVTALRM, _on_cpu)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    res = {"scenario": scenario, "seed": seed_str, "violation": None, "inconclusive": None}
    loop = None
    try:
        try:
            if getattr(fn, "sync", False):
                fn(ctx)
            else:

                async def main(loop_):
                    ctx.loop = loop_
                    await fn(ctx)

                _, loop = vloop.run(main, horizon=getattr(fn, "horizon", 1e7))
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Violation as e:
        res["violation"] = {"msg": str(e), "mechanism": e.mechanism, "witness": _plain(e.witness)}
    except Inconclusive as e:
        res["inconclusive"] = str(e)
    except (vloop.Deadlock, vloop.Livelock, vloop.TimeLimit) as e:
        res["violation"] = {"msg": f"no progress: {type(e).__name__}: {e}", "mechanism": None, "witness": {}}
    except CpuHang:
        res["violation"] = {
            "msg": f"does not terminate: {CPU_LIMIT} s of CPU time used by one case",
            "mechanism": None,
            "witness": {"stack": traceback.format_exc()[-3000:]},
        }
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        res["violation"] = {
            "msg": f"unexpected {type(e).__name__} out of the library: {e!r}",
            "mechanism": None,
            "witness": {"traceback": traceback.format_exc()[-4000:]},
        }
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
    if ctx.first is not None:
        e = ctx.first
        res["violation"] = {"msg": str(e), "mechanism": e.mechanism, "witness": _plain(e.witness)}
    res["digest"] = _digest(ctx.log)
    res["nontrivial"] = bool(ctx.nontrivial)
    res["counts"] = dict(ctx.counts)
    res["events"] = len(ctx.log)
    if loop is not None:
        res["counts"]["loop_steps"] = loop.steps
    if res["violation"]:
        res["log_tail"] = _plain(ctx.log[-120:])
    elif ctx.index < 2:
        res["sample"] = _plain(ctx.log[:40])
    return res


def _plain(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): _plain(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset, collections.deque)):
        return [_plain(v, depth + 1) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:300]


# ---------------------------------------------------------------- parallel driver


def _worker(mod, cases, tier, wfd, is_known):
    try:
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    except Exception:
        pass
    out = os.fdopen(wfd, "w")
    n = 0
    for scenario, seed_str, index in cases:
        res = run_case(mod, scenario, seed_str, tier, index)
        out.write(json.dumps(res) + "\n")
        out.flush()
        n += 1
        if n % 50 == 0:
            gc.collect()
        if res["violation"] and not is_known(res["violation"]):
            break
    out.close()
    os._exit(0)


def run_all(mod, cases, tier, wall_limit, jobs=8, is_known=lambda v: None):
    """Run cases over forked workers.  Returns (results, timed_out)."""
    import selectors

    procs = {}
    sel = selectors.DefaultSelector()
    shards = [cases[i::jobs] for i in range(jobs)]
    for shard in shards:
        if not shard:
            continue
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                _worker(mod, shard, tier, w, is_known)
            except BaseException:
                traceback.print_exc()
            os._exit(3)
        os.close(w)
        procs[r] = [pid, b"", 0, len(shard)]
        os.set_blocking(r, False)
        sel.register(r, selectors.EVENT_READ)
    results = []
    start = _wall()
    stop = False
    timed_out = False
    died = []
    while procs:
        left = wall_limit - (_wall() - start)
        if left <= 0:
            timed_out = True
            break
        for key, _ in sel.select(timeout=min(left, 5)):
            fd = key.fd
            try:
                chunk = os.read(fd, 1 << 20)
            except BlockingIOError:
                continue
            if not chunk:
                sel.unregister(fd)
                os.close(fd)
                pid, _, n, total = procs.pop(fd)
                _, status = os.waitpid(pid, 0)
                if status != 0:
                    died.append((pid, status, n, total))
                continue
            procs[fd][1] += chunk
            *lines, procs[fd][1] = procs[fd][1].split(b"\n")
            for line in lines:
                procs[fd][2] += 1
                res = json.loads(line)
                results.append(res)
                if res["violation"] and not is_known(res["violation"]):
                    stop = True
        if stop:
            break
    for fd, (pid, *_rest) in procs.items():
        try:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        except OSError:
            pass
    return results, timed_out, died
