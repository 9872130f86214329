"""Shared machinery of the monitors: cases, verdicts, events, line coverage.

A *case* is one generated workload item, reproducible from
(property, world, seed, hashseed, index).  The property module drives the real code through
its public API and reports what it saw to the context, whose oracle calls decide.
"""
import hashlib
import io
import json
import os
import random
import signal
import sys
import time
import traceback
import contextlib


class Stop(Exception):
    """Enough violations were recorded."""


class Slow(BaseException):
    """A case took too long (sympy may not finish on a nonlinear system): it is abandoned."""


class Ctx:
    MAX_VIOLATIONS = 3
    CASE_LIMIT = 12  # seconds

    def __init__(self, prop, world, seed, tier, shard, nshards, only=None):
        self.prop, self.world, self.seed, self.tier = prop, world, seed, tier
        self.shard, self.nshards, self.only = shard, nshards, only
        self.evaluations = 0
        self.events = {}
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.findings = []
        self.case = None
        self.cases_run = 0
        self.deadline = None
        self.done = set()
        self.case_cpu = 0.0

    # -- generation ---------------------------------------------------------
    def cases(self, n, kind="case"):
        """Yield a Random for each of this shard's share of ``n`` cases."""
        for i in range(n):
            if self.only is not None:
                if self.only["kind"] != kind or self.only["index"] != i:
                    continue
            elif i % self.nshards != self.shard:
                continue
            if (kind, i) in self.done:
                continue
            if self.deadline and time.monotonic() > self.deadline:
                self.event("deadline-stops")
                return
            self.case = {"kind": kind, "index": i}
            self.done.add((kind, i))
            self.cases_run += 1
            self.case_cpu, self.case_wall = time.process_time(), time.monotonic()
            if self.CASE_LIMIT:
                signal.setitimer(signal.ITIMER_REAL, self.CASE_LIMIT)
            yield random.Random(f"{self.seed}:{self.prop}:{self.world['name']}:{kind}:{i}")
            signal.setitimer(signal.ITIMER_REAL, 0)
        self.case = None

    def on_alarm(self, signum, frame):
        # The machine may be busy: what counts is the time of this process, and more of it if it is not
        # the solver which takes it.
        used, wall = time.process_time() - self.case_cpu, time.monotonic() - self.case_wall
        solver = any("sympy" in f.f_code.co_filename for f, _ in traceback.walk_stack(frame))
        if used < self.CASE_LIMIT * (1 if solver else 5) and wall < self.CASE_LIMIT * (5 if solver else 20):
            signal.setitimer(signal.ITIMER_REAL, self.CASE_LIMIT / 2)
            return
        raise Slow()

    # -- observation --------------------------------------------------------
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def seen(self, *key):
        """Count a distinct, non-trivial observation."""
        self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def sample(self, text, limit=4):
        if len(self.samples) < limit:
            self.samples.append(str(text)[:400])

    # -- verdicts -----------------------------------------------------------
    def violation(self, what, **detail):
        if self.case is None:
            self.case = {"kind": "?", "index": -1}
        self.violations.append(
            {
                "what": what,
                "case": dict(self.case),
                "world": self.world["name"],
                "detail": {k: short(v) for k, v in detail.items()},
            }
        )
        if len(self.violations) >= self.MAX_VIOLATIONS:
            raise Stop()

    def check(self, cond, what, **detail):
        self.evaluations += 1
        if not cond:
            self.violation(what, **detail)
        return bool(cond)

    def equal(self, got, want, what, **detail):
        return self.check(got == want, what, got=got, want=want, **detail)

    def result(self):
        return {
            "shard": self.shard,
            "world": self.world["name"],
            "evaluations": self.evaluations,
            "cases": self.cases_run,
            "events": self.events,
            "distinct": [d.hex() for d in self.distinct],
            "samples": self.samples,
            "violations": self.violations,
            "findings": self.findings,
        }


def short(v, n=600):
    try:
        s = v if isinstance(v, str) else repr(v)
    except Exception as err:  # repr of the code under test may be broken
        s = f"<unprintable {type(v).__name__}: {err!r}>"
    return s if len(s) <= n else s[: n - 3] + "..."


class Outcome:
    """The observable outcome of running a piece of real code."""

    __slots__ = ("value", "exc", "out")

    def __init__(self, value=None, exc=None, out=""):
        self.value, self.exc, self.out = value, exc, out

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        if self.exc is not None:
            return f"raised {type(self.exc).__name__}({str(self.exc)[:300]!r})"
        return f"returned {short(self.value, 200)}"


def run(fn, *args, **kwargs):
    """Run ``fn`` and capture its value or exception, discarding its output."""
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            value = fn(*args, **kwargs)
    except Stop:
        raise
    except Exception as exc:  # pylint: disable=broad-except
        return Outcome(exc=exc, out=buf.getvalue())
    return Outcome(value=value, out=buf.getvalue())


def quiet_run(fn, *args, **kwargs):
    """As ``run`` without touching sys.stdout (for threads)."""
    try:
        return Outcome(value=fn(*args, **kwargs))
    except Exception as exc:  # pylint: disable=broad-except
        return Outcome(exc=exc)


def where(exc):
    """Innermost /repo frame of an exception."""
    tb, last = exc.__traceback__, ""
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if "/asta/" in fn:
            last = f"{os.path.basename(fn)}:{tb.tb_lineno}"
        tb = tb.tb_next
    return last


ANSI = __import__("re").compile(r"\x1b\[[0-9;]*m")


def plain(text):
    return ANSI.sub("", str(text))


# -- line coverage of the code under test, via sys.monitoring -------------------
LINES = set()


def start_line_monitor():
    if not hasattr(sys, "monitoring"):
        return
    mon = sys.monitoring
    tool = 4
    try:
        mon.use_tool_id(tool, "asta-lines")
    except ValueError:
        return
    root = os.path.join(os.environ.get("ASTA_REPO", "/repo"), "asta") + os.sep

    def on_line(code, line):
        fn = code.co_filename
        if fn.startswith(root):
            LINES.add((fn[len(root) :], line))
        return mon.DISABLE

    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)


def stop_line_monitor():
    if hasattr(sys, "monitoring"):
        try:
            sys.monitoring.set_events(4, 0)
            sys.monitoring.free_tool_id(4)
        except ValueError:
            pass
