"""Run a piece of work in a fresh child process that has not imported asta."""
import json
import os
import signal
import sys
import time
import traceback

import core


def preload():
    """Import what asta needs once, so that the children start quickly."""
    import contextlib, io
    import numpy, sympy, oxentiel, toml, configparser, logging  # noqa: F401
    import sympy.solvers  # noqa: F401

    assert "asta" not in sys.modules


def child(fn, cwd=None, env=None, unset=(), timeout=60):
    """fn() in a child process; its JSON-serialisable result, or {"crash": text}."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            if cwd:
                os.chdir(cwd)
            for k in unset:
                os.environ.pop(k, None)
            os.environ.update(env or {})
            try:
                out = fn()
            except BaseException:  # pylint: disable=broad-except
                out = {"crash": traceback.format_exc()[-1500:]}
            data = json.dumps([out, sorted(core.LINES)]).encode()
            while data:
                data = data[os.write(w, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf, end = b"", time.monotonic() + timeout
    import select

    while True:
        left = end - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return {"crash": "timed out"}
        if select.select([r], [], [], left)[0]:
            part = os.read(r, 65536)
            if not part:
                break
            buf += part
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        return {"crash": "no result"}
    out, lines = json.loads(buf)
    core.LINES.update(map(tuple, lines))
    return out


def capture(fn, *args, **kwargs):
    import contextlib, io

    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        try:
            value, exc = fn(*args, **kwargs), None
        except Exception as e:  # pylint: disable=broad-except
            value, exc = None, e
    return value, exc, buf.getvalue()


def behaviour():
    """What the options in effect do, observed through decorated functions."""
    import numpy as np
    from typing import List

    capture(__import__, "asta")
    from asta import Array, typechecked

    import asta.config

    ox = asta.config.get_ox()
    out = {"options": {k: getattr(ox, k) for k in (
        "on", "raise_errors", "print_passes", "check_non_asta_types", "check_all_sequence_elements")}}
    runs = []

    def f(x: Array[2]):
        runs.append(1)
        return 5

    def g(x: int, y: Array[2]):
        runs.append(1)

    def h(x: List[Array[2]]):
        runs.append(1)

    df, dg, dh = typechecked(f), typechecked(g), typechecked(h)
    good, bad = np.zeros(2), np.zeros(3)
    obs = {"checked": df is not f, "same-for-all": (df is not f) == (dg is not g) == (dh is not h)}
    _, exc, text = capture(df, bad)
    obs["raises"] = isinstance(exc, TypeError)
    obs["bad-runs"] = len(runs)
    obs["prints-failure"] = "FAILED" in text
    runs.clear()
    _, exc, text = capture(df, good)
    obs["good-ok"] = exc is None and len(runs) == 1
    obs["prints-pass"] = "PASSED" in text
    obs["prints-any"] = bool(text.strip())
    runs.clear()
    _, exc, text = capture(dg, "no int", good)
    obs["refuses-non-asta"] = isinstance(exc, TypeError) or "FAILED" in text
    runs.clear()
    _, exc, text = capture(dh, [good, bad])
    obs["refuses-later-element"] = isinstance(exc, TypeError) or "FAILED" in text
    out["observed"] = obs
    return out


def expected(opt):
    """The behaviour that the options document."""
    on = opt["on"]
    failing = lambda yes: on and yes
    return {
        "checked": on, "same-for-all": True,
        "raises": on and opt["raise_errors"], "bad-runs": 0 if on and opt["raise_errors"] else 1,
        "prints-failure": on and not opt["raise_errors"],
        "good-ok": True, "prints-pass": on and opt["print_passes"],
        "prints-any": on and opt["print_passes"],
        "refuses-non-asta": on and opt["check_non_asta_types"],
        "refuses-later-element": on and opt["check_all_sequence_elements"],
    }
