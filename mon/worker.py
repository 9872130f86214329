"""One worker process: one world (configuration x frameworks), one shard of a property."""
import importlib
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ASTA_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, REPO]

import core  # noqa: E402


def setup_world(world):
    """Frameworks and sys.path of a world; the configuration is the cwd's .astarc."""
    fw = world.get("frameworks", "")
    if "tf" not in fw:
        sys.modules["tensorflow"] = None
    if "torch" in fw:
        sys.path.insert(1, os.path.join(HERE, "stub"))


def main():
    spec = json.loads(sys.argv[1])
    out_path = sys.argv[2]
    world = spec["world"]
    setup_world(world)
    core.start_line_monitor()
    ctx = core.Ctx(
        spec["property"], world, spec["seed"], spec["tier"], spec["shard"], spec["nshards"],
        spec.get("only"),
    )
    res = {}
    started = time.monotonic()
    try:
        module = importlib.import_module("props." + spec["property"].lower())
        if not getattr(module, "IMPORTS_ASTA_ITSELF", False):
            devnull = core.run(importlib.import_module, "asta")
            if not devnull.ok:
                ctx.case = {"kind": "import", "index": 0}
                ctx.violations.append(
                    {"what": f"importing asta failed: {devnull}", "case": ctx.case,
                     "world": world["name"], "detail": {"at": core.where(devnull.exc)}})
                raise core.Stop()
            ctx.import_out = devnull.out
            import asta

            got = os.path.dirname(os.path.abspath(asta.__file__))
            if got != os.path.join(REPO, "asta"):
                raise RuntimeError(f"asta imported from {got}")
        if spec.get("budget"):
            ctx.deadline = time.monotonic() + spec["budget"]
        signal.signal(signal.SIGALRM, ctx.on_alarm)
        while True:
            try:
                module.run(ctx)
                break
            except core.Slow as exc:  # go on with the cases after it
                files = [f.f_code.co_filename for f, _ in traceback.walk_tb(exc.__traceback__)]
                busy = time.process_time() - ctx.case_cpu > ctx.CASE_LIMIT * 4
                if busy and not any("sympy" in f for f in files) and any(
                        f.startswith(os.path.join(REPO, "asta")) for f in files):
                    ctx.check(False, "asta did not come to an end", at=core.where(exc))
                ctx.event("abandoned-slow-cases")
        signal.setitimer(signal.ITIMER_REAL, 0)
    except core.Stop:
        pass
    except BaseException:  # an error of the harness
        res["error"] = traceback.format_exc()
        if ctx.case:
            res["error"] += f"\ncase: {ctx.case}"
    core.stop_line_monitor()
    res.update(ctx.result())
    res["seconds"] = round(time.monotonic() - started, 2)
    res["lines"] = sorted(f"{f}:{n}" for f, n in core.LINES)
    with open(out_path, "w") as fh:
        json.dump(res, fh)
    sys.stdout.flush()
    os._exit(0)


main()
