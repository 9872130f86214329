"""C28: importing asta warns exactly when checking is on and passes are not printed."""
import os
import random
import shutil

from props import c15, forked

IMPORTS_ASTA_ITSELF = True
VALUES = [None, None, None, "1", "1", "0", "", "2", "no", "yes", "true", "01", " 1", "11", "False"]
MODULES = ["asta", "asta", "asta.dims", "asta.symbols", "asta.config", "asta.array", "asta.decorators",
           "asta.scalar", "asta.shapes", "asta.placeholder", "asta.display", "asta.classes", "asta.warning",
           "asta.switchboard", "asta.unusable", "asta.parser", "asta.constants", "asta._internal",
           "asta._array", "asta.origins", "asta.utils", "asta.substitution"]
BANNER = "ASTA TYPECHECKING IS ENABLED"


def session(seed, env):
    """Everything printed by importing asta, and by the imports and quiet uses that follow."""
    import contextlib
    import importlib
    import io
    import sys

    import core

    rng = random.Random(seed)
    terminal = rng.random() < 0.3
    if env is None:
        os.environ.pop("ASTA_TYPECHECK", None)
    else:
        os.environ["ASTA_TYPECHECK"] = env

    def watch(fn):
        """(standard output, standard error) as the descriptors get them."""
        out, err = io.StringIO(), io.StringIO()
        out.isatty = err.isatty = lambda: terminal
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            fn()
        return core.plain(out.getvalue()), core.plain(err.getvalue())

    how = rng.choice(["module", "module", "from", "exec"])
    first = rng.choice(MODULES)

    def load():
        if how == "module":
            importlib.import_module(first)
        elif how == "from":
            exec(rng.choice(["from asta import Array", "from asta import *", "from asta.dims import B",
                             "from asta import typechecked, Array, Scalar", "from asta import shapes, dims"]), {})
        else:
            exec(f"import {first}", {})

    out = {"first": watch(load), "how": how if how == "from" else first, "later": []}

    def more(what):
        def go():
            if what == "env":
                os.environ["ASTA_TYPECHECK"] = rng.choice(["0", "1", ""])
            elif what == "import":
                importlib.import_module(rng.choice(MODULES))
            elif what == "decorate":
                import numpy as np
                from asta import Array, typechecked

                @typechecked
                def f(x: Array[2]):
                    return x

                isinstance(np.zeros(2), Array[2])
            elif what == "subscript":
                from asta import Array, dims

                repr(Array[int, 2, -1])
                dims.B = 3
                repr(Array[dims.B])
        return watch(go)

    for _ in range(rng.randint(1, 6)):
        what = rng.choice(["env", "import", "import", "decorate", "subscript"])
        out["later"].append([what, more(what)])
    out["modules"] = sum(m.startswith("asta") for m in sys.modules)
    return out


def run(ctx):
    ctx.CASE_LIMIT = 0  # the children have a time limit
    forked.preload()
    top = os.path.abspath("imports")
    for rng in ctx.cases(4000 if ctx.tier == "quick" else 40000, "import"):
        here = os.path.join(top, str(ctx.case["index"]))
        if rng.random() < 0.4:
            cwd, extra, unset, name, found = c15.layout(rng, here)
            opts = {**c15.DEFAULTS, **found}
            on, passes = opts["on"], opts["print_passes"]
            ctx.event("layouts")
            judge(ctx, rng, here, on, passes, dict(file=name, options=opts), cwd, extra, unset)
            continue
        os.makedirs(here)
        opts = {k: rng.choice(["yes", "yes", "no", None] if k == "on" else ["no", "no", "yes", None])
                for k in ("on", "print-passes", "raise-errors", "check-non-asta-types",
                          "check-all-sequence-elements")}
        lines = [f"{k}={v}" for k, v in opts.items() if v is not None]
        rng.shuffle(lines)
        with open(os.path.join(here, ".astarc"), "w") as fh:
            fh.write("[MASTER]\n" + "\n".join(lines) + "\n")
        # Passes are printed unless turned off.
        judge(ctx, rng, here, opts["on"] != "no", opts["print-passes"] != "no", dict(options=opts), here, {}, [])


def judge(ctx, rng, here, on, passes, info, cwd, extra, unset):
    env = rng.choice(VALUES)
    seed = rng.random()
    got = forked.child(lambda: session(seed, env), cwd, extra, unset)
    shutil.rmtree(here, ignore_errors=True)
    on = on and env in (None, "1")
    warn = on and not passes
    info["env"] = env
    if ctx.check("crash" not in got, "asta could not be imported", got=got.get("crash"), **info):
        text, err = got["first"]
        ctx.check(text.count(BANNER) == (1 if warn else 0),
                  "no warning although checking is silent" if warn else "a warning without reason",
                  printed=text[:300], imported=got["how"], **info)
        if not warn:
            ctx.check(text == "", "importing asta printed something", printed=text, imported=got["how"], **info)
        ctx.check(err == "", "importing asta wrote to standard error", printed=err, imported=got["how"], **info)
        for what, (text, err) in got["later"]:
            ctx.check(text == "" and err == "", "printed after the import", after=what, printed=text + err,
                      imported=got["how"], **info)
            ctx.event(f"later-{what}")
        ctx.event("warned" if warn else "silent-on" if on else "silent-off")
        ctx.seen(tuple(info["options"].values()), env, got["how"])
        ctx.sample(f"{info}: import {got['how']}: {'warned' if warn else 'quiet'}")
