"""C29: importing asta and checking leave the rest of the process alone."""
import atexit
import builtins
import decimal
import faulthandler
import gc
import importlib
import locale
import logging
import os
import random
import resource
import shutil
import signal
import socket
import sys
import threading
import tracemalloc
import warnings

import core
from props import c15, forked

IMPORTS_ASTA_ITSELF = True
SYMS = ["X", "Y", "n"]
WATCHED = ["typing", "inspect", "functools", "collections", "abc", "types", "re", "os", "io", "builtins",
           "numpy", "numpy.core.numeric", "sympy", "sympy.core.symbol", "sympy.core.expr", "sympy.core.basic",
           "configparser", "toml", "oxentiel", "operator", "copy", "warnings", "logging", "threading"]


def settle():
    """Import and use what asta builds on, so that only asta's own effects are seen."""
    import numpy, sympy, oxentiel, toml, configparser  # noqa: F401
    import sympy.core.random, sympy.core.parameters, mpmath  # noqa: F401

    x, y, z = sympy.symbols("x y z", positive=True, integer=True)
    for system in ([x - 2], [x + y - 3, x - y - 1], [x * y - 4, x - 2], [x ** 2 - 4], [x - 1, x - 2],
                   [x // 2 - 1], [sympy.Mod(x, 2)], [x * x - y, y - 9], [x / 2 - z]):
        try:
            sympy.solve(system, set=True)
            sympy.simplify(system[0])
            repr(system)
        except Exception:  # pylint: disable=broad-except
            pass
    numpy.random.seed(int.from_bytes(os.urandom(3), "big"))
    try:
        exec("raise TypeError('x')")
    except TypeError:
        import traceback

        traceback.format_exc()
    numpy.array2string(numpy.zeros(3))


def files(top="."):
    out = []
    for root, dirs, names in os.walk(top):
        for n in names:
            st = os.lstat(os.path.join(root, n))
            out.append((root, n, st.st_size, st.st_mtime_ns))
        out.extend((root, d, None, None) for d in dirs)
    return sorted(out, key=str)


def signals():
    out = {}
    for s in signal.valid_signals():
        try:
            out[int(s)] = signal.getsignal(s)
        except (ValueError, OSError):
            pass
    return out


def logs():
    out = {"": (logging.root.level, list(map(id, logging.root.handlers)), list(map(id, logging.root.filters)),
                logging.root.disabled, logging.root.manager.disable, logging.raiseExceptions)}
    for name, lg in sorted(logging.root.manager.loggerDict.items()):
        if isinstance(lg, logging.Logger):
            out[name] = (lg.level, list(map(id, lg.handlers)), lg.propagate, lg.disabled)
    return {k: v for k, v in out.items() if v[0] or k == "" or v[1]}


def descriptors():
    return sorted(os.listdir("/proc/self/fd"))


def namespaces():
    """What is bound in modules asta builds on: an existing name must stay bound to its object."""
    import sympy

    out = {}
    for name in WATCHED:
        module = sys.modules.get(name)
        if module is not None:
            out[name] = {k: id(v) for k, v in vars(module).items() if k not in ("__warningregistry__", "_")}
    for cls in (sympy.Symbol, sympy.Expr, sympy.Basic, sympy.Integer, sympy.Add, sympy.Mul):
        out[cls.__name__] = {k: id(v) for k, v in vars(cls).items()}
    return out


def umask():
    old = os.umask(0o77)
    os.umask(old)
    return old


READERS = {
    "environment": lambda: dict(os.environ),
    "working directory": os.getcwd,
    "sys.path": lambda: list(sys.path),
    "sys.argv": lambda: list(sys.argv),
    "import hooks": lambda: (list(map(id, sys.meta_path)), list(map(id, sys.path_hooks))),
    "recursion limit": sys.getrecursionlimit,
    "switch interval": sys.getswitchinterval,
    "standard streams": lambda: (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
    "hooks": lambda: (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook,
                      sys.gettrace(), sys.getprofile(), sys.breakpointhook),
    "bytecode": lambda: (sys.dont_write_bytecode, sys.pycache_prefix),
    "digits": sys.get_int_max_str_digits,
    "sys": lambda: {k: id(v) if not isinstance(v, (str, int, float)) else v for k, v in vars(sys).items()
                    if not k.startswith("last_")},
    "warning filters": lambda: (list(warnings.filters), warnings.showwarning, warnings.formatwarning),
    "logging": logs,
    "random": random.getstate,
    "decimal": lambda: repr(decimal.getcontext()),
    "locale": lambda: locale.setlocale(locale.LC_ALL),
    "signal handlers": signals,
    "threads": lambda: sorted(t.ident for t in threading.enumerate()),
    "thread stack": threading.stack_size,
    "open files": descriptors,
    "garbage collector": lambda: (gc.isenabled(), gc.get_threshold(), gc.get_debug(), list(map(id, gc.callbacks))),
    "files": files,
    "home": lambda: files(os.environ.get("HOME", "/nowhere")),
    "exit functions": atexit._ncallbacks,  # pylint: disable=protected-access
    "tracing": lambda: (faulthandler.is_enabled(), tracemalloc.is_tracing(), sys.getdlopenflags()),
    "umask": umask,
    "sockets": socket.getdefaulttimeout,
    "timers": lambda: [signal.getitimer(k)[1] for k in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)],
    "alarm": lambda: signal.getitimer(signal.ITIMER_VIRTUAL)[0] > 0,
    "priority": lambda: (os.nice(0), sorted(os.sched_getaffinity(0))),
    "limits": lambda: [resource.getrlimit(getattr(resource, k)) for k in sorted(vars(resource)) if k.startswith("RLIMIT_")],
}


def numpy_state():
    import numpy as np

    kind, keys, pos, gauss, cached = np.random.get_state()
    return kind, keys.tobytes(), pos, gauss, cached


def sympy_state():
    import mpmath
    import sympy.core.parameters as p

    g = p.global_parameters
    return g.evaluate, g.distribute, g.exp_is_pow, mpmath.mp.prec


def tf_state():
    import tensorflow as tf

    return (tf.executing_eagerly(), tf.get_logger().level, tf.config.functions_run_eagerly(),
            tf.keras.backend.floatx() if "keras" in sys.modules else None)


def readers(tf):
    import numpy as np

    out = dict(READERS)
    out["numpy random"] = numpy_state
    out["numpy settings"] = lambda: (np.geterr(), np.geterrcall(), np.getbufsize(), repr(np.get_printoptions()))
    out["sympy settings"] = sympy_state
    if tf:
        out["tensorflow"] = tf_state
        del out["open files"]  # the runtime opens some when tensors are first used
    return out


class Watch:
    """A snapshot of the process."""

    def __init__(self, tf=False, top="."):
        self.read = readers(tf)
        self.read["files"] = lambda: files(top)
        self.base = {k: f() for k, f in self.read.items()}
        self.spaces = namespaces()
        self.modules = dict(sys.modules)
        self.builtins = {k: id(v) for k, v in vars(builtins).items() if k != "_"}

    def changes(self, deep=True):
        out = []
        for k, f in self.read.items():
            if not deep and k in ("files", "home", "limits", "logging"):
                continue
            now = f()
            if now != self.base[k]:
                out.append(f"{k}: {self.base[k]!r:.200} became {now!r:.200}")
        if deep:
            now = namespaces()
            for m, names in self.spaces.items():
                bad = [n for n, i in names.items() if now[m].get(n) != i]
                new = [n for n in now[m] if n not in names] if m[0].isupper() else []  # classes
                if bad or new:
                    out.append(f"names of {m}: {bad} bound again, {new} new")
            bad = [k for k, m in self.modules.items() if sys.modules.get(k, m) is not m or k not in sys.modules]
            if bad:
                out.append(f"modules: {bad} replaced or removed")
            now = {k: id(v) for k, v in vars(builtins).items() if k != "_"}
            if now != self.builtins:
                out.append(f"builtins: {set(now.items()) ^ set(self.builtins.items())}")
        return out


# -- importing ------------------------------------------------------------------

MODULES = ["asta", "asta.dims", "asta.config", "asta.array", "asta.decorators", "asta.shapes", "asta.warning"]


def importing(seed, top):
    rng = random.Random(seed)
    how = rng.choice(MODULES)
    env = rng.choice([None, None, "0", "1"])
    if env is not None:
        os.environ["ASTA_TYPECHECK"] = env
    import numpy as np

    # Settings of the program, which asta must find and leave as they are.
    if rng.random() < 0.5:
        np.seterr(**{k: rng.choice(["ignore", "warn", "raise"]) for k in ("divide", "over", "invalid")})
        np.set_printoptions(precision=rng.randint(2, 9), threshold=rng.choice([5, 1000]))
        warnings.simplefilter(rng.choice(["error", "ignore", "always"]))
        sys.setrecursionlimit(rng.choice([900, 1000, 3000]))
        random.seed(rng.random())
        decimal.getcontext().prec = rng.randint(5, 40)
        logging.root.setLevel(rng.choice([10, 30, 50]))
        signal.signal(signal.SIGUSR1, lambda *a: None)
        gc.set_threshold(rng.choice([500, 700]), 10, 10)
        if rng.random() < 0.5:
            gc.disable()
    watch = Watch(top=top)
    exc, text = None, ""
    _, exc, text = forked.capture(importlib.import_module, how)
    new = sorted(m for m in sys.modules if m not in watch.modules)
    alien = [m for m in new if m.split(".")[0] in ("torch", "tensorflow") and sys.modules[m] is not None]
    return {"changes": watch.changes(), "exc": repr(exc) if exc else "", "how": how, "alien": alien,
            "new": len(new)}


def imports(ctx):
    forked.preload()
    settle()
    top = os.path.abspath("imports")
    limit, ctx.CASE_LIMIT = ctx.CASE_LIMIT, 0
    for rng in ctx.cases(120 * ctx.nshards if ctx.tier == "quick" else 1500 * ctx.nshards, "import"):
        here = os.path.join(top, str(ctx.case["index"]))
        cwd, env, unset = here, {}, ["ASTA_TYPECHECK"]
        if rng.random() < 0.5:
            cwd, env, unset, _, _ = c15.layout(rng, here)
            unset = unset + ["ASTA_TYPECHECK"]
            ctx.event("layouts")
        else:
            os.makedirs(here)
            with open(os.path.join(here, ".astarc"), "w") as fh:
                fh.write(f"[MASTER]\non={rng.choice(['yes', 'no'])}\nprint-passes={rng.choice(['yes', 'no'])}\n")
        seed = rng.random()
        got = forked.child(lambda: importing(seed, here), cwd, env, unset)
        shutil.rmtree(here, ignore_errors=True)
        if ctx.check("crash" not in got, "asta could not be imported", got=got.get("crash")):
            ctx.check(not got["exc"], "asta could not be imported", exc=got["exc"], imported=got["how"])
            ctx.check(not got["changes"], "importing asta changed the process", imported=got["how"],
                      changes="; ".join(got["changes"]))
            ctx.check(not got["alien"], "importing asta made modules of missing frameworks", modules=got["alien"])
            ctx.event("imports")
            ctx.event("new-modules", got["new"])
            ctx.seen("import", got["how"], seed)
    ctx.CASE_LIMIT = limit


# -- use ------------------------------------------------------------------------

def using(ctx):
    from props import calls, model, exprs
    from props.common import frameworks, make_env, scale, has_tf
    import numpy as np
    from asta import typechecked

    (fw,) = frameworks(ctx)
    env = make_env(ctx, fw)
    tf = has_tf(ctx)
    gc.collect()
    gc.freeze()

    def node(values):
        def pick(r):
            return model.tree(r, env, depth=r.choice([0, 0, 1, 1, 2]), names=SYMS, values=values, expr=0.15,
                              attrs=0.08, unions=r.random() < 0.4)
        return pick

    class Thrown(BaseException):
        pass

    for rng in ctx.cases(scale(ctx, 500 * ctx.nshards if not tf else 250), "use"):
        values = {k: rng.choice([1, 2, 3]) for k in SYMS}
        f = calls.random_function(rng, env, node(values), ret=0.6, defaults=0.2)
        if not core.run(f.namespace, env, rng).ok:
            continue
        calls.with_defaults(f, rng, env, values, bad=0.05)
        gc.collect()
        watch = Watch(tf)

        def judge(what, deep=False, **detail):
            bad = watch.changes(deep)
            ctx.event(what)
            ctx.check(not bad, f"the process was changed: {what}", changes="; ".join(bad), **detail)

        f.make(env, rng, typechecked)
        before = function_state(f.original)
        judge("decorated", function=f)
        for _ in range(rng.randint(1, 4)):
            args, kwargs = calls.arguments(f, rng, env, values, bad=0.35, misfit=0.05)
            ret = calls.result(f, rng, env, values, bad=0.25)
            want = f.verdict(args, kwargs, ret, env)
            if want == "hard":
                continue
            f.rec.calls.clear()
            f.rec.ret, f.rec.exc = ret, None
            if rng.random() < 0.1:
                f.rec.exc = rng.choice([ValueError("x"), KeyboardInterrupt(), Thrown(), TypeError("own")])
            recursion = rng.random() < 0.05
            got = None
            try:
                got = core.run(deep_call if recursion else f.decorated,
                               *((f.decorated, args, kwargs) if recursion else args), **({} if recursion else kwargs))
                how = "call-passed" if got.ok else f"call-{type(got.exc).__name__}"
            except (KeyboardInterrupt, Thrown):
                how = "call-thrown"
            judge(how, function=f, args=[model.describe(a) for a in args])
            ctx.seen(repr(f), [model.describe(a) for a in args], how)
            del got, args, kwargs, ret
        now = function_state(f.original)
        ctx.check(now == before, "decorating or calling changed the function", function=f, before=before, now=now)
        odd(ctx, rng, env, judge)
        leaf = model.leaf(rng, env, names=SYMS, values=values, expr=0.2)
        for _ in range(3):
            v = leaf.value(rng, env, values) if rng.random() < 0.7 else rng.choice([None, 3, "a", [1], object()])
            got = core.run(lambda: isinstance(v, leaf.build(env, rng)))
            judge("isinstance", annotation=leaf, value=model.describe(v))
            del got
        want = {"real": np.zeros(rng.choice([1, 2]))} if not tf else {"ndim": np.array([1, 2])}
        got = core.run(lambda: isinstance(leaf.value(rng, env, values), fw.T[want]))
        judge("isinstance-array-attribute")
        core.run(lambda: fw.T[rng.choice(["x", b"y", 1.5, (2, "q"), {"shape": 1}, -3, [2]])])
        judge("malformed")
        core.run(lambda: repr(leaf.build(env, rng)))
        judge("printed", deep=True)
        ctx.sample(f"{f!r}: nothing changed")


def odd(ctx, rng, env, judge):
    """Functions and classes with any annotations, called with anything."""
    from typing import Any, Callable, Dict, List, Optional, Tuple, Type, Union
    from asta import Scalar, typechecked

    T = env.fw.T
    pool = [None, None, Any, int, "", "", T[2], T[-1, 2], List[T[2]], "T[2]", "Nope", Optional[T[2]], Scalar, T, str,
            Dict[str, T[2]], Tuple[T[2], int], Tuple[T[2], ...], Union[int, T[3]], Callable, Type[T], Type[int], float,
            object, complex, type(None), ...]
    values = [None, 3, "x", 2.5, env.fw.make(rng, (2,), None), env.fw.make(rng, (3, 2), None), [], (), {}, len, int, T,
              [env.fw.make(rng, (2,), None)], {"a": env.fw.make(rng, (3,), None)}, object(), 1j, True]
    space = {"T": T, "__name__": "odd_module"}
    names = rng.sample(["a", "b", "self", "x", "cls", "data"], rng.randint(1, 4))
    stars = ["", "", ""] + rng.choice([["*"], ["**"], [""]])
    params, star = [], ""
    for i, n in enumerate(names):
        ann = rng.choice(pool)
        text = n
        if ann != "" or isinstance(ann, str) and ann:
            space[f"_{n}"] = ann
            text += f": _{n}"
        if i == len(names) - 1:
            star = rng.choice(stars)
        params.append(star + text)
    space["_ret"] = rng.choice(pool)
    space["_out"] = [None]
    ret = " -> _ret" if rng.random() < 0.6 and space["_ret"] != "" else ""
    code = f"def f({', '.join(params)}){ret}:\n    return _out[0]\n"
    in_class = rng.random() < 0.3
    if in_class:
        kind = rng.choice(["", "@staticmethod", "@classmethod"])
        code = f"class C:\n    {kind}\n" + "".join("    " + x + "\n" for x in code.splitlines())
    exec(compile(code, "<odd>", "exec"), space)
    target = space["C" if in_class else "f"]
    fn = vars(target)["f"] if in_class else target
    fn = getattr(fn, "__func__", fn)
    before = function_state(fn)
    got = core.run(typechecked, target)
    judge("odd-decorated", function=code)
    if not got.ok:
        return
    call = got.value
    if in_class:
        holder = core.run(got.value)
        call = getattr(holder.value if rng.random() < 0.5 else got.value, "f", None)
    for _ in range(rng.randint(1, 4)):
        space["_out"][0] = rng.choice(values)
        args = [rng.choice(values) for _ in range(rng.choice([len(names)] * 4 + [0, len(names) - 1, len(names) + 1]))]
        kwargs = {names[-1]: args.pop()} if args and rng.random() < 0.3 else {}
        done = core.run(call, *args, **kwargs)
        how = "odd-passed" if done.ok else f"odd-{type(done.exc).__name__}"
        judge(how, function=code, args=args, kwargs=kwargs, annotations=fn.__annotations__)
        del done
    now = function_state(fn)
    ctx.check(now == before, "decorating or calling changed the function", function=code, before=before, now=now)


def deep_call(fn, args, kwargs, depth=60):
    if depth:
        return deep_call(fn, args, kwargs, depth - 1)
    return fn(*args, **kwargs)


def function_state(fn):
    return {"dict": {k: id(v) for k, v in vars(fn).items()}, "name": fn.__name__, "qualname": fn.__qualname__,
            "module": fn.__module__, "doc": fn.__doc__, "code": id(fn.__code__),
            "defaults": [id(x) for x in fn.__defaults__ or ()],
            "kwdefaults": {k: id(v) for k, v in (fn.__kwdefaults__ or {}).items()},
            "annotations": {k: id(v) for k, v in fn.__annotations__.items()},
            "globals": {k: id(v) for k, v in fn.__globals__.items()},
            "closure": [id(c) for c in fn.__closure__ or ()]}


def run(ctx):
    if not hasattr(ctx, "imported"):
        ctx.imported = True
        os.environ["HOME"] = os.path.abspath("home")  # of this worker alone
        os.makedirs("home")
        if "tf" in ctx.world.get("frameworks", ""):
            import tensorflow  # noqa: F401

            settle()
            tf_state()
            watch = Watch(tf=True)
            ctx.case = {"kind": "import", "index": 0}
            got = core.run(importlib.import_module, "asta")
            ctx.check(got.ok, "asta could not be imported", got=got)
            bad = watch.changes()
            ctx.check(not bad, "importing asta changed the process", changes="; ".join(bad))
            ctx.event("imports")
        else:
            imports(ctx)
            core.run(importlib.import_module, "asta")
    using(ctx)
