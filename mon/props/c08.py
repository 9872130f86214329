"""C08: decoration is transparent for calls that pass."""
import contextlib
import contextvars
import decimal
import functools
import inspect
import io
import traceback
import sys
import threading
import warnings

from props.common import *
from props import calls, model


class Custom(Exception):
    def __init__(self, a, b=None):
        super().__init__(a, b)
        self.payload = [a, b]


class BaseCustom(BaseException):
    pass


def exceptions(rng):
    return rng.choice([
        lambda: ValueError("v"), lambda: TypeError("raised by the body"), lambda: KeyError(3),
        lambda: AssertionError(), lambda: StopIteration(7), lambda: Custom("x", 2),
        lambda: BaseCustom(1), lambda: KeyboardInterrupt(), lambda: SystemExit(3),
        lambda: GeneratorExit(), lambda: RecursionError("r"), lambda: ImportError("i"),
        lambda: AttributeError("shape"), lambda: IndexError(1), lambda: NotImplementedError(),
        lambda: RuntimeError(np.zeros(3)),
    ])()


def chained(rng, exc):
    """Give an exception some history."""
    if rng.random() < 0.4:
        exc.__context__ = rng.choice([KeyError("context"), TypeError("context")])
    if rng.random() < 0.4:
        exc.__cause__ = rng.choice([ValueError("cause"), exc.__context__, None])
    exc.__suppress_context__ = rng.random() < 0.5
    if rng.random() < 0.3:
        exc.add_note("a note")
    if rng.random() < 0.3:
        exc.marker = [rng.random()]
    return exc


def history(exc):
    return (exc.__cause__, exc.__context__, exc.__suppress_context__, exc.args, list(getattr(exc, "__notes__", ())),
            {k: id(v) for k, v in vars(exc).items()})


def frames(exc):
    """The functions a traceback goes through."""
    return [f.name for f in traceback.extract_tb(exc.__traceback__)]


def same_history(a, b):
    return all(x is y for x, y in zip(a[:4], b[:4])) and a[4:] == b[4:]


def results(rng):
    return rng.choice([None, 3, "s", NotImplemented, Ellipsis, [1, [2]], {"a": 1}, ValueError("returned"),
                       object(), np.zeros(3), lambda: 1, iter([1]), Custom, float("nan"), ()])


def catch(fn, *args, **kwargs):
    """As core.run, for BaseExceptions too."""
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            return core.Outcome(value=fn(*args, **kwargs))
        except BaseException as exc:  # pylint: disable=broad-except
            return core.Outcome(exc=exc)


def run(ctx):
    from asta import typechecked

    (fw,) = frameworks(ctx)
    env = make_env(ctx, fw)
    for rng in ctx.cases(scale(ctx, 200 if has_tf(ctx) else 1200), "function"):

        def node(r):
            return model.tree(r, env, depth=rng.choice([0, 0, 1, 2]), zero=0.03)

        f = calls.random_function(rng, env, node, ret=0.3)
        if not core.run(f.namespace, env, rng).ok:
            continue
        calls.with_defaults(f, rng, env, {}, bad=0)
        made = core.run(f.make, env, rng, typechecked)
        if not ctx.check(made.ok, "decorating failed", function=f, got=made):
            continue
        metadata(ctx, f.original, f.decorated, f)
        for _ in range(4):
            args, kwargs = calls.arguments(f, rng, env, {}, bad=0, misfit=0)
            raises = rng.random() < 0.4
            ret = results(rng) if f.ret_node is None else calls.result(f, rng, env, {}, bad=0)
            want = f.verdict(args, kwargs, ret, env, raises=raises)
            if want not in ("ok", "raise"):
                ctx.event("not-passing")
                continue
            rec = f.rec
            rec.calls.clear()
            rec.ret, rec.exc = ret, chained(rng, exceptions(rng)) if raises else None
            bound = f.bind(args, kwargs)
            exc = rec.exc
            past = history(exc) if raises else None
            got = catch(f.decorated, *args, **kwargs)
            info = dict(function=f, args=[describe(a) for a in args], kwargs=list(kwargs), got=got)
            ctx.check(len(rec.calls) == 1, f"the body ran {len(rec.calls)} times", **info)
            if rec.calls:
                ctx.check(calls.identical(rec.calls[0], bound), "the body saw other arguments", **info)
                for p in f.params:
                    if p.kind in "PNK":
                        ctx.check(rec.calls[0].get(p.name) is bound[p.name],
                                  f"argument {p.name} is another object", **info)
            if raises:
                ctx.check(got.exc is exc, "another exception reached the caller", raised=exc, **info)
                ctx.check(got.exc is not exc or "body" in frames(exc), "the traceback lost the body", raised=exc,
                          frames=frames(exc), **info)
                ctx.check(got.exc is not exc or same_history(past, history(exc)),
                          "the exception was changed", raised=exc, before=past, after=history(exc), **info)
                ctx.event("raised-" + type(exc).__name__)
            else:
                ctx.check(got.ok and got.value is ret, "another result reached the caller", ret=ret, **info)
                ctx.event("returned")
            rec.exc = None
            ctx.seen(repr(f), raises, type(exc).__name__, [describe(a) for a in args])
        ctx.sample(repr(f))
    for rng in ctx.cases(scale(ctx, 64), "special"):
        special(ctx, rng, env, typechecked)


def describe(v):
    return model.describe(v)


def metadata(ctx, original, decorated, label):
    for attr in ("__name__", "__qualname__", "__module__", "__doc__", "__annotations__"):
        a, b = getattr(original, attr, None), getattr(decorated, attr, None)
        same = a == b and (attr != "__annotations__" or all(a[k] is b[k] for k in a))
        ctx.check(same, f"{attr} differs", original=a, decorated=b, function=label)
    a, b = inspect.signature(original), inspect.signature(decorated)
    same = list(a.parameters) == list(b.parameters)
    for p, q in zip(a.parameters.values(), b.parameters.values()):
        same = same and (p.kind, p.name) == (q.kind, q.name) and p.default is q.default \
            and p.annotation is q.annotation
    same = same and a.return_annotation is b.return_annotation
    ctx.check(same, "the signature differs", original=str(a), decorated=str(b), function=label)
    ctx.event("metadata")


def special(ctx, rng, env, typechecked):
    """Bodies that observe more: generators, recursion, closures, reentrancy, attributes."""
    T = env.fw.T
    v = env.fw.make(rng, (2, 3), None)
    log = []
    kind = rng.choice(["generator", "recursion", "closure", "attrs", "mutating", "nested-raise", "varkw",
                       "wrapped", "lambda", "async", "twice", "surroundings", "output"])
    if kind == "generator":
        @typechecked
        def gen_(x: T[2, 3]):
            log.append("start")
            got = yield x
            log.append(got)
            yield got
        it = core.run(gen_, v).value
        ctx.check(log == [], "a generator body ran at the call")
        ctx.check(it is not None and next(it) is v and it.send("hi") == "hi", "generator protocol changed")
    elif kind == "recursion":
        n = rng.randint(1, 12)

        @typechecked
        def rec(x: T[2, 3], k: int) -> T[2, 3]:
            log.append(k)
            return x if k == 0 else rec(x, k - 1)
        got = core.run(rec, v, n)
        ctx.check(got.ok and got.value is v and log == list(range(n, -1, -1)), "recursion changed",
                  got=got, log=log)
    elif kind == "closure":
        def outer():
            cell = [0]

            @typechecked
            def inner(x: T[2, 3]):
                cell[0] += 1
                return cell
            return inner
        f1, f2 = outer(), outer()
        core.run(f1, v)
        ctx.check(core.run(f1, v).value == [2] and core.run(f2, v).value == [1], "closures changed")
        metadata(ctx, f1.__wrapped__ if hasattr(f1, "__wrapped__") else f1, f1, "closure")
        ctx.check("outer.<locals>.inner" in f1.__qualname__, "qualified name lost", got=f1.__qualname__)
    elif kind == "attrs":
        def g(x: T[2, 3] = v, *rest: T[...], flag: bool = False, **kw: T[...]) -> None:
            "Doc string."
        g.marker = log
        d = typechecked(g)
        metadata(ctx, g, d, "attrs")
        ctx.check(core.run(d).ok, "a default was refused")
        ctx.check(g.__defaults__[0] is v and inspect.signature(d).parameters["x"].default is v,
                  "defaults changed")
    elif kind == "mutating":
        items = [v, v]

        from typing import List

        @typechecked
        def push(x: List[T[2, 3]]) -> List[T[2, 3]]:
            x.append(v)
            return x
        got = core.run(push, items)
        ctx.check(got.ok and got.value is items and len(items) == 3, "the caller's list was copied", got=got)
    elif kind == "nested-raise":
        err = Custom("inner")

        @typechecked
        def inner(x: T[2, 3]):
            raise err

        @typechecked
        def outer(x: T[2, 3]):
            try:
                inner(x)
            except Custom as e:
                log.append(e is err)
                raise
        got = catch(outer, v)
        ctx.check(got.exc is err and log == [True], "exception of a nested call changed", got=got)
    elif kind == "wrapped":  # another decorator below: its signature is that of what it wraps
        def other(fn):
            @functools.wraps(fn)
            def inner(*a, **k):
                log.append((len(a), sorted(k)))
                return fn(*a, **k)
            return inner

        @other
        def plain(x: T[2, 3], *, y: T[2, 3] = v) -> T[2, 3]:
            "Doc string."
            return x
        d = typechecked(plain)
        metadata(ctx, plain, d, "wrapped")
        got = core.run(d, v, y=v)
        ctx.check(got.ok and got.value is v and log == [(1, ["y"])], "a function under another decorator is "
                  "called differently", got=got, log=log)
        got = core.run(d, x=v)
        ctx.check(got.ok and got.value is v and log[1:] == [(0, ["x"])], "a function under another decorator "
                  "is called differently", got=got, log=log)
        got = core.run(d, env.fw.make(rng, (3, 3), None))
        ctx.check(isinstance(got.exc, TypeError) and len(log) == 2, "a function under another decorator is "
                  "not checked", got=got, log=log)
    elif kind == "lambda":
        fn = lambda x, *r, k=3, **w: (x, r, k, w)
        fn.__annotations__ = {"x": T[2, 3], "r": T[...], "k": int, "w": T[...]}
        d = typechecked(fn)
        metadata(ctx, fn, d, "lambda")
        got = core.run(d, v, v, z=v)
        ctx.check(got.ok and got.value[0] is v and got.value[1][0] is v and got.value[2] == 3
                  and got.value[3]["z"] is v, "a lambda is called differently", got=got)
    elif kind == "async":
        @typechecked
        async def co(x: T[2, 3]):
            log.append("start")
            return x
        c = core.run(co, v).value
        ctx.check(inspect.iscoroutine(c) and not log, "a coroutine function does not return its coroutine", got=c)
        try:
            c.send(None)
        except StopIteration as stop:
            ctx.check(stop.value is v and log == ["start"], "a coroutine changed")
    elif kind == "twice":
        def g(x: T[2, 3]) -> T[2, 3]:
            log.append(1)
            return x
        d = typechecked(typechecked(g))
        metadata(ctx, g, d, "twice")
        got = core.run(d, v)
        ctx.check(got.ok and got.value is v and log == [1], "decorated twice: the body ran more than once", got=got,
                  log=log)
    elif kind == "surroundings":  # the body runs where its caller runs
        var = contextvars.ContextVar("var")
        err = Custom("cause")

        @typechecked
        def body(x: T[2, 3]):
            var.set(rng)
            log.append((threading.get_ident(), np.geterr(), decimal.getcontext().prec, sys.exc_info()[1]))
            np.seterr(over="ignore" if before["over"] != "ignore" else "warn")
            decimal.getcontext().prec += 1
        before, prec = np.geterr(), decimal.getcontext().prec
        try:
            raise err
        except Custom:
            got = core.run(body, v)
        after = np.geterr()
        np.seterr(**before)
        ctx.check(got.ok and log == [(threading.get_ident(), before, prec, err)] and var.get(None) is rng
                  and after != before and decimal.getcontext().prec == prec + 1,
                  "the body runs in other surroundings", got=got, log=log)
        decimal.getcontext().prec = prec
    elif kind == "output":
        @typechecked
        def talk(x: T[2, 3]):
            print("to stdout")
            print("to stderr", file=sys.stderr)
            warnings.warn("a warning")
            return x
        err = io.StringIO()
        with warnings.catch_warnings(record=True) as seen, contextlib.redirect_stderr(err):
            warnings.simplefilter("always")
            got = core.run(talk, v)
        ctx.check(got.ok and got.out.count("to stdout\n") == 1 and err.getvalue() == "to stderr\n"
                  and [str(x.message) for x in seen] == ["a warning"], "the output of the body changed", got=got,
                  out=got.out, err=err.getvalue(), warnings=[str(x.message) for x in seen])
    else:
        @typechecked
        def varkw(*args: T[2, 3], **kwargs: T[2, 3]):
            return args, kwargs
        names = rng.sample(["self", "decorated", "args", "kwargs", "name", "ox", "func", "annotations"], 4)
        got = core.run(varkw, v, v, **{n: v for n in names})
        ctx.check(got.ok and got.value[0] == (v, v) if env.fw.name == "Tensor" else got.ok and
                  len(got.value[0]) == 2 and list(got.value[1]) == names, "keyword names changed", got=got,
                  names=names)
    ctx.event("special-" + kind)
    ctx.seen("special", kind, len(log))
