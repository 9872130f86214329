"""C23: a missing framework only disables its own annotation.

Every world has another set of installed frameworks.  Fresh processes (where possible) import asta
in various ways and then use the annotations of installed and missing frameworks in random order.
"""
import importlib
import importlib.abc
import random
import sys

from props.common import *
from props import calls, forked, model

IMPORTS_ASTA_ITSELF = True
PACKAGE = {"Tensor": "torch", "TFTensor": "tensorflow"}
SYMS = ["X", "Y"]


class Refuse(importlib.abc.MetaPathFinder):
    """Another way for a package to be missing: no finder finds it."""

    def __init__(self, names):
        self.names = names

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.names:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return None


def missing_names(ctx):
    return ([] if has_torch(ctx) else ["Tensor"]) + ([] if has_tf(ctx) else ["TFTensor"])


def importing(rng):
    """Import asta in one of the ways a user might, silently."""
    ways = rng.sample([
        lambda: importlib.import_module("asta"),
        lambda: __import__("asta", fromlist=["Tensor", "TFTensor", "Array"]),
        lambda: importlib.import_module("asta.dims"),
        lambda: importlib.import_module("asta.decorators"),
        lambda: importlib.import_module("asta.array"),
        lambda: importlib.import_module("asta.switchboard"),
        lambda: importlib.import_module("asta.scalar"),
        lambda: exec("from asta import *", {}),
    ], rng.choice([1, 2, 3]))
    for way in ways:
        got = core.run(way)
        if not got.ok:
            return f"importing failed: {got}"
    return None


def use_missing(rng, env, name, note):
    """Some use of a missing annotation: it must raise ImportError naming the package."""
    import asta
    from asta import dims, symbols  # noqa: F401

    T = getattr(asta, name)
    value = rng.choice([None, 3, "x", object(), [1], np.zeros(2), T, asta.Array, np.zeros(())])
    item = rng.choice([3, ..., -1, (), (1, 2), (float, 3), (int, ..., 2), float, (..., 1), symbols.X,
                       (dims.P, 2), {"ndim": 2}, (2, {"a": 1}), asta.Scalar, None, "bad", (..., ...),
                       (symbols.X, symbols.X + 1), np.dtype("f4")])
    runs = []

    def param(x: T):
        runs.append(1)

    def result(x: asta.Array) -> T:
        return x

    def use_call():
        decorated = asta.typechecked(param)
        return core.run(decorated, value)

    r = rng.randrange(9)
    kind, out = [
        lambda: ("subscript", core.run(lambda: T[item])),
        lambda: ("isinstance", core.run(isinstance, value, T)),
        lambda: ("isinstance-tuple", core.run(isinstance, object(), (asta.Array, T))),
        lambda: ("repr", core.run(repr, T)),
        lambda: ("str", core.run(str, T)),
        lambda: ("format", core.run(lambda: f"{T}")),
        lambda: ("percent", core.run(lambda: "%s %r" % (T, T))),
        lambda: ("call", use_call()),
        lambda: ("result", core.run(asta.typechecked(result), env_array(env, rng))),
    ][r]()
    package = PACKAGE[name]
    good = isinstance(out.exc, ImportError) and package in str(out.exc)
    note(good, "using the annotation of a missing framework did not raise ImportError naming it",
         use=kind, annotation=name, item=repr(item) if kind == "subscript" else None, got=repr(out))
    note(not runs, "a body ran although its annotation cannot be used", use=kind, annotation=name)
    return f"missing-{kind}"


def env_array(env, rng):
    return np.zeros(rng.choice([(), (2,), (2, 3)]))


def use_present(rng, fw, note):
    """Some use of an installed framework, judged by the reference."""
    import asta
    from asta import dims, symbols  # noqa: F401

    env = model.Env(fw, lambda n: getattr(symbols, n))
    values = {k: rng.choice([1, 2, 3]) for k in SYMS}
    r = rng.random()
    if r < 0.4:
        node = model.leaf(rng, env, names=SYMS, values=values, expr=0.2)
        v = node.value(rng, env, values)
        if rng.random() < 0.5:
            v = model.mutate(rng, v, env)
        alts = [node.alts(v, env)]
        want = model.joint(alts)
        if want is None or model.hard(alts):
            return "left-open"
        got = core.run(lambda: isinstance(v, node.build(env, rng)))
        note(got.ok and got.value is want, "isinstance of an installed framework is wrong",
             annotation=repr(node), value=model.describe(v), got=repr(got), want=want)
        return f"present-isinstance-{want}"
    if r < 0.5:
        shp = rng.choice([(), (1,), (2, 3), (0,)])
        v = fw.make(rng, shp)
        got = core.run(isinstance, v, asta.Scalar)
        note(got.ok and got.value is (shp == ()), "Scalar is wrong", value=model.describe(v), got=repr(got))
        return "present-scalar"
    if r < 0.6:
        node = model.leaf(rng, env, names=SYMS, values=values, expr=0.2)
        got = core.run(lambda: repr(node.build(env, rng)))
        note(got.ok and fw.name in got.value, "an annotation of an installed framework cannot be printed",
             annotation=repr(node), got=repr(got))
        return "present-repr"

    def node(q):
        return model.tree(q, env, depth=q.choice([0, 0, 1]), names=SYMS, values=values, expr=0.15)

    f = calls.random_function(rng, env, node, nmax=3)
    if not core.run(f.namespace, env, rng).ok:
        note(False, "an annotation of an installed framework was refused", function=repr(f))
        return "present-call"
    calls.with_defaults(f, rng, env, values)
    f.make(env, rng, asta.typechecked)
    args, kwargs = calls.arguments(f, rng, env, values, bad=0.4)
    ret = calls.result(f, rng, env, values, bad=0.3)
    want = f.verdict(args, kwargs, ret, env)
    if want in (None, "hard"):
        return "left-open"
    f.rec.ret = ret
    got = core.run(f.decorated, *args, **kwargs)
    good = {"ok": got.ok and got.value is ret and len(f.rec.calls) == 1,
            "ret": isinstance(got.exc, TypeError) and len(f.rec.calls) == 1}.get(
                want, isinstance(got.exc, TypeError) and not f.rec.calls)
    note(good, "a call with annotations of an installed framework is wrong", function=repr(f), want=want,
         args=[model.describe(a) for a in args], got=repr(got), runs=len(f.rec.calls))
    return f"present-call-{want}"


def session(ctx, seed, absence, steps):
    rng = random.Random(seed)
    if absence:
        for name in absence:
            sys.modules.pop(name, None)
        sys.meta_path.insert(0, Refuse(absence))
    wrong, events, checks = [], {}, [0]

    def note(good, what, **detail):
        checks[0] += 1
        if not good and len(wrong) < 3:
            wrong.append([what, {k: str(v)[:500] for k, v in detail.items()}])

    err = importing(rng)
    note(err is None, "asta cannot be imported with this set of frameworks", error=err)
    if err is None:
        core.run(importlib.import_module, "asta")
        present, missing = all_frameworks(ctx), missing_names(ctx)
        for _ in range(steps):
            if missing and rng.random() < 0.5:
                e = use_missing(rng, None, rng.choice(missing), note)
            else:
                e = use_present(rng, rng.choice(present), note)
            events[e] = events.get(e, 0) + 1
    return {"wrong": wrong, "events": events, "checks": checks[0]}


def run(ctx):
    fork = not has_tf(ctx)
    if fork:
        ctx.CASE_LIMIT = 0  # the children have a time limit
        forked.preload()
    steps = 30 if ctx.tier == "quick" else 80
    for rng in ctx.cases(scale(ctx, 60 * ctx.nshards if fork else 12), "session"):
        seed = rng.random()
        absence = [PACKAGE[n] for n in missing_names(ctx)] if fork and rng.random() < 0.5 else []
        if fork:
            got = forked.child(lambda: session(ctx, seed, absence, steps))
        else:
            got = session(ctx, seed, absence, steps)
        if not ctx.check("crash" not in got, "asta could not be used with this set of frameworks",
                         got=got.get("crash")):
            continue
        ctx.evaluations += got["checks"]
        for what, detail in got["wrong"]:
            ctx.check(False, what, absence=absence, **detail)
        for k, n in got["events"].items():
            ctx.event(k, n)
        ctx.seen(seed)
        ctx.sample(f"{ctx.world['name']}: {got['events']}")
