"""C12: containers of annotated arrays are checked element by element."""
import typing

from props.common import *
from props import calls, model


def run(ctx):
    from asta import typechecked

    (fw,) = frameworks(ctx)
    env = make_env(ctx, fw)
    for rng in ctx.cases(scale(ctx, 300 if has_tf(ctx) else 1800), "tree"):
        for _ in range(50):
            node = model.tree(rng, env, depth=rng.choice([1, 1, 2, 2, 3]),
                              unions=False, none_shape=0.05, attrs=0.03)
            if not isinstance(node, (model.Leaf, model.Plain, model.AnyNode, model.NoneNode)):
                break
        else:
            continue
        built = core.run(node.build, env, rng)
        if not ctx.check(built.ok, "a container annotation was refused", node=node, got=built):
            continue
        check_values(ctx, rng, env, typechecked, node, built.value, 6)
        ctx.event("kind-" + type(node).__name__)
        ctx.sample(repr(node))
    for rng in ctx.cases(scale(ctx, 150), "classes"):
        classes(ctx, rng, env, typechecked)
    for rng in ctx.cases(scale(ctx, 60), "long"):
        long_sequences(ctx, rng, env, typechecked)


def check_values(ctx, rng, env, typechecked, node, T, n):
    """Check values against a tree, as an argument and as a result."""
    runs = []

    def f(p):
        runs.append(p)
        return 7

    def g(v):
        return v

    f.__annotations__ = {"p": T}
    g.__annotations__ = {"v": typing.Any, "return": T}
    f, g = typechecked(f), typechecked(g)
    v = node.value(rng, env, {})
    for i in range(n):
        alts = node.alts(v, env)
        want = bool(alts)
        runs.clear()
        got = core.run(f, v)
        info = dict(node=node, value=model.describe(v), got=got)
        ctx.check(got.ok == want, f"as an argument, the value should be {'accepted' if want else 'refused'}",
                  **info)
        if got.exc is not None:
            ctx.check(isinstance(got.exc, TypeError), "not a TypeError", at=core.where(got.exc), **info)
        ctx.check(len(runs) == want and all(x is v for x in runs), "the body ran wrongly", runs=len(runs),
                  **info)
        if rng.random() < 0.5:
            got = core.run(g, v)
            ctx.check(got.ok == want and (got.value is v if want else isinstance(got.exc, TypeError)),
                      f"as a result, the value should be {'accepted' if want else 'refused'}", node=node,
                      value=model.describe(v), got=got)
        ctx.event("accept" if want else "refuse")
        ctx.seen(repr(node), model.describe(v, 4), want)
        base = node.value(rng, env, {}) if rng.random() < 0.5 or not want else v
        v = model.mutate(rng, base, env) if rng.random() < 0.7 else base


class RefBase:
    """Class-syntax containers for ``classes``: (annotation, nodes by key, kind)."""


def classes(ctx, rng, env, typechecked):
    """NamedTuples and TypedDicts written as classes, with inheritance and defaults."""
    A, B = model.leaf(rng, env), model.leaf(rng, env)
    a, b = A.build(env, rng), B.build(env, rng)
    va, vb = A.value(rng, env, {}), B.value(rng, env, {})
    kind = rng.choice(["nt", "nt-default", "nt-sub", "td", "td-sub", "td-mixed"])
    node = None
    if kind.startswith("nt"):
        if kind == "nt-default":
            NT = type("NT", (), {})
            ns = {"__annotations__": {"first": a, "second": b}, "second": vb, "__module__": __name__}
            NT = typing.NamedTupleMeta("NT", (typing._NamedTuple,), ns)
        else:
            NT = typing.NamedTuple("NT", [("first", a), ("second", b)])
        if kind == "nt-sub":
            NT = type("Sub", (NT,), {"method": lambda self: 1, "__slots__": ()})
        node = model.NTNode(["first", "second"], [A, B])
        node.cls = NT
        T = NT
    else:
        if kind == "td":
            T = typing.TypedDict("T", {"first": a, "second": b}, total=rng.random() < 0.5)
            node = model.TDNode(["first", "second"], [A, B], T.__total__)
        elif kind == "td-sub":
            Base = typing.TypedDict("Base", {"first": a})
            ns = {"__annotations__": {"second": b}, "__module__": __name__}
            T = typing._TypedDictMeta("T", (Base,), ns)
            node = model.TDNode(["first", "second"], [A, B], True)
        else:
            T = typing.TypedDict("T", {"first": a, "second": b}, total=False)
            node = model.TDNode(["first", "second"], [A, B], False)
        node.cls = T
    check_values(ctx, rng, env, typechecked, node, T, 5)
    holder = model.ListNode(node) if rng.random() < 0.5 else model.DictNode(model.STR, node)
    check_values(ctx, rng, env, typechecked, holder, holder.build(env, rng), 4)
    ctx.event("class-" + kind)


def long_sequences(ctx, rng, env, typechecked):
    """One bad element at a chosen position of a long container."""
    leaf = model.Leaf(None, [2, 3])
    good, bad = env.fw.make(rng, (2, 3), None), env.fw.make(rng, (3, 2), None)
    n = rng.choice([5, 20, 60])
    i = rng.choice([0, n - 1, rng.randrange(n)])
    items = [good] * n
    items[i] = bad
    for node, v in [(model.ListNode(leaf), list(items)), (model.ListNode(leaf, seq=True), tuple(items)),
                    (model.TupleVar(leaf), tuple(items)), (model.TupleNode([leaf] * n), tuple(items)),
                    (model.DictNode(model.STR, leaf), {str(k): x for k, x in enumerate(items)})]:
        def f(p):
            return 1
        f.__annotations__ = {"p": node.build(env, rng)}
        got = core.run(typechecked(f), v)
        want = bool(node.alts(v, env))
        ctx.check(got.ok == want, f"one bad element at {i} of {n}", node=type(node).__name__, got=got,
                  want=want)
        ctx.event("long-accept" if want else "long-refuse")
        ctx.seen("long", type(node).__name__, n, i, want)
