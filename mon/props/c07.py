"""C07: calls fail exactly when an argument or the result mismatches."""
from props.common import *
from props import calls, model


def run(ctx):
    from asta import typechecked

    (fw,) = frameworks(ctx)
    env = make_env(ctx, fw)
    for rng in ctx.cases(scale(ctx, 250 if has_tf(ctx) else 1500), "function"):

        def node(r):
            if r.random() < 0.75:
                return model.leaf(r, env, attrs=0.1)
            return model.tree(r, env, depth=1)

        f = calls.random_function(rng, env, node)
        built = core.run(f.namespace, env, rng)
        if not ctx.check(built.ok, "a well-formed annotation was refused", function=f, got=built):
            continue
        calls.with_defaults(f, rng, env, {})
        made = core.run(f.make, env, rng, typechecked)
        if not ctx.check(made.ok, "decorating failed", function=f, got=made):
            continue
        ctx.check(not made.out, "decorating printed", out=made.out)
        for _ in range(rng.choice([3, 5])):
            args, kwargs = calls.arguments(f, rng, env, {})
            ret = calls.result(f, rng, env, {})
            want = f.verdict(args, kwargs, ret, env)
            calls.judge(ctx, f, args, kwargs, ret, env, want)
            ctx.seen(repr(f), want, [model.describe(a) for a in args], len(kwargs))
            for p in f.params:
                if p.kind in "PVWK":
                    ctx.event("kind-" + p.kind)
            if rng.random() < 0.25:
                # The verdict is isinstance's, for a single array annotation.
                leaf = model.leaf(rng, env, attrs=0.2)
                T = core.run(leaf.build, env, rng)
                if T.ok:
                    v = leaf.value(rng, env, {})
                    if rng.random() < 0.5:
                        v = model.mutate(rng, v, env)
                    agree(ctx, typechecked, T.value, v, leaf)
        ctx.sample(f"{f!r}")
    for rng in ctx.cases(scale(ctx, 60), "unannotated"):
        unannotated(ctx, rng, env, typechecked)
    for rng in ctx.cases(scale(ctx, 100), "method"):
        methods(ctx, rng, env, typechecked)


def agree(ctx, typechecked, T, v, leaf):
    def g(p):
        return 5

    g.__annotations__ = {"p": T}
    got = core.run(typechecked(g), v)
    isin = probe(v, T)
    ctx.check(isin.ok and got.ok == isin.value and (got.ok or isinstance(got.exc, TypeError)),
              "the call and isinstance disagree", leaf=leaf, value=model.describe(v), call=got,
              isinstance=isin)

    def h():
        return v

    h.__annotations__ = {"return": T}
    got = core.run(typechecked(h))
    ctx.check(isin.ok and got.ok == isin.value and (got.ok or isinstance(got.exc, TypeError)),
              "the result check and isinstance disagree", leaf=leaf, value=model.describe(v), call=got,
              isinstance=isin)
    ctx.event("agree-" + str(isin.value))


def unannotated(ctx, rng, env, typechecked):
    """A parameter without annotation makes every call fail, unless it is the instance."""
    ran = []

    f = calls.random_function(rng, env, lambda r: model.leaf(r, env), defaults=0, ret=0)
    if not f.params:
        return
    victim = rng.choice(f.params)
    if victim.kind in "VW" or victim.name in ("self", "cls", "mcs"):
        return
    node, victim.node = victim.node, None
    made = core.run(f.make, env, rng, typechecked)
    if not ctx.check(made.ok, "decorating failed", function=f, got=made):
        return
    victim.node = node
    args, kwargs = calls.arguments(f, rng, env, {}, bad=0, misfit=0)
    victim.node = None
    if f.bind(args, kwargs) is None:
        return
    f.rec.calls.clear()
    got = core.run(f.decorated, *args, **kwargs)
    ctx.check(isinstance(got.exc, TypeError) and not f.rec.calls,
              "an unannotated parameter was accepted", function=f, got=got, runs=len(f.rec.calls))
    ctx.event("unannotated")


def methods(ctx, rng, env, typechecked):
    """Explicitly decorated methods: self, cls and mcs are neither annotated nor checked."""
    first = rng.choice(["self", "cls", "mcs"])
    f = calls.random_function(rng, env, lambda r: model.leaf(r, env), first=first, defaults=0.2)
    calls_ns = core.run(f.namespace, env, rng)
    if not ctx.check(calls_ns.ok, "a well-formed annotation was refused", got=calls_ns):
        return
    calls.with_defaults(f, rng, env, {})
    made = core.run(f.make, env, rng, typechecked)
    if not ctx.check(made.ok, "decorating failed", function=f, got=made):
        return
    if first == "self":
        owner = type("Owner", (), {f.name: f.decorated})
        me = owner()
        target = getattr(me, f.name)
    elif first == "cls":
        owner = type("Owner", (), {f.name: classmethod(f.decorated)})
        me = owner
        target = getattr(rng.choice([owner, owner()]), f.name)
    else:
        meta = type("Meta", (type,), {f.name: f.decorated})
        me = meta("Made", (), {})
        target = getattr(me, f.name)
    for _ in range(3):
        args, kwargs = calls.arguments(f, rng, env, {})
        ret = calls.result(f, rng, env, {})
        want = f.verdict((me,) + args, kwargs, ret, env)
        inner, f.decorated = f.decorated, target
        bind = f.bind
        f.bind = lambda a, k: bind(a if a and a[0] is me else (me,) + a, k)
        calls.judge(ctx, f, args, kwargs, ret, env, want, label=f"method ({first})")
        f.bind, f.decorated = bind, inner
        ctx.event("method-" + first)
        ctx.seen("method", first, repr(f), want)
