"""C09: symbols agree across all arguments and the return value."""
from props.common import *
from props import calls, exprs, model


def run(ctx):
    from asta import typechecked

    (fw,) = frameworks(ctx)
    env = make_env(ctx, fw)
    for rng in ctx.cases(scale(ctx, 120 if has_tf(ctx) else 700), "cross"):
        cross(ctx, rng, env, typechecked)
    for rng in ctx.cases(scale(ctx, 10 if has_tf(ctx) else 40), "many symbols"):
        pat, shp, values = exprs.wide(rng)
        dims = list(zip(pat, shp))
        groups = []
        while dims:
            k = rng.randint(1, 6)
            groups.append(dims[:k])
            dims = dims[k:]
        again = rng.sample(list(values), 3)
        groups.append([(sym(n), values[n]) for n in again])
        leaves = [model.Leaf(None, [p for p, _ in g]) for g in groups]
        given = rng.random() < 0.5
        params = [calls.Param(f"p{i}", "N", leaf) for i, leaf in enumerate(leaves[:-1] if given else leaves)]
        f = calls.Function(params, leaves[-1] if given else None)
        if not ctx.check(core.run(f.make, env, rng, typechecked).ok, "decorating failed", function=f):
            continue
        for _ in range(3):
            vals = [[s for _, s in g] for g in groups]
            if rng.random() < 0.7:
                i = rng.randrange(len(vals))
                j = rng.randrange(len(vals[i]))
                vals[i][j] += rng.choice([1, 2])
            vals = [fw.make(rng, fit(ctx, tuple(v))) for v in vals]
            args, ret = (tuple(vals[:-1]), vals[-1]) if given else (tuple(vals), None)
            want = f.verdict(args, {}, ret, env)
            calls.judge(ctx, f, args, {}, ret, env, want, label="many symbols")
            ctx.event(f"many-symbols-{want}")
            ctx.seen(repr(f), want, [model.describe(v) for v in vals])
    for rng in ctx.cases(scale(ctx, 80 if has_tf(ctx) else 450), "function"):
        names = exprs.pick_names(rng, rng.choice([1, 1, 2, 2, 3]))
        values = {n: rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 12]) for n in names}
        nonlinear = rng.random() < 0.3

        def node(r):
            depth = r.choice([0, 0, 0, 1, 1, 2])
            t = model.tree(r, env, depth=depth, names=names, values=values, unions=r.random() < 0.2,
                           attrs=0.06, none_shape=0.04, expr=0.3 if nonlinear else 0.15)
            return t

        f = calls.random_function(rng, env, node, ret=0.6, defaults=0.15)
        if not any(has_expr(leaf) for p in f.params for leaf in p.node.leaves()):
            continue
        if not core.run(f.namespace, env, rng).ok:
            continue
        calls.with_defaults(f, rng, env, values, bad=0)
        made = core.run(f.make, env, rng, typechecked)
        if not ctx.check(made.ok, "decorating failed", function=f, got=made):
            continue
        for _ in range(4):
            # Later calls use other sizes: nothing may be carried over.
            if rng.random() < 0.5:
                now = {n: rng.choice([1, 2, 3, 4, 5, 7]) for n in names}
            else:
                now = values
            args, kwargs = calls.arguments(f, rng, env, now, bad=0.35, misfit=0.02)
            if rng.random() < 0.4:
                args, kwargs = one_off(rng, env, args, kwargs)
            ret = calls.result(f, rng, env, now, bad=0.3)
            want = f.verdict(args, kwargs, ret, env)
            calls.judge(ctx, f, args, kwargs, ret, env, want)
            ctx.seen(repr(f), want, [model.describe(a) for a in args],
                     [model.describe(a) for a in kwargs.values()])
            tally(ctx, f, args, kwargs, ret, env, want)
        ctx.sample(f"{f!r}")
    for rng in ctx.cases(scale(ctx, 50), "nested"):
        nested(ctx, rng, env, typechecked)


def cross(ctx, rng, env, typechecked):
    """Symbol-heavy annotations; one place is built from a different assignment."""
    names = exprs.pick_names(rng, rng.choice([1, 1, 2, 2, 3]))
    values = {n: rng.choice([1, 2, 3, 3, 4, 5, 6, 9]) for n in names}
    expr = rng.choice([0.0, 0.2, 0.4])

    def one(r):
        pat, _, _ = exprs.pattern(r, names, rank=r.choice([1, 1, 2, 2, 3]), values=values, bare=1 - expr)
        if not ref.has_expr(pat):
            pat.insert(r.randint(0, len(pat)), sym(r.choice(names)))
        if not gen.legal(pat):
            pat = [sym(r.choice(names))]
        attrs = {r.choice(["ndim", "size"]): sym(r.choice(names))} if (
            env.fw.name == "Array" and r.random() < 0.06) else None
        return model.Leaf(None, pat, attrs)

    def node(r):
        leaf = one(r)
        q = r.random()
        if q < 0.6:
            return leaf
        if q < 0.68:
            return model.ListNode(leaf, seq=r.random() < 0.5)
        if q < 0.76:
            return model.TupleNode([leaf, one(r)])
        if q < 0.82:
            return model.TupleVar(leaf)
        if q < 0.88:
            return model.DictNode(model.STR, leaf)
        if q < 0.92:
            return model.NTNode(["alpha", "b"], [leaf, one(r)])
        if q < 0.96:
            return model.TDNode(["alpha", "b"], [leaf, one(r)], True)
        return model.UnionNode([leaf], True)

    f = calls.random_function(rng, env, node, ret=0.6, defaults=0.1)
    if not f.params or not core.run(f.namespace, env, rng).ok:
        return
    calls.with_defaults(f, rng, env, values, bad=0)
    made = core.run(f.make, env, rng, typechecked)
    if not ctx.check(made.ok, "decorating failed", function=f, got=made):
        return
    for _ in range(4):
        args, kwargs = calls.arguments(f, rng, env, values, bad=0, misfit=0)
        ret = calls.result(f, rng, env, values, bad=0)
        other = dict(values)
        n = rng.choice(names)
        other[n] = rng.choice([values[n] + 1, values[n] + 2, max(1, values[n] - 1)])
        q = rng.random()
        if q < 0.45 and (args or kwargs):
            a2, k2 = calls.arguments(f, rng, env, other, bad=0, misfit=0)
            pool = [i for i in range(min(len(args), len(a2)))]
            keys = [k for k in kwargs if k in k2]
            if pool and (not keys or rng.random() < 0.6):
                i = rng.choice(pool)
                args = args[:i] + (a2[i],) + args[i + 1:]
            elif keys:
                k = rng.choice(keys)
                kwargs[k] = k2[k]
        elif q < 0.65:
            ret = calls.result(f, rng, env, other, bad=0)
        elif q < 0.72:  # everything from the other assignment
            args, kwargs = calls.arguments(f, rng, env, other, bad=0, misfit=0)
            ret = calls.result(f, rng, env, other, bad=0)
        want = f.verdict(args, kwargs, ret, env)
        calls.judge(ctx, f, args, kwargs, ret, env, want)
        ctx.seen("cross", repr(f), want, [model.describe(a) for a in args],
                 [model.describe(a) for a in kwargs.values()])
        tally(ctx, f, args, kwargs, ret, env, want)


def tally(ctx, f, args, kwargs, ret, env, want):
    """Count contradictions only visible across annotations: each alone is fine."""
    if want in ("args", "ret"):
        bound = f.bind(args, kwargs)
        if bound is not None:
            checks = f.checks(bound)
            if want == "ret":
                checks = checks + [("return", f.ret_node, ret)]
            if all(model.joint([n.alts(v, env)]) for _, n, v in checks):
                ctx.event("cross-" + want)
    elif want == "ok":
        ctx.event("consistent")


def has_expr(leaf):
    return ref.has_expr(leaf.pat) or any(isinstance(v, E) for v in (leaf.attrs or {}).values())


def one_off(rng, env, args, kwargs):
    """Change one size of one array: a contradiction between annotations that fit alone."""
    pool = [("a", i) for i in range(len(args))] + [("k", k) for k in kwargs]
    if not pool:
        return args, kwargs
    which, key = rng.choice(pool)
    v = args[key] if which == "a" else kwargs[key]
    if env.fw.is_value(v) and not isinstance(v, model.HArr):
        shp = tuple(int(x) for x in v.shape)
        new = env.fw.make(rng, model.fit(env, exprs.perturb(rng, shp)), env.fw.dtype_of(v))
        if which == "a":
            args = args[:key] + (new,) + args[key + 1:]
        else:
            kwargs = dict(kwargs)
            kwargs[key] = new
    return args, kwargs


def nested(ctx, rng, env, typechecked):
    """Recursive and nested calls have assignments of their own."""
    from asta import symbols

    T, X = env.fw.T, symbols.X
    Y = symbols.Y
    mk = lambda *s: env.fw.make(rng, s, None)
    sizes = [rng.randint(1, 6) for _ in range(rng.randint(2, 5))]
    log = []

    @typechecked
    def rec(x: T[X, Y], rest: list) -> T[X, Y]:
        log.append(x)
        if rest:
            rec(rest[0], rest[1:])
        if bad and not rest:
            return mk(x.shape[0] + 1, x.shape[1])
        return x

    arrays = [mk(s, s + rng.randint(0, 2)) for s in sizes]
    for bad in (False, True):
        log.clear()
        got = core.run(rec, arrays[0], arrays[1:])
        ok = got.ok and got.value is arrays[0] if not bad else isinstance(got.exc, TypeError)
        ctx.check(ok and len(log) == len(arrays), "recursive calls with different sizes", sizes=sizes,
                  bad=bad, got=got, depth=len(log))
    n = rng.randint(1, 5)
    inner_n = rng.choice([n, n + 1])
    out_n = rng.choice([n, n, inner_n, n + 2])

    @typechecked
    def inner(p: T[X], q: T[X + 1]) -> T[2 * X]:
        return mk(2 * inner_n)

    @typechecked
    def outer(p: T[X], callback) -> T[X]:
        callback()
        return mk(out_n)

    outer.__wrapped__.__annotations__["callback"] = object
    got = core.run(outer, mk(n), lambda: inner(mk(inner_n), mk(inner_n + 1)))
    ctx.check(got.ok == (out_n == n), "a nested call disturbed the outer one", outer=n, inner=inner_n,
              result=out_n, got=got)
    fails = core.run(outer, mk(n), lambda: core.quiet_run(inner, mk(inner_n), mk(inner_n)))
    ctx.check(fails.ok == (out_n == n), "a failing nested call disturbed the outer one", outer=n,
              inner=inner_n, result=out_n, got=fails)
    # A closure called while the outer call's own symbols are bound.
    ctx.event("nested")
    ctx.seen("nested", tuple(sizes), n, inner_n, out_n)
