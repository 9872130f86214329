"""C10: dimension placeholders use the value current at each call."""
from props.common import *
from props import calls, exprs, model, places

BASES = ["B", "depth", "width", "hidden_size", "n", "S", "E", "lambda_", "in_", "T"]


def dim_expr(rng, names):
    """An expression that truly depends on every placeholder it mentions."""
    while True:
        e = _dim_expr(rng, names)
        if exprs.genuine(e):
            return e


def _dim_expr(rng, names):
    if rng.random() < 0.12:
        e = E("*", sym(rng.choice(names)), num(rng.choice([1, 1, 3])))
        return E("/", E("+", e, num(rng.choice([0, 1]))), num(rng.choice([2, 2, 3, 4])))
    return gen.expr(rng, names, depth=rng.choice([0, 0, 1, 1, 2]))


def leaf(rng, env, names, values, syms, svals):
    """A pattern with dims placeholders (and some symbols)."""
    pat = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        r = rng.random()
        if r < 0.6:
            pat.append(dim_expr(rng, names))
        elif r < 0.7 and syms:
            pat.append(sym(rng.choice(syms)))
        elif r < 0.76 and syms:
            pat.append(E(rng.choice("+*"), sym(rng.choice(syms)), sym(rng.choice(names))))
        elif r < 0.84:
            pat.append(rng.choice([1, 2, 3]))
        elif r < 0.92:
            pat.append(-1)
        elif ELL not in pat:
            pat.append(ELL)
    if not pat:
        pat = [sym(names[0])]
    return model.Leaf(env.fw.ann_dtype(rng) if rng.random() < 0.25 else None, pat)


def wrap(rng, make):
    """Mostly a bare array annotation, sometimes inside a container."""
    r = rng.random()
    if r < 0.6:
        return make()
    if r < 0.7:
        return model.ListNode(make(), seq=rng.random() < 0.5)
    if r < 0.77:
        return model.TupleNode([make(), make()])
    if r < 0.82:
        return model.TupleVar(make())
    if r < 0.88:
        return model.DictNode(model.STR, make())
    if r < 0.92:
        return model.NTNode(["alpha", "b"], [make(), make()])
    if r < 0.96:
        return model.TDNode(["alpha", "b"], [make(), make()], True)
    return model.UnionNode([make(), make()], rng.random() < 0.5)


def run(ctx):
    import asta
    from asta import typechecked, dims

    (fw,) = frameworks(ctx)
    env = make_env(ctx, fw)
    base_lookup = env.lookup
    for rng in ctx.cases(scale(ctx, 120 if has_tf(ctx) else 800), "function"):
        # Names of this case only: a placeholder cannot be unset again.
        k = rng.choice([1, 1, 2, 2, 3])
        names = places.fresh_names(ctx, rng, k, BASES)
        syms = exprs.pick_names(rng, rng.choice([1, 2])) if rng.random() < 0.4 else []
        syms = [s for s in syms if s not in places.SPECIAL]
        svals = {s: rng.choice([1, 2, 3, 4]) for s in syms}

        def lookup(name):
            return getattr(dims, name) if name in names else base_lookup(name)

        env.lookup = lookup
        sizes = [1, 1, 2, 2, 3, 4, 5, 6, 7, 12]
        values = {n: rng.choice(sizes) for n in names}
        current = {}
        prebound = [n for n in names if rng.random() < 0.12]
        for n in prebound:  # set before the annotation is written: written as its value
            current[n] = values[n]
            places.set_value(rng, "dims", dims, n, values[n])
        baked = dict(current)

        def node(r):
            return wrap(r, lambda: leaf(r, env, names, values, syms, svals))

        f = calls.random_function(rng, env, node, ret=0.5, defaults=0.15)
        if not f.params:
            continue
        # A quotient of set placeholders is an ordinary number when written, not an expression.
        leaves = [x for p in f.params for x in p.node.leaves()] + (
            f.ret_node.leaves() if f.ret_node else [])
        if baked and any(isinstance(e, E) and "/" in repr(e) and e.vars() & set(baked)
                         for x in leaves for e in x.pat):
            continue
        def fix(nd):
            return places.map_leaves(nd, lambda lf: model.Leaf(
                lf.dtype, [bake(p, baked) for p in lf.pat], lf.attrs))
        built = core.run(f.namespace, env, rng)
        if not built.ok:  # e.g. a baked literal makes no difference, but keep the check
            ctx.check(False, "an annotation with placeholders was refused", function=f, got=built)
            continue
        calls.with_defaults(f, rng, env, {**values, **svals}, bad=0)
        made = core.run(f.make, env, rng, typechecked)
        if not ctx.check(made.ok, "decorating failed", function=f, got=made):
            continue
        for step in range(5):
            if step or rng.random() < 0.8:
                for n in names:
                    if n not in current and rng.random() < 0.85 or rng.random() < 0.4:
                        v = values[n] if rng.random() < 0.4 else rng.choice(sizes)
                        if rng.random() < 0.1:
                            v = rng.choice([0, 0, -1, 257, 1000, -3])
                        current[n] = v
                        how = places.set_value(rng, "dims", dims, n, v)
                        ctx.event("set-by-" + how)
                        read = places.in_thread(getattr) if rng.random() < 0.3 else getattr
                        got = core.run(read, dims, n)
                        ctx.check(got.ok and got.value == v and isinstance(got.value, int),
                                  "reading a set dimension", name=n, stored=v, got=got)
            effective = {**current}
            gen_vals = {**values, **current, **baked, **svals}
            args, kwargs = calls.arguments(f, rng, env, gen_vals, bad=0.3, misfit=0.02)
            ret = calls.result(f, rng, env, gen_vals, bad=0.25)
            if rng.random() < 0.2:  # values for the sizes before the last change
                args, kwargs = calls.arguments(f, rng, env, {**values, **svals}, bad=0.1, misfit=0)

            def resolve(nd):
                return places.with_dims(fix(nd), effective, names)

            missing = [n for n in names if n not in current]
            if missing and any(not exprs.genuine(p.substitute(effective)) for x in leaves
                               for p in x.pat if isinstance(p, E)):
                ctx.event("cancelled")  # e.g. (A - 1) * B with A = 1: B is not needed
                continue
            want = places.Resolved(f, resolve).verdict(args, kwargs, ret, env)
            if missing:
                ctx.event("with-unset")
            if want == "ret" and missing and any(
                    e.vars() & set(missing) for x in f.ret_node.leaves() for e in x.pat
                    if isinstance(e, E)):
                # The result depends on a placeholder without a value: only the failure counts.
                f.rec.calls.clear()
                f.rec.ret = ret
                got = core.run(f.decorated, *args, **kwargs)
                ctx.check(isinstance(got.exc, TypeError), "a result was accepted although its "
                          "annotation has a placeholder without a value", function=f, got=got)
                continue
            here = f.decorated
            if rng.random() < 0.15:
                f.decorated = places.in_thread(here)
                ctx.event("called-in-thread")
            calls.judge(ctx, f, args, kwargs, ret, env, want, label=f"dims={effective}")
            f.decorated = here
            ctx.seen(repr(f), want, tuple(sorted(effective.values())),
                     [model.describe(a) for a in args])
        ctx.sample(f"{f!r} {current}")
    env.lookup = base_lookup
    for rng in ctx.cases(scale(ctx, 60), "attributes"):
        attributes(ctx, rng, dims, asta)
    for rng in ctx.cases(scale(ctx, 60), "plain"):
        plain(ctx, rng, env, dims, typechecked)


def bake(p, baked):
    """What a program writes when some placeholders already have values."""
    if isinstance(p, E) and p.vars() & set(baked):
        p = p.substitute(baked)
        if not p.vars():
            return int(p.ev({}))
    return p


def attributes(ctx, rng, dims, asta):
    name = f"{rng.choice(BASES)}_attr{ctx.case['index']}"
    first = getattr(dims, name)
    ctx.check(not isinstance(first, int) and getattr(dims, name) == first,
              "an unset dimension is a placeholder", got=first)
    last = None
    for _ in range(rng.randint(2, 6)):
        if rng.random() < 0.45:
            bad = rng.choice([2.0, "3", None, (2,), [2], 1j, first, float("nan"), object()])
            got = core.run(setattr, dims, name, bad)
            ctx.check(isinstance(got.exc, TypeError), "a dimension that is no integer was stored",
                      value=repr(bad), got=got)
            ctx.event("refused-values")
        else:
            last = rng.choice([0, 1, 5, 10**6, 2**40, -1, rng.randint(0, 10**4)])
            got = core.run(setattr, dims, name, last)
            ctx.check(got.ok, "storing an integer failed", got=got)
        now = getattr(dims, name)
        if last is None:
            ctx.check(not isinstance(now, int), "an unset dimension has a value", got=now)
        else:
            ctx.check(type(now) is type(last) and now == last or now == last and isinstance(now, int),
                      "reading a set dimension", stored=last, got=now)
        ctx.check(getattr(asta.dims, name) == now, "asta.dims and the import differ")
    ctx.seen("attributes", name, last)


def plain(ctx, rng, env, dims, typechecked):
    """The documented use: one function, the value changed between, inside and across calls."""
    T = env.fw.T
    a, b = (f"{x}_plain{ctx.case['index']}" for x in rng.sample(BASES, 2))
    A, B = getattr(dims, a), getattr(dims, b)
    mk = lambda *s: env.fw.make(rng, s, None)
    runs = []

    @typechecked
    def inner(x: T[A, B]) -> T[B, A]:
        runs.append(1)
        return mk(x.shape[1], x.shape[0])

    @typechecked
    def outer(x: T[A]) -> None:
        setattr(dims, b, nb)
        inner(mk(na, nb))

    na, nb = rng.randint(1, 6), rng.randint(1, 6)
    setattr(dims, a, na)
    got = core.run(inner, mk(na, nb))
    ctx.check(isinstance(got.exc, TypeError) and not runs, "a placeholder without a value was accepted",
              got=got)
    got = core.run(outer, mk(na))
    ctx.check(got.ok and len(runs) == 1, "a value set inside another call is not in effect", got=got)
    setattr(dims, b, nb + 1)
    got = core.run(inner, mk(na, nb))
    ctx.check(isinstance(got.exc, TypeError), "an old value is still in effect", got=got)
    got = core.run(inner, mk(na, nb + 1))
    ctx.check(got.ok, "the new value is not in effect", got=got)
    ctx.event("plain")
    ctx.seen("plain", na, nb)
