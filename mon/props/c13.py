"""C13: Optional and Union accept exactly their alternatives."""
import itertools
import typing

from props.common import *
from props import calls, exprs, model
from props.c12 import check_values


def run(ctx):
    from asta import typechecked

    (fw,) = frameworks(ctx)
    env = make_env(ctx, fw)
    few = has_tf(ctx) or env.non_asta
    for rng in ctx.cases(scale(ctx, 150 if few else 900), "tree"):
        node = union(rng, env, rng.choice([0, 0, 1, 2]))
        wrap = rng.random()
        if wrap < 0.5:
            for _ in range(rng.choice([1, 1, 2])):
                node = rng.choice([
                    lambda n: model.ListNode(n), lambda n: model.ListNode(n, seq=True),
                    lambda n: model.TupleNode([n, model.leaf(rng, env)]), lambda n: model.TupleVar(n),
                    lambda n: model.DictNode(model.STR, n), lambda n: model.NTNode(["alpha", "b"], [n, n]),
                    lambda n: model.TDNode(["alpha"], [n], rng.random() < 0.5),
                    lambda n: model.UnionNode([n, model.leaf(rng, env)])])(node)
        built = core.run(node.build, env, rng)
        if not ctx.check(built.ok, "a union was refused as an annotation", node=node, got=built):
            continue
        check_values(ctx, rng, env, typechecked, node, built.value, 5)
        ctx.sample(repr(node))
    for rng in ctx.cases(scale(ctx, 50 if few else 250), "order"):
        order(ctx, rng, env, typechecked)
    for rng in ctx.cases(scale(ctx, 50 if few else 220), "sizes"):
        sizes(ctx, rng, env, typechecked)
    for rng in ctx.cases(scale(ctx, 40 if few else 150), "committed"):
        committed(ctx, rng, env, typechecked)


def union(rng, env, depth):
    k = rng.choice([1, 2, 2, 3, 4])
    first = model.leaf(rng, env, attrs=0.1)
    elems = [first]
    while len(elems) < k:
        r = rng.random()
        if r < 0.55:  # nearly the same annotation
            d, p, a = first.dtype, first.pat, first.attrs
            q = rng.random()
            if q < 0.4:
                d = env.fw.ann_dtype(rng)
            elif q < 0.85:
                p = gen.mutate_pattern(rng, p or [2])
                p = [x if x is ELL or x < 20 else 3 for x in p]
            else:
                a = {"ndim": rng.choice([1, 2])}
            elems.append(model.Leaf(d, p, a))
        elif depth and r < 0.85:
            elems.append(model.tree(rng, env, depth=depth, plain=False))
        else:
            elems.append(model.leaf(rng, env))
    rng.shuffle(elems)
    return model.UnionNode(elems, rng.random() < 0.4)


def order(ctx, rng, env, typechecked):
    """The order of the alternatives does not matter."""
    node = union(rng, env, 1)
    anns = [e.build(env, rng) for e in node.elems] + ([type(None)] if node.optional else [])
    perms = list(itertools.permutations(anns))
    rng.shuffle(perms)
    funcs = []
    for perm in perms[:4]:
        def f(p):
            return 1
        f.__annotations__ = {"p": typing.Union[tuple(perm)]}
        funcs.append(typechecked(f))
    for _ in range(4):
        v = node.value(rng, env, {})
        if rng.random() < 0.5:
            v = model.mutate(rng, v, env)
        want = bool(node.alts(v, env))
        for f in funcs:
            got = core.run(f, v)
            ctx.check(got.ok == want and (want or isinstance(got.exc, TypeError)),
                      f"order of alternatives: should be {'accepted' if want else 'refused'}",
                      node=f.__annotations__["p"], value=model.describe(v), got=got)
        ctx.event("order")
        ctx.seen("order", repr(node), model.describe(v))


def sizes(ctx, rng, env, typechecked):
    """Sizes of the alternative in effect agree with the rest of the call."""
    names = exprs.pick_names(rng, rng.choice([2, 3]))
    values = {n: rng.choice([1, 2, 3, 4, 5]) for n in names}

    def leaf():
        pat, _, _ = exprs.pattern(rng, names, rank=rng.choice([1, 2, 2, 3]), values=values, bare=0.85)
        if not gen.legal(pat):
            pat = [sym(names[0])]
        return model.Leaf(env.fw.ann_dtype(rng) if rng.random() < 0.35 else None, pat)

    params = []
    ks = rng.randint(2, 3)
    for i in range(ks):
        if rng.random() < 0.6:
            node = model.UnionNode([leaf() for _ in range(rng.choice([1, 2, 2, 3]))], rng.random() < 0.4)
            if rng.random() < 0.2:
                node = model.ListNode(node)
        else:
            node = leaf()
        params.append(calls.Param(calls.PARAMS[i], "N", node))
    f = calls.Function(params, leaf() if rng.random() < 0.4 else None)
    if not core.run(f.namespace, env, rng).ok:
        return
    made = core.run(f.make, env, rng, typechecked)
    if not ctx.check(made.ok, "decorating failed", function=f, got=made):
        return
    for _ in range(4):
        args, kwargs = calls.arguments(f, rng, env, values, bad=0.1, misfit=0)
        if rng.random() < 0.5:
            other = dict(values)
            other[rng.choice(names)] += 1
            a2, k2 = calls.arguments(f, rng, env, other, bad=0, misfit=0)
            i = rng.randrange(ks)
            bound, b2 = f.bind(args, kwargs), f.bind(a2, k2)
            bound[params[i].name] = b2[params[i].name]
            args, kwargs = (), {p.name: bound[p.name] for p in params}
        ret = calls.result(f, rng, env, values, bad=0.1)
        want = f.verdict(args, kwargs, ret, env)
        calls.judge(ctx, f, args, kwargs, ret, env, want)
        ctx.event("sizes-" + str(want))
        ctx.seen("sizes", repr(f), want, [model.describe(a) for a in args])


def committed(ctx, rng, env, typechecked):
    """A union after the sizes are known: some alternative must agree with them, and a failed
    alternative leaves nothing behind."""
    names = exprs.pick_names(rng, 3)
    values = {n: rng.choice([1, 2, 3, 4, 5]) for n in names}
    X = sym(names[0])
    fixed = model.Leaf(None, [sym(n) for n in names[:2]])

    def alt():
        pat = [rng.choice([sym(rng.choice(names)), sym(rng.choice(names)), -1, rng.choice([1, 2, 3])])
               for _ in range(rng.choice([1, 2]))]
        return model.Leaf(env.fw.ann_dtype(rng) if rng.random() < 0.2 else None, pat)

    node = model.UnionNode([alt() for _ in range(rng.choice([2, 3, 4]))], rng.random() < 0.2)
    f = calls.Function([calls.Param("a", "N", fixed), calls.Param("b", "N", node)], None)
    f.make(env, rng, typechecked)
    f.ret_node = None
    for _ in range(5):
        a = fixed.value(rng, env, values)
        b = node.value(rng, env, values)
        if rng.random() < 0.5:
            b = model.mutate(rng, b, env)
        verdicts = [ref.decide(x + y) for x in fixed.alts(a, env) for y in node.alts(b, env)]
        want = "ok" if True in verdicts else "args" if all(v is False for v in verdicts) else None
        calls.judge(ctx, f, (a, b), {}, object(), env, want, label="sizes known before the union")
        ctx.event("committed-" + str(want))
        if len(set(verdicts)) == 2:
            ctx.event("some-alternatives-contradict")
        ctx.seen("committed", repr(f), model.describe(a), model.describe(b))
