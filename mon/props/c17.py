"""C17: with raise-errors=no checking never changes a call."""
import re

from props.common import *
from props import c11, calls, c14, exprs, model, places


def failures(text):
    return [core.plain(line) for line in text.splitlines() if "FAILED" in line]


def named(lines):
    """The parameters (or 'return') quoted by failure lines."""
    return {m for line in lines for m in re.findall(r"'([A-Za-z_]\w*)(?=['.\[<])", line)}


def subjects(lines):
    """What each failure line is about: the first name it quotes."""
    found = [re.search(r"'([A-Za-z_]\w*)(?=['.\[<])", line) for line in lines]
    return {m.group(1) for m in found if m}


def run(ctx):
    from asta import dims, shapes, typechecked

    (fw,) = frameworks(ctx)
    env = make_env(ctx, fw)
    few = has_tf(ctx)
    nodes = c14.plain_nodes()
    base_lookup = env.lookup
    for rng in ctx.cases(scale(ctx, 120 if few else 700), "function"):
        style = rng.choice(["array", "array", "symbols", "symbols", "plain", "unset"])
        names, values, lookup = [], {}, base_lookup
        if style in ("symbols", "unset"):
            names = exprs.pick_names(rng, rng.choice([1, 2, 2, 3]))
            values = {n: rng.choice([1, 2, 3, 4, 5]) for n in names}
        unset = []
        if style == "unset":
            unset = [f"U{ctx.case['index']}_{j}" for j in range(2)]
            values.update({n: rng.choice([1, 2, 3]) for n in unset})

            def lookup(name, unset=unset):
                return getattr(dims, name) if name in unset else base_lookup(name)
        env.lookup = lookup

        def node(r):
            if style == "plain" and r.random() < 0.6:
                return c14.tree(r, nodes, r.choice([0, 0, 1]))
            return model.tree(r, env, depth=r.choice([0, 0, 1, 1, 2]), names=names + unset, values=values,
                              unions=r.random() < 0.3, attrs=0.1, expr=0.2)

        f = calls.random_function(rng, env, node, ret=0.6, defaults=0.3)
        if not core.run(f.namespace, env, rng).ok:
            continue
        calls.with_defaults(f, rng, env, values)
        made = core.run(f.make, env, rng, typechecked)
        if not ctx.check(made.ok and made.out == "", "decorating failed or printed", function=f, got=made,
                         out=made.out):
            continue
        vals = c14.pool(ctx, fw, rng) if style == "plain" else None
        for _ in range(4):
            args, kwargs = calls.arguments(f, rng, env, values, bad=rng.choice([0, 0.3, 0.9]), misfit=0)
            if rng.random() < 0.3:
                args = tuple(strange(rng, a, fw) for a in args)
            if vals and rng.random() < 0.6:
                args = tuple(rng.choice(vals) if rng.random() < 0.5 else a for a in args)
            bound = f.bind(args, kwargs)
            if bound is None:
                continue
            ret = calls.result(f, rng, env, values, bad=0.35)
            if vals and rng.random() < 0.2:
                ret = rng.choice(vals)
            exc = None
            if rng.random() < 0.2:
                exc = rng.choice([ValueError("v"), TypeError("own"), KeyError(1), RuntimeError()])
            soft(ctx, rng, env, f, args, kwargs, ret, exc, bound, style, names, unset)
        ctx.sample(f"{style} {f!r}")
    env.lookup = base_lookup
    for rng in ctx.cases(scale(ctx, 100 if not few else 30), "containers"):
        wrong_container(ctx, rng, env, typechecked)
    for rng in ctx.cases(scale(ctx, 120 if not few else 30), "unset shapes"):
        unset_shapes(ctx, rng, env, typechecked, shapes)
    for rng in ctx.cases(scale(ctx, 60 if not few else 20), "methods"):
        methods(ctx, rng, env, typechecked)


def strange(rng, v, fw):
    """Values which trip careless checks."""
    r = rng.random()
    if r < 0.5:
        return v
    if r < 0.6:
        return fw.alien((2, 3))
    return rng.choice([None, 5, "text", b"", [v], {"a": v}, {1: 2}, (), set(), object(), iter([]), len, int,
                       float("nan"), [None, None], [[]], np.array([None, "x"], dtype=object),
                       np.zeros((2, 0)), np.zeros(()), np.zeros(2, dtype=[("a", "i4")])])


def soft(ctx, rng, env, f, args, kwargs, ret, exc, bound, style, names, unset):
    f.rec.calls.clear()
    f.rec.ret, f.rec.exc = ret, exc
    got = core.run(f.decorated, *args, **kwargs)
    lines = failures(got.out)
    info = dict(function=f, args=[model.describe(a) for a in args],
                kwargs={k: model.describe(v) for k, v in kwargs.items()}, ret=model.describe(ret),
                got=got, at=core.where(got.exc) if got.exc else "", out=core.plain(got.out))
    ctx.check(len(f.rec.calls) == 1, "the body did not run exactly once", runs=len(f.rec.calls), **info)
    if exc is not None:
        ctx.check(got.exc is exc, "the exception of the body was replaced", **info)
    elif ctx.check(got.ok, "a call failed with raise-errors=no", **info):
        ctx.check(got.value is ret, "another result was returned", **info)
    if f.rec.calls:
        ctx.check(calls.identical(f.rec.calls[-1], bound), "the body saw other arguments", **info)
    ctx.event("calls")
    ctx.event("style-" + style)

    # What must be printed.
    checks = f.checks(bound)
    if exc is None and f.ret_node is not None:
        checks = checks + [("return", f.ret_node, ret)]
    if style == "plain" and any(c14_unsure(n, v) for _, n, v in checks):
        ctx.event("left-open")
        return
    if unset and any(x in unset for _, n, _v in checks for leaf in n.leaves() for x in mentioned(leaf)):
        reach = any(x in unset for _, n, _v in checks if isinstance(n, model.Leaf) for x in leaf_vars(n))
        if reach:
            ctx.check(any(any(u in line for u in unset) for line in lines) or lines,
                      "an unset placeholder was not reported", **info)
            ctx.event("unset-reported")
        return
    alts = [n.alts(v, env) for _, n, v in checks]
    bad = {label for (label, _, _), a in zip(checks, alts) if not a}
    if bad:
        ctx.event("failing")
        ctx.check(bool(bad & named(lines)), "no FAILED line names a mismatching parameter",
                  mismatching=sorted(bad), **info)
        if not names:
            ctx.check(subjects(lines) & {x for x, _, _ in checks} <= bad,
                      "a FAILED line names a matching parameter", mismatching=sorted(bad), **info)
    else:
        if calls.hard(alts):
            return
        j = model.joint(alts)
        if j is True:
            ctx.event("passing")
            ctx.check(not lines, "FAILED was printed although everything matches", **info)
        elif j is False:
            ctx.event("contradicting")
            ctx.check(bool(lines), "contradicting sizes printed no failure", **info)
    ctx.seen(repr(f), [model.describe(a) for a in args], model.describe(ret), len(lines))


def c14_unsure(node, v):
    try:
        return c14.unsure(node, v)
    except Exception:  # pylint: disable=broad-except
        return True


def mentioned(leaf):
    return {x for p in (leaf.pat or []) if isinstance(p, E) for x in p.vars()}


def leaf_vars(leaf):
    """The names a pattern certainly needs: inside an expression one may cancel."""
    return {p.args[0] for p in (leaf.pat or []) if isinstance(p, E) and p.op == "sym"}


def wrong_container(ctx, rng, env, typechecked):
    """A value of the wrong kind for a container: reported, and not looked into."""
    leaf = model.leaf(rng, env)
    inner = rng.choice([leaf, model.ListNode(leaf)])
    node = rng.choice([
        lambda: model.ListNode(inner), lambda: model.ListNode(inner, seq=True), lambda: model.TupleVar(inner),
        lambda: model.TupleNode([inner, leaf]), lambda: model.DictNode(model.STR, inner),
        lambda: model.SetNode(leaf), lambda: model.NTNode(["alpha"], [inner]), lambda: model.TupleNode([]),
        lambda: model.TDNode(["alpha", "b"], [inner, leaf], True), lambda: model.UnionNode([inner], False)])()
    T = node.build(env, rng)
    touched = []

    class Spy:
        """Any use of the value would be noticed."""

        def __getitem__(self, k):
            touched.append("getitem")
            raise RuntimeError("touched")

        def __iter__(self):
            touched.append("iter")
            raise RuntimeError("touched")

        def __len__(self):
            touched.append("len")
            raise RuntimeError("touched")

    v = rng.choice([Spy(), 3, None, "", b"x", [3], (3,), {"z": 1}, {3}, object(), lambda: 1, [], (), {}])
    runs = []

    def f(p):
        runs.append(p)
        return p
    f.__annotations__ = {"p": T, "return": T}
    got = core.run(typechecked(f), v)
    want = bool(node.alts(v, env))
    info = dict(annotation=node, value=core.short(v), got=got, out=core.plain(got.out),
                at=core.where(got.exc) if got.exc else "")
    ctx.check(got.ok and got.value is v and len(runs) == 1 and runs[0] is v,
              "a call failed with raise-errors=no", touched=touched, **info)
    lines = failures(got.out)
    ctx.check(bool(lines) == (not want), "wrong failure lines", **info)
    if not want:
        ctx.check({"p", "return"} <= named(lines), "the parameter and the result should both be named", **info)
    ctx.event("container-" + ("fine" if want else "wrong"))
    ctx.seen("container", repr(node), core.short(v, 20))


def unset_shapes(ctx, rng, env, typechecked, shapes):
    """Annotations with shape placeholders, some of which were never set."""
    names = [f"V{ctx.case['index']}_{j}" for j in range(3)]
    stored = {n: tuple(rng.randint(1, 3) for _ in range(rng.randint(0, 2)))
              for n in names if rng.random() < 0.5}
    leaves = [c11.shleaf(rng, env, names, []) for _ in range(2)]
    if rng.random() < 0.3:
        leaves[1] = model.leaf(rng, env)
    nodes = [c11.wrap(rng, lambda x=x: x) for x in leaves]
    runs = []

    def f(p, q):
        runs.append((p, q))
        return p
    anns = [core.run(n.build, env, rng) for n in nodes]
    if not all(a.ok for a in anns):
        ctx.event("not-an-annotation")
        return
    f.__annotations__ = {"p": anns[0].value, "q": anns[1].value, "return": anns[0].value}
    g = typechecked(f)
    for n, s in stored.items():
        setattr(shapes, n, s)
    needed = [n for n in sorted({x for lf in leaves if isinstance(lf, c11.ShLeaf) for x in lf.names()})
              if n not in stored]
    # Only bare array annotations are certainly looked at, whatever the value is.
    sure = [n for n in needed if any(n in nd.names() for nd in nodes if isinstance(nd, c11.ShLeaf))]
    for _ in range(3):
        vals = []
        for nd in nodes:
            full = {**{n: (2,) for n in names}, **stored}
            nd = places.map_leaves(nd, lambda lf: lf.resolve(full) if isinstance(lf, c11.ShLeaf) else lf)
            v = core.run(nd.value, rng, env, {})
            v = v.value if v.ok else env.fw.make(rng, (2,), None)
            vals.append(strange(rng, v, env.fw) if rng.random() < 0.3 else v)
        runs.clear()
        got = core.run(g, *vals)
        lines = failures(got.out)
        info = dict(annotations=nodes, stored=stored, values=[model.describe(v) for v in vals], got=got,
                    at=core.where(got.exc) if got.exc else "", out=core.plain(got.out))
        ctx.check(got.ok and got.value is vals[0] and len(runs) == 1 and runs[0][0] is vals[0]
                  and runs[0][1] is vals[1], "a call failed with raise-errors=no", **info)
        if sure:
            ctx.check(any(n in line for n in sure for line in lines), "an unset placeholder was not reported", **info)
            ctx.event("unset-shape-reported")
        elif not needed:
            ctx.event("all-shapes-set")
    ctx.seen("unset shapes", repr(nodes), len(stored))


def methods(ctx, rng, env, typechecked):
    """Methods, class and static methods of a decorated class."""
    n = rng.randint(1, 4)
    T = env.fw.T[n]
    runs = []

    class C:
        def m(self, x: T) -> T:
            runs.append((self, x))
            return x

        @classmethod
        def c(cls, x: T) -> T:
            runs.append((cls, x))
            return x

        @staticmethod
        def s(x: T) -> T:
            runs.append((None, x))
            return x

    typechecked(C)
    obj = C()
    for k in rng.sample([n, n, n + 1, n + 2], 3):
        v = env.fw.make(rng, (k,), None)
        for fn, first in ((obj.m, obj), (C.c, C), (obj.c, C), (C.s, None), (obj.s, None)):
            runs.clear()
            got = core.run(fn, v) if rng.random() < 0.5 else core.run(fn, x=v)
            lines = failures(got.out)
            ctx.check(got.ok and got.value is v and runs and runs[0][0] is first and runs[0][1] is v
                      and len(runs) == 1, "a method call changed", got=got, n=n, k=k)
            ctx.check(({"x", "return"} <= named(lines)) if k != n else not lines,
                      "wrong failure lines of a method", out=core.plain(got.out), n=n, k=k)
            ctx.event("method-calls")
    ctx.seen("methods", n)
