"""C11: shape placeholders use the value current at each call."""
from props.common import *
from props import calls, exprs, model, places
from props.c10 import wrap

BASES = ["S", "IMG", "batch_shape", "N", "rest", "E", "core_", "I"]


class ShLeaf(model.Leaf):
    """A shape of items:
        ("dim", d)        a dimension: int, -1, ..., symbol or expression
        ("ph", name)      a placeholder
        ("unp", name)     a placeholder unpacked with *
        ("cat", parts)    a sum of placeholder names and tuples of dimensions
    """

    def __init__(self, dtype, items):
        super().__init__(dtype, None)
        self.items = items

    def __repr__(self):
        d = getattr(self.dtype, "__name__", str(self.dtype))
        return f"A[{d}|{self.items}]".replace("Ellipsis", "...")

    def names(self):
        out = set()
        for kind, x in self.items:
            if kind in ("ph", "unp"):
                out.add(x)
            elif kind == "cat":
                out |= {p for p in x if isinstance(p, str)}
        return out

    def resolve(self, values):
        """The leaf with the stored tuples written in, or Never."""
        pat = []
        for kind, x in self.items:
            if kind == "dim":
                pat.append(x)
            else:
                for part in ([x] if kind != "cat" else x):
                    if isinstance(part, str):
                        if part not in values:
                            return places.Never()
                        pat += list(values[part])
                    else:
                        pat += list(part)
        return model.Leaf(self.dtype, pat)

    def build(self, env, rng):
        from asta import shapes

        def dim(d):
            return d.build(env.lookup) if isinstance(d, E) else d

        out = []
        for kind, x in self.items:
            if kind == "dim":
                out.append(dim(x))
            elif kind == "ph":
                out.append(getattr(shapes, x))
            elif kind == "unp":
                out.extend([*getattr(shapes, x)])
            else:
                parts = [getattr(shapes, p) if isinstance(p, str) else tuple(dim(d) for d in p)
                         for p in x]
                out.append(add(rng, parts))
        pre = [self.dtype] if self.dtype is not None else []
        T = env.fw.T
        if len(out) == 1 and not pre and rng.random() < 0.6:
            return T[out[0]]
        if rng.random() < 0.2 and pre:
            return T[pre[0]][tuple(out)]
        if rng.random() < 0.15 and not any(isinstance(o, tuple) for o in out):
            return T[tuple(pre + [tuple(out)])]
        return T[tuple(pre + out)]


def add(rng, parts):
    """Sum the parts, in a random association that Python can evaluate."""
    parts = list(parts)
    while len(parts) > 1:
        i = rng.randrange(len(parts) - 1)
        parts[i:i + 2] = [parts[i] + parts[i + 1]]
    return parts[0]


def shleaf(rng, env, names, syms):
    items = []

    def dims_tuple():
        out = []
        for _ in range(rng.choice([1, 1, 2])):
            r = rng.random()
            if r < 0.25 and syms:
                out.append(sym(rng.choice(syms)))
            elif r < 0.32 and syms:
                out.append(E("+", sym(rng.choice(syms)), num(1)))
            elif r < 0.45:
                out.append(-1)
            else:
                out.append(rng.choice([1, 2, 3]))
        return tuple(out)

    r = rng.random()
    if r < 0.2:
        items = [("ph", rng.choice(names))]
    elif r < 0.3:
        items = [("unp", rng.choice(names))]
    elif r < 0.62:
        parts = [rng.choice(names)]
        for _ in range(rng.choice([1, 1, 2, 3, 3, 5])):
            parts.insert(rng.randint(0, len(parts)),
                         rng.choice(names) if rng.random() < 0.5 else dims_tuple())
        items = [("cat", parts)]
        if rng.random() < 0.3:
            items.insert(rng.randint(0, 1), ("dim", rng.choice([1, 2, -1, ...])))
    else:
        for _ in range(rng.choice([1, 2, 2, 3])):
            items.append((rng.choice(["ph", "unp", "unp"]), rng.choice(names)))
        for _ in range(rng.choice([1, 1, 2])):
            d = dims_tuple()[0] if rng.random() < 0.75 else ...
            items.insert(rng.randint(0, len(items)), ("dim", d))
    if sum(1 for k, d in items if k == "dim" and d is ...) > 1:
        items = [x for x in items if x != ("dim", ...)]
    return ShLeaf(env.fw.ann_dtype(rng) if rng.random() < 0.25 else None, items)


def random_shape(rng):
    n = rng.choice([0, 1, 1, 2, 2, 3])
    return tuple(rng.choice([1, 1, 2, 2, 3, 4, 5]) for _ in range(n))


def run(ctx):
    import asta
    from asta import typechecked, shapes

    (fw,) = frameworks(ctx)
    env = make_env(ctx, fw)
    for rng in ctx.cases(scale(ctx, 120 if has_tf(ctx) else 800), "function"):
        k = rng.choice([1, 1, 2, 2, 3])
        names = places.fresh_names(ctx, rng, k, BASES)
        syms = exprs.pick_names(rng, rng.choice([1, 2])) if rng.random() < 0.4 else []
        syms = [s for s in syms if s not in places.SPECIAL]
        svals = {s: rng.choice([1, 2, 3, 4]) for s in syms}
        current = {}
        fixed = {n: random_shape(rng) for n in names}

        def node(r):
            if r.random() < 0.12:
                return model.leaf(r, env, names=syms, values=svals)
            return wrap(r, lambda: shleaf(r, env, names, syms))

        f = calls.random_function(rng, env, node, ret=0.5, defaults=0)
        if not f.params:
            continue
        built = core.run(f.namespace, env, rng)
        if not ctx.check(built.ok, "an annotation with placeholders was refused", function=f, got=built,
                         at=core.where(built.exc) if built.exc else ""):
            continue
        made = core.run(f.make, env, rng, typechecked)
        if not ctx.check(made.ok, "decorating failed", function=f, got=made):
            continue
        for step in range(5):
            if step or rng.random() < 0.8:
                for n in names:
                    if n not in current and rng.random() < 0.85 or rng.random() < 0.4:
                        v = fixed[n] if rng.random() < 0.4 else random_shape(rng)
                        if rng.random() < 0.05:
                            v = rng.choice([(-1, 2), (0,), (300, 1), (2, 0)])
                        current[n] = v
                        ctx.event("set-by-" + places.set_value(rng, "shapes", shapes, n, v))
                        read = places.in_thread(getattr) if rng.random() < 0.3 else getattr
                        got = core.run(read, shapes, n)
                        ctx.check(got.ok and isinstance(got.value, tuple) and got.value == v,
                                  "reading a set shape", name=n, stored=v, got=got)
            effective = dict(current)

            def resolve(nd, vals=effective):
                return places.map_leaves(
                    nd, lambda lf: lf.resolve(vals) if isinstance(lf, ShLeaf) else lf)

            # Build values for the shapes in effect (defaults for those without value).
            saved = [p.node for p in f.params], f.ret_node
            vals = {**fixed, **current}
            if rng.random() < 0.15:
                vals = {n: random_shape(rng) for n in names}
            for p in f.params:
                p.node = resolve(p.node, vals)
            f.ret_node = resolve(f.ret_node, vals) if f.ret_node else None
            args, kwargs = calls.arguments(f, rng, env, svals, bad=0.3, misfit=0.02)
            ret = calls.result(f, rng, env, svals, bad=0.25)
            for p, n in zip(f.params, saved[0]):
                p.node = n
            f.ret_node = saved[1]
            leaves = [resolve(lf) for p in f.params for lf in p.node.leaves()] + [
                resolve(lf) for lf in (f.ret_node.leaves() if f.ret_node else [])]
            if any(isinstance(lf, model.Leaf) and lf.pat is not None and (
                    not gen.legal(lf.pat) or lf.pat.count(ELL) > 1) for lf in leaves):
                ctx.event("illegal-when-written")
                continue
            want = places.Resolved(f, resolve).verdict(args, kwargs, ret, env)
            missing = [n for n in names if n not in current]
            if missing:
                ctx.event("with-unset")
            if want == "ret" and missing and any(
                    isinstance(lf, ShLeaf) and lf.names() & set(missing) for lf in f.ret_node.leaves()):
                f.rec.calls.clear()
                f.rec.ret = ret
                got = core.run(f.decorated, *args, **kwargs)
                ctx.check(isinstance(got.exc, TypeError), "a result was accepted although its "
                          "annotation has a placeholder without a value", function=f, got=got)
                continue
            here = f.decorated
            if rng.random() < 0.15:
                f.decorated = places.in_thread(here)
                ctx.event("called-in-thread")
            calls.judge(ctx, f, args, kwargs, ret, env, want, label=f"shapes={effective}")
            f.decorated = here
            ctx.seen(repr(f), want, tuple(sorted(effective.items())),
                     [model.describe(a) for a in args])
            for lf in leaves:
                pass
        for p in f.params:
            for lf in p.node.leaves():
                if isinstance(lf, ShLeaf):
                    for kind, _ in lf.items:
                        ctx.event("item-" + kind)
        ctx.sample(f"{f!r} {current}")
    for rng in ctx.cases(scale(ctx, 60), "attributes"):
        attributes(ctx, rng, shapes, asta)
    for rng in ctx.cases(scale(ctx, 60), "mixed"):
        mixed(ctx, rng, env, typechecked)


def attributes(ctx, rng, shapes, asta):
    name = f"{rng.choice(BASES)}_attr{ctx.case['index']}"
    first = getattr(shapes, name)
    ctx.check(not isinstance(first, tuple), "an unset shape is a placeholder", got=first)
    last = None
    for _ in range(rng.randint(2, 6)):
        if rng.random() < 0.5:
            bad = rng.choice([2, "ab", None, [1, 2], (1.0, 2), (1, "2"), ("a",), (1, (2,)), (None,),
                              {1, 2}, first, (first,), np.zeros(2), (..., 1)])
            got = core.run(setattr, shapes, name, bad)
            ctx.check(isinstance(got.exc, TypeError), "something other than a tuple of integers was stored",
                      value=repr(bad), got=got)
            ctx.event("refused-values")
        else:
            last = rng.choice([(), (1,), (2, 3), (10**6, 0), (1,) * 8, random_shape(rng)])
            got = core.run(setattr, shapes, name, last)
            ctx.check(got.ok, "storing a tuple of integers failed", got=got)
        now = getattr(shapes, name)
        if last is None:
            ctx.check(not isinstance(now, tuple), "an unset shape has a value", got=now)
        else:
            ctx.check(isinstance(now, tuple) and now == last, "reading a set shape", stored=last, got=now)
        ctx.check(getattr(asta.shapes, name) is now, "asta.shapes and the import differ")
    ctx.seen("attributes", name, last)


def mixed(ctx, rng, env, typechecked):
    """Together with dims placeholders; one placeholder spelled in several ways at once."""
    from asta import dims, shapes

    T, i = env.fw.T, ctx.case["index"]
    mk = lambda *s: env.fw.make(rng, s, None)
    s, d = f"S_mix{i}", f"d_mix{i}"
    S, D = getattr(shapes, s), getattr(dims, d)
    forms = {
        "alone": (lambda: T[S], lambda sv, dv: sv),
        "right": (lambda: T[S + (D,)], lambda sv, dv: sv + (dv,)),
        "left": (lambda: T[(D, 2) + S], lambda sv, dv: (dv, 2) + sv),
        "twice": (lambda: T[S + S], lambda sv, dv: sv + sv),
        "sandwich": (lambda: T[(1,) + S + (D + 1,)], lambda sv, dv: (1,) + sv + (dv + 1,)),
        "beside": (lambda: T[S, D], lambda sv, dv: sv + (dv,)),
        "before": (lambda: T[D, S], lambda sv, dv: (dv,) + sv),
        "unpacked": (lambda: T[(D, *S, 2 * D)], lambda sv, dv: (dv,) + sv + (2 * dv,)),
        "split": (lambda: T[S + (D,) + S], lambda sv, dv: sv + (dv,) + sv),
        "shared": (lambda: T[(S + (3,)) + (S + (4,))], lambda sv, dv: sv + (3,) + sv + (4,)),
        "base": (lambda: (lambda b: T[b + (D,)])(S + (5,)), lambda sv, dv: sv + (5, dv)),
    }
    picked = rng.sample(sorted(forms), rng.randint(2, 4))
    funcs = []
    for name in picked:
        def g(x):
            return x
        g.__annotations__ = {"x": forms[name][0](), "return": forms[name][0]()}
        funcs.append((name, typechecked(g)))
    for name, g in funcs:
        got = core.run(g, mk(2, 2))
        ctx.check(isinstance(got.exc, TypeError), "a placeholder without a value was accepted", form=name)
    for _ in range(3):
        sv, dv = random_shape(rng), rng.randint(1, 4)
        setattr(shapes, s, sv)
        setattr(dims, d, dv)
        rng.shuffle(funcs)
        for name, g in funcs:
            want = forms[name][1](sv, dv)
            got = core.run(g, mk(*want))
            ctx.check(got.ok, "the shape in effect was refused", form=name, S=sv, D=dv, value=want, got=got)
            other = exprs.perturb(rng, want) if want and rng.random() < 0.6 else want + (dv,)
            if other != want:
                got = core.run(g, mk(*other))
                ctx.check(isinstance(got.exc, TypeError), "another shape was accepted", form=name, S=sv,
                          D=dv, value=other)
            ctx.event("mixed-" + name)
            ctx.seen("mixed", name, sv, dv)
