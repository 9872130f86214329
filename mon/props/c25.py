"""C25: failure messages identify the mismatch, and annotations print what they mean."""
import re

from props.common import *
from props import annots, calls, exprs, model
from props.c18 import dtype_name, expectations, fixed, indexed, label_of


def text_of(p, lookup):
    """How a dimension is written."""
    if p is ELL:
        return "..."
    return str(p.build(lookup)).replace(" ", "") if isinstance(p, E) else str(p)


def shape_text(pat, lookup):
    """The printed form of a shape, spaces removed: '(1,2)', '(1,)', '()'."""
    return shape_of([text_of(p, lookup) for p in pat])


def shape_of(items):
    return "(" + ",".join(map(str, items)) + (",)" if len(items) == 1 else ")")


def expected_dtype_name(fw, item):
    if fw.name == "Array":
        return np.dtype(item).name
    if fw.name == "TFTensor":
        return {int: "int32", float: "float32", complex: "complex128", bool: "bool", bytes: "string",
                str: "string"}.get(item) or item.name
    return {int: "int32", float: "float32", bool: "bool", bytes: "uint8"}.get(item) or str(item).split(".")[1]


def squash(text):
    return core.plain(text).replace(" ", "")


def mentions(text, label):
    """The label occurs in the text on its own, not as a part of a longer one."""
    return re.search(r"(?<![\w.\]>])" + re.escape(label) + r"(?![\w.\[<])", text) is not None


def swap(v, old, new):
    """The same value with one array replaced."""
    if v is old:
        return new
    if isinstance(v, tuple) and hasattr(v, "_fields"):
        return type(v)(*[swap(x, old, new) for x in v])
    if isinstance(v, model.SEQS + (set, frozenset)):
        return type(v)([swap(x, old, new) for x in v])
    if isinstance(v, dict):
        return type(v)((swap(k, old, new), swap(x, old, new)) for k, x in v.items())
    return v


def misfit(rng, leaf, v, env, lookup_env):
    """Another array (or, rarely, anything) that does not match the leaf by itself."""
    for _ in range(30):
        new = model.mutate(rng, v, env)
        if not leaf.alts(new, lookup_env):
            if not env.fw.is_value(new) and isinstance(v, model.HArr):
                continue
            return new
    return None


def one_message(ctx, fw, label, leaf, bad, msg, lookup, info):
    """Check the text of one failure."""
    plain = core.plain(msg)
    ctx.check(mentions(plain, label), "the message does not name the place of the mismatch", label=label, **info)
    expected, _, actual = plain.partition("Actual")
    ctx.check("Expected" in expected and bool(actual), "the message does not tell expected from actual", **info)
    expected = squash(expected.partition("Expected")[2])
    actual = squash(actual)
    if leaf.dtype is not None:
        ctx.check(expected_dtype_name(fw, leaf.dtype) in expected, "the expected dtype is not in the message",
                  leaf=leaf, **info)
        ctx.event("dtype")
    if leaf.pat is not None:
        ctx.check(shape_text(leaf.pat, lookup) in expected, "the expected shape is not in the message",
                  leaf=leaf, want=shape_text(leaf.pat, lookup), **info)
    if leaf.attrs:
        ctx.check(all(k in expected for k in leaf.attrs), "the required attributes are not in the message",
                  leaf=leaf, **info)
        ctx.event("attributes")
    if fw.is_value(bad) or isinstance(bad, np.ndarray):
        want = shape_of([int(x) for x in bad.shape])
        ctx.check(want in actual, "the actual shape is not in the message", actual_shape=want, **info)
        name = str(dtype_name(bad)).split(".")[-1]
        ctx.check(name in actual, "the actual dtype is not in the message", dtype=name, **info)
        ctx.event("array-actual")
    else:
        ctx.check(type(bad).__name__ in actual, "the actual type is not in the message", **info)
        ctx.event("other-actual")


def run(ctx):
    from asta import dims, shapes, typechecked

    (fw,) = frameworks(ctx)
    env = make_env(ctx, fw)
    base = env.lookup
    few = has_tf(ctx)
    for rng in ctx.cases(scale(ctx, 130 if few else 900), "mismatch"):
        style = rng.choice(["literal", "literal", "symbols", "dims"])
        phs = [f"P{ctx.case['index']}_{j}" for j in range(2)] if style == "dims" else []
        names = exprs.pick_names(rng, 2) if style != "literal" else []
        values = {n: rng.choice([1, 2, 3, 4, 5]) for n in names + phs}

        def lookup(name, phs=phs):
            return getattr(dims, name) if name in phs else base(name)

        def resolved(name, phs=phs, values=values):
            return values[name] if name in phs else base(name)

        env.lookup = lookup

        def node(r):
            return model.tree(r, env, depth=r.choice([0, 0, 1, 1, 2, 3]), names=names + phs, values=values,
                              unions=False, expr=0.0 if phs else 0.25, attrs=0.1 if style == "literal" else 0)

        f = calls.random_function(rng, env, node, ret=0.6, defaults=0.1)
        if not core.run(f.namespace, env, rng).ok:
            continue
        calls.with_defaults(f, rng, env, values, bad=0)
        f.make(env, rng, typechecked)
        for n in phs:
            setattr(dims, n, values[n])
        now = model.Env(fw, resolved)
        env.lookup = resolved
        for _ in range(4):
            args, kwargs = calls.arguments(f, rng, env, values, bad=0, misfit=0)
            bound = f.bind(args, kwargs)
            if bound is None:
                continue
            ret = calls.result(f, rng, env, values, bad=0)
            checks = [(label_of(f, lab, i, bound), fixed(n, phs, values), v) for lab, i, n, v in indexed(f, bound)]
            if f.ret_node is not None:
                checks.append(("return", fixed(f.ret_node, phs, values), ret))
            alts = [n.alts(v, now) for _, n, v in checks]
            if not all(alts) or model.hard(alts) or model.joint(alts) is not True:
                continue
            places = [e for lab, n, v in checks for e in expectations(n, v, lab, now) or []]
            if not places:
                continue
            spot = rng.choice(places)
            if "\n" in spot.label:  # the name of a dictionary's key
                continue
            twice = [e for e in places if e.value is spot.value]
            if len(twice) > 1:
                continue
            bad = misfit(rng, spot.leaf, spot.value, env, now)
            if bad is None and fw.is_value(spot.value):
                continue
            change = core.run(lambda: (tuple(swap(a, spot.value, bad) for a in args),
                                       {k: swap(a, spot.value, bad) for k, a in kwargs.items()},
                                       swap(ret, spot.value, bad)))
            if not change.ok:  # not hashable any more
                continue
            nargs, nkwargs, nret = change.value
            if same((args, kwargs, ret), (nargs, nkwargs, nret)):  # in a default value
                continue
            f.rec.calls.clear()
            f.rec.ret, f.rec.exc = nret, None
            got = core.run(f.decorated, *nargs, **nkwargs)
            info = dict(function=f, args=[model.describe(a) for a in nargs],
                        kwargs={k: model.describe(v) for k, v in nkwargs.items()}, ret=model.describe(nret),
                        got=got, spot=spot)
            if ctx.check(isinstance(got.exc, TypeError), "a mismatch was not refused", **info):
                one_message(ctx, fw, spot.label, spot.leaf, bad, str(got.exc), resolved, info)
                ctx.event("place-" + re.sub(r"[\w]+", "", spot.label)[:12])
                ctx.event("result" if spot.label.startswith("return") else "argument")
                ctx.event("style-" + style)
                ctx.seen(repr(f), spot.label, model.describe(bad))
        ctx.sample(f"{style} {f!r}")
    env.lookup = base
    for rng in ctx.cases(scale(ctx, 60 if few else 250), "shapes placeholders"):
        in_shapes(ctx, rng, fw, shapes, dims, typechecked)
    for rng in ctx.cases(scale(ctx, 60 if few else 300), "unions"):
        alternatives(ctx, rng, env, typechecked)
    for rng in ctx.cases(scale(ctx, 60 if few else 300), "equations"):
        contradiction(ctx, rng, env, typechecked)
    for rng in ctx.cases(scale(ctx, 60 if few else 300), "repr"):
        printing(ctx, rng, fw, base)


def same(a, b):
    """swap() rebuilds containers: compare what is inside."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, model.SEQS):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)):
        return {id(x) for x in a} == {id(x) for x in b}
    if isinstance(a, dict):
        return all(same(x, y) and same(a[x], b[y]) for x, y in zip(a, b))
    return False


def in_shapes(ctx, rng, fw, shapes, dims, typechecked):
    """The values of shapes and dims placeholders are in the expected shape."""
    k = f"{ctx.case['index']}_{ctx.shard}"
    s, d = getattr(shapes, "S" + k), getattr(dims, "D" + k)
    shp = tuple(rng.choice([1, 2, 3, 17]) for _ in range(rng.choice([0, 1, 2, 3])))
    n = rng.choice([1, 2, 5, 31])
    item, want = rng.choice([
        (s, lambda: shp), ((2, *s), lambda: (2,) + shp), (s + (4,), lambda: shp + (4,)), ((d, 3), lambda: (n, 3)),
        (d + 1, lambda: (n + 1,)), ((d * 2, -1), lambda: (2 * n, -1)), ((..., d), lambda: ("...", n)),
        ((7,) + s, lambda: (7,) + shp), ((*s, 1), lambda: shp + (1,)), (s + s, lambda: shp + shp),
        ((1, d * d + 3), lambda: (1, n * n + 3))])
    T = core.run(lambda: fw.T[item])
    if not ctx.check(T.ok, "a placeholder was refused", item=item, got=T):
        return

    def g(data: T.value):
        return data

    g = typechecked(g)
    for _ in range(2):
        setattr(shapes, "S" + k, shp)
        setattr(dims, "D" + k, n)
        bad = fw.make(rng, rng.choice([(9, 9, 9, 9, 9, 9, 9), (11, 13)]))
        if "..." in want():
            bad = fw.make(rng, (2, n + 1))
        elif -1 in want():
            bad = fw.make(rng, (2 * n + 1, 3))
        got = core.run(g, bad)
        text = core.plain(got.exc)
        ctx.check(isinstance(got.exc, TypeError)
                  and shape_of(want()) in squash(text.partition("Expected")[2].partition("Actual")[0]),
                  "the values of the placeholders are not in the message", item=item, want=shape_of(want()), got=got)
        ctx.check(mentions(text, "data"), "the message does not name the parameter", got=got)
        ctx.event("placeholders")
        ctx.seen(repr(item), shape_of(want()))
        n += 1  # other values: the next message shows those
        shp = shp[1:] + (6,)


def alternatives(ctx, rng, env, typechecked):
    """No alternative of a union matches: the message names the place of the value."""
    fw = env.fw
    leaves = [model.leaf(rng, env) for _ in range(rng.choice([1, 2, 2, 3]))]
    node = model.UnionNode(leaves, optional=len(leaves) == 1 or rng.random() < 0.3)
    wrong = model.mutate(rng, leaves[0].value(rng, env, {}), env)
    if node.alts(wrong, env):
        return
    label, value = "", wrong
    for _ in range(rng.choice([0, 1, 1, 2])):
        kind = rng.choice(["list", "dict", "tuple", "variadic"])
        good = [node.value(rng, env, {}) for _ in range(rng.choice([0, 1, 2]))]
        if kind == "dict":
            key = rng.choice(["w", "bias", "k 1"])
            node, value = model.DictNode(model.STR, node), {**{f"g{i}": g for i, g in enumerate(good)}, key: value}
            label = f"[{key}]" + label
        else:
            label = f"[{len(good)}]" + label
            items = good + [value]
            if kind == "list":
                node, value = model.ListNode(node), items
            elif kind == "tuple":
                node, value = model.TupleNode([node] * len(items)), tuple(items)
            else:
                node, value = model.TupleVar(node), tuple(items)
    if node.alts(value, env):
        return
    at_result = rng.random() < 0.4
    params = [calls.Param("other", "N", model.AnyNode())] + ([] if at_result else [calls.Param("data", "N", node)])
    f = calls.Function(params, node if at_result else None)
    if not core.run(f.make, env, rng, typechecked).ok:
        return
    f.rec.ret = value
    got = core.run(f.decorated, 1, *([] if at_result else [value]))
    label = ("return" if at_result else "data") + label
    if ctx.check(isinstance(got.exc, TypeError), "a value which matches no alternative was accepted", function=f,
                 value=model.describe(value), got=got):
        text = core.plain(got.exc)
        ctx.check(mentions(text, label), "the message does not name the place of the mismatch", label=label,
                  function=f, got=got)
        ctx.check("one of" not in text or isinstance(wrong, type) or type(wrong).__name__ in text.partition("Actual")[2], "the actual type is not in the message",
                  function=f, got=got, value=model.describe(wrong))
        ctx.event("unions")
        ctx.seen("union", repr(f), model.describe(value))


def contradiction(ctx, rng, env, typechecked):
    """Sizes that contradict each other: the message has the equations."""
    fw = env.fw
    names = rng.sample(["X", "Yy", "batch", "n"], rng.choice([1, 2, 3]))
    size = {n: rng.choice([1, 2, 3, 4, 11]) for n in names}
    other = rng.choice(names)
    wrong = size[other] + rng.choice([1, 2, 5, 40])
    order = [(n, size[n]) for n in names] + [(rng.choice(names), None) for _ in range(rng.choice([0, 1]))]
    order = [(n, size[n]) for n, _ in order] + [(other, wrong)]
    rng.shuffle(order)
    groups, rest = [], list(order)
    while rest:
        k = rng.randint(1, min(3, len(rest)))
        groups.append(rest[:k])
        rest = rest[k:]
    for g in groups:  # within one array, the mismatch is one of the array
        if len({n for n, _ in g}) < len(dict.fromkeys(g)):
            return
    leaves = [model.Leaf(None, [sym(n) for n, _ in g]) for g in groups]
    vals = [fw.make(rng, tuple(s for _, s in g)) for g in groups]
    at_result = rng.random() < 0.4 and len(leaves) > 1
    params = [calls.Param(f"p{i}", "N", leaf) for i, leaf in enumerate(leaves[:-1] if at_result else leaves)]
    f = calls.Function(params, leaves[-1] if at_result else None)
    f.make(env, rng, typechecked)
    f.rec.ret = vals[-1]
    got = core.run(f.decorated, *(vals[:-1] if at_result else vals))
    if not ctx.check(isinstance(got.exc, TypeError), "contradicting sizes were accepted", function=f,
                     args=[model.describe(v) for v in vals], got=got):
        return
    text = core.plain(got.exc)
    for s in (size[other], wrong):
        ctx.check(re.search(rf"(?<!\w){other}(?!\w)", text) and re.search(rf"(?<!\w){s}(?!\w)", text),
                  "the equations of the contradiction are not in the message", symbol=other, size=s, function=f, got=got)
    ctx.event("contradictions")
    ctx.seen("contradiction", repr(f), wrong)


def printing(ctx, rng, fw, lookup):
    """The printed form of annotations."""
    from asta import shapes

    T = fw.T
    if fw.name == "Array":
        dtypes = [d for d in annots.NP_DTYPES]
    else:
        dtypes = [a for a, _ in fw.table]
    shown = {}
    dtype = rng.choice(dtypes) if rng.random() < 0.6 else None
    attrs = rng.choice([None, None, {"ndim": 2}, {"tag": "a b", "size": 6}])
    pats = [annots.random_pattern(rng) if rng.random() < 0.9 else None for _ in range(5)]
    if rng.random() < 0.3:  # many dimensions
        pats = [[rng.choice([-1, 1, 2, 7, 128]) for _ in range(rng.randint(7, 30))]]
        pats += [gen.mutate_pattern(rng, pats[0]) for _ in range(3)]
        pats += [pats[0] + [rng.randint(1, 9)], pats[0][:-1] + [rng.randint(1, 9)]]
        pats = [p for p in pats if gen.legal(p)]
    first = [p for p in pats if p]
    pats += [gen.mutate_pattern(rng, p) for p in first[:4]]
    for pat in pats + [None, [], [ELL], [-1], [1], [1, 1], [-1, -1], [11], [1, -1]]:
        spec = annots.Spec(dtype, pat, attrs)
        got = core.run(lambda: annots.chain(rng, T, spec, lookup)[0])
        if not got.ok:
            ctx.check(False, "a well-formed annotation was refused", spec=spec, got=got)
            continue
        A = got.value
        rep = core.run(repr, A)
        if not ctx.check(rep.ok and isinstance(rep.value, str), "an annotation cannot be printed", spec=spec, got=rep):
            continue
        text = squash(rep.value)
        ctx.check(str(A) == rep.value and f"{A}" == rep.value and rep.value == repr(A), "printing is not stable",
                  spec=spec, got=rep)
        ctx.check(fw.name in text, "the printed form does not name the class", spec=spec, got=rep)
        if dtype is not None:
            name = np.dtype({**annots_generic()}.get(dtype, dtype)).name if fw.name == "Array" \
                else expected_dtype_name(fw, dtype)
            ctx.check(name in text, "the printed form does not show the dtype", spec=spec, got=rep, want=name)
        if pat is not None:
            ctx.check(shape_text(pat, lookup) in text, "the printed form does not show the shape", spec=spec, got=rep,
                      want=shape_text(pat, lookup))
        for k, v in (attrs or {}).items():
            ctx.check(k in text and repr(v).replace(" ", "") in text, "the printed form does not show the attributes",
                      spec=spec, got=rep)
        key = annots.shape_key(pat)
        for k2, (r2, s2) in shown.items():
            if k2 != key:
                ctx.check(r2 != rep.value, "annotations with different shapes are printed alike", one=s2, other=spec,
                          got=rep)
                ctx.event("pairs")
        shown[key] = (rep.value, spec)
        ctx.event("printed")
        ctx.seen("repr", repr(spec))
    a, b = core.run(lambda: repr(T[shapes.Aone])), core.run(lambda: repr(T[shapes.Btwo]))
    ctx.check(a.ok and b.ok and "Aone" in a.value and "Btwo" in b.value and a.value != b.value,
              "unset placeholders are not shown", one=a, other=b)


def annots_generic():
    import datetime

    return {datetime.datetime: np.datetime64, datetime.timedelta: np.timedelta64}
