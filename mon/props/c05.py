"""C05: malformed annotations are refused when written."""
import decimal
import fractions

import numpy as np

from props.common import *
from props import annots


def bad_dims(ctx):
    bad = [True, False, np.bool_(True), 2.5, 2.0, "a", "3", b"3", [1, 2], [3], {1, 2}, np.int64(3), np.int32(1), np.float64(2),
           fractions.Fraction(2), decimal.Decimal(2), 1j, object(), np.zeros(2), np.zeros((2, 2)),
           slice(1, 2), range(3), frozenset([1]), lambda: 1]
    return bad


def run(ctx):
    (fw,) = frameworks(ctx)
    T = fw.T
    import asta
    from asta import symbols, dims, shapes

    tf = has_tf(ctx)
    dtypes = annots.dtype_items(ctx)

    def lookup(name):
        return getattr(symbols, name)

    bad = bad_dims(ctx)
    other = tf or has_torch(ctx)
    for rng in ctx.cases(scale(ctx, 1200 if tf else 5000), "malformed"):
        pat = annots.random_pattern(rng) or [3]
        items = list(gen.dims_of(pat, lookup))
        dtype = rng.choice(dtypes) if rng.random() < 0.5 else None
        attrs = {"ndim": 2} if rng.random() < 0.15 else None
        base = T
        if rng.random() < 0.3:
            pre = core.run(lambda: annots.chain(rng, T, annots.random_spec(rng, dtypes), lookup)[0])
            if not ctx.check(pre.ok, "a well-formed subscript was refused", outcome=pre):
                continue
            base = pre.value
        placeholder = [dims.D1, dims.D2 + 1, shapes.S1, shapes.S1 + (2,), (2,) + shapes.S2]
        if rng.random() < 0.3:
            items.insert(rng.randint(0, len(items)), rng.choice(placeholder))
        kind = rng.choice(["ok", "dots", "scalar", "bad", "bad", "bad", "dtype" if other else "bad"])
        nested = rng.random() < 0.4
        what = None
        if kind == "dots":
            i = rng.randint(0, len(items))
            items[i:i] = [..., ...]
            what = "adjacent '...'"
        elif kind == "scalar":
            items.insert(rng.randint(0, len(items)), rng.choice([(), asta.Scalar]))
            nested = False
            what = "() or Scalar next to dimensions"
        elif kind == "bad":
            b = rng.choice(bad)
            items.insert(rng.randint(0, len(items)), b)
            what = f"dimension {core.short(b, 40)} of type {type(b).__name__}"
            if rng.random() < 0.15 and dtype is None:
                items = [b]
            elif rng.random() < 0.15:  # in one of several parts
                items = [tuple(items)]
                items.insert(rng.randint(0, 1), rng.choice([(2,), 3, ..., -1, (1, 2), symbols.X]))
        elif kind == "dtype":
            dtype = rng.choice([np.dtype("f4"), np.float32, np.int64, list, dict, object, int.__class__]
                               + ([] if tf else [complex, str, np.dtype("i4")]))
            what = f"dtype {dtype}"
        full = ([dtype] if dtype is not None else []) + ([tuple(items)] if nested else items) + (
            [attrs] if attrs is not None else [])
        if len(full) == 1 and rng.random() < 0.6:
            full = full[0]
        else:
            full = tuple(full)
        got = core.run(lambda: base[full])
        if what is None:
            ctx.check(got.ok, "a well-formed subscript was refused", subscript=full, got=got)
            ctx.event("accepted")
        else:
            ctx.check(got.exc is not None and isinstance(got.exc, TypeError),
                      f"{what} was not refused with TypeError", subscript=full, got=got)
            ctx.event("refused-" + kind)
        ctx.seen(fw.name, kind, core.short(full, 200))
        ctx.sample(f"{fw.name}{core.short(full, 150)} -> {what or 'well-formed'}")
    for rng in ctx.cases(scale(ctx, 60), "instantiate"):
        A = annots.chain(rng, T, annots.random_spec(rng, dtypes), lookup)[0]
        args = rng.choice([(), (3,), ((2, 3),), ([1, 2],)])
        kw = rng.choice([{}, {}, {"shape": (2,)}])
        got = core.run(lambda: A(*args, **kw))
        ctx.check(got.exc is not None and isinstance(got.exc, TypeError),
                  "an annotation class was instantiated", ann=A, got=got)
        ctx.event("instantiations")
