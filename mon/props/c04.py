"""C04: equivalent subscripts give interchangeable annotations."""
from props.common import *
from props import annots, exprs


def run(ctx):
    (fw,) = frameworks(ctx)
    T = fw.T
    import asta
    from asta import symbols

    tf = has_tf(ctx)
    dtypes = annots.dtype_items(ctx)
    dkey = annots.dtype_key(ctx)

    def lookup(name):
        return getattr(symbols, name)

    for rng in ctx.cases(scale(ctx, 500 if tf else 1600), "spelling"):
        spec = annots.random_spec(rng, dtypes)
        noise = annots.random_spec(rng, dtypes)
        anns = []
        for _ in range(4):
            got = core.run(annots.chain, rng, T, spec, lookup, asta.Scalar,
                           noise if rng.random() < 0.5 else None)
            if not ctx.check(got.ok, "a well-formed subscript was refused", spec=spec, outcome=got):
                break
            anns.append(got.value)
        if len(anns) < 4:
            continue
        if tf and spec.pat and all(isinstance(p, int) and p >= 0 for p in spec.pat):
            import tensorflow as tfm

            ts = tfm.TensorShape(spec.pat)
            base = T if spec.attrs is None else T[dict(spec.attrs)]
            got = core.run(lambda: base[ts] if spec.dtype is None else base[spec.dtype, ts])
            if ctx.check(got.ok, "a TensorShape was refused", spec=spec, outcome=got):
                anns.append((got.value, "TensorShape"))
                ctx.event("tensorshape")
        if has_torch(ctx) and spec.pat and all(isinstance(p, int) and p >= 0 for p in spec.pat):
            import torch

            ts = torch.Size(spec.pat)
            base = T if spec.attrs is None else T[dict(spec.attrs)]
            got = core.run(lambda: base[ts] if spec.dtype is None else base[spec.dtype, ts])
            if ctx.check(got.ok, "a torch.Size was refused", spec=spec, outcome=got):
                anns.append((got.value, "Size"))
                ctx.event("size")
        ref_ann, ref_desc = anns[0]
        values = some_values(rng, ctx, fw, spec, dtypes)
        for A, desc in anns[1:]:
            compare(ctx, ref_ann, A, f"{ref_desc} / {desc}", values)
        # The answers themselves, from the reference model, at least for the shape.
        for v in values:
            shape_ok = ref.match_expr(spec.pat, tuple(v.shape))
            if shape_ok is False:
                for A, desc in anns:
                    got = probe(v, A)
                    ctx.check(got.ok and got.value is False, "a mismatching shape matched",
                              spelled=desc, shape=tuple(v.shape), got=got)
                ctx.event("shape-mismatch")
            elif shape_ok and not spec.attrs and spec.dtype is None and not (
                    ref.has_expr(spec.pat) and spec.pat.count(ELL) > 1):  # a known finding of C03
                for A, desc in anns:
                    got = probe(v, A)
                    ctx.check(got.ok and got.value is True, "a matching shape did not match",
                              spelled=desc, shape=tuple(v.shape), got=got)
                ctx.event("shape-match")
        ctx.seen(repr(spec), tuple(d for _, d in anns))
        ctx.sample(f"{fw.name} {spec}: " + " == ".join(d for _, d in anns))

        # Adding parts later keeps the rest; replacing one part replaces only that.
        other = annots.random_spec(rng, dtypes)
        merged = annots.Spec(other.dtype if other.dtype is not None else spec.dtype,
                             other.pat if other.pat is not None else spec.pat,
                             other.attrs if other.attrs is not None else spec.attrs)
        got = core.run(lambda: annots.chain(rng, ref_ann, other, lookup)[0])
        want = core.run(lambda: annots.chain(rng, T, merged, lookup)[0])
        if ctx.check(got.ok and want.ok, "subscripting an annotation again failed", first=spec,
                     then=other, got=got, want=want):
            compare(ctx, got.value, want.value, f"{spec} then {other}", values
                    + some_values(rng, ctx, fw, merged, dtypes))
            ctx.event("alias-extended")


def compare(ctx, a, b, desc, values):
    eq = core.run(lambda: (a == b, b == a, a != b))
    ctx.check(eq.ok and eq.value == (True, True, False), "equivalent annotations differ",
              spelled=desc, eq=eq, a=a, b=b)
    h = core.run(lambda: hash(a) == hash(b))
    ctx.check(h.ok and h.value, "equivalent annotations hash differently", spelled=desc, h=h)
    r = core.run(lambda: (repr(a), repr(b)))
    ctx.check(r.ok and r.value[0] == r.value[1], "equivalent annotations print differently",
              spelled=desc, reprs=r)
    for v in values:
        x, y = probe(v, a), probe(v, b)
        ctx.check(x.ok and y.ok and x.value is y.value, "equivalent annotations answer differently",
                  spelled=desc, shape=tuple(v.shape), dtype=v.dtype, x=x, y=y)
        ctx.event("match" if x.ok and x.value else "mismatch")


def some_values(rng, ctx, fw, spec, dtypes):
    """Values that satisfy the spec, or nearly."""
    import numpy as np

    shapes = []
    for _ in range(3):
        if spec.pat is None:
            shapes.append(gen.shape(rng, maxrank=4, big=0))
            continue
        env = {n: rng.choice([1, 2, 3, 5]) for n in exprs.NAMES}
        s = []
        for p in spec.pat:
            if p is ELL:
                s += [rng.randint(1, 4) for _ in range(rng.choice([0, 1, 2]))]
            elif isinstance(p, E):
                s.append(max(0, p.ev(env)))
            else:
                s.append(rng.randint(1, 4) if p == -1 else p)
        shapes.append(tuple(s) if rng.random() < 0.7 else gen.mutate_shape(rng, tuple(s)))
    out = []
    for s in shapes:
        s = fit(ctx, s)
        item = spec.dtype if spec.dtype is not None and rng.random() < 0.8 else rng.choice(dtypes)
        out.append(fw.make(rng, s, value_dtype(ctx, item)))
    return out


def value_dtype(ctx, item):
    import datetime
    import numpy as np

    if has_tf(ctx):
        import tensorflow as tf

        return {int: tf.int32, float: tf.float32, complex: tf.complex128, bool: tf.bool,
                bytes: tf.string, str: tf.string}.get(item, item)
    if has_torch(ctx):
        import torch

        return {int: torch.int32, float: torch.float32, bool: torch.bool, bytes: torch.uint8}.get(item, item)
    if item is datetime.datetime:
        return np.dtype("M8[s]")
    if item is datetime.timedelta:
        return np.dtype("m8[s]")
    if item is str:
        return np.dtype("U4")
    if item is bytes:
        return np.dtype("S4")
    return np.dtype(item)
