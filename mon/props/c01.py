"""C01: shape patterns match exactly the shapes they describe."""
import decimal

import numpy as np

from props.common import *


def others(ctx):
    """Values that are not arrays of the framework."""
    import datetime

    vals = [3, 3.0, "abc", None, [1, 2, 3], (2, 3), {}, np.float64(1), np.int32(3), object(),
            decimal.Decimal(3), datetime.datetime.now(), np.ndarray, (np.zeros(3),),
            memoryview(b"abc"), b"abc", np.dtype("f8"), np.generic, type, Ellipsis, -1]

    class Fake:
        shape = (2, 3)
        dtype = np.dtype("float64")
        ndim = 2

    vals += [Fake(), Fake]
    if has_tf(ctx):
        import tensorflow as tf

        vals += [np.zeros((2, 3)), tf.TensorShape([2, 3]), tf.Variable(np.zeros((2, 3)))]
    return vals


def run(ctx):
    (fw,) = frameworks(ctx)
    T = fw.T
    tf = has_tf(ctx)
    n = scale(ctx, 1600 if tf else 6000)
    import asta

    for rng in ctx.cases(n, "shape"):
        shp = fit(ctx, gen.shape(rng))
        pat = gen.pattern_from(rng, shp)
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            pat = gen.mutate_pattern(rng, pat)
        if rng.random() < 0.03:
            pat = None
        elif rng.random() < 0.03:
            pat = []
        cands = {shp}
        for _ in range(rng.choice([1, 2, 3])):
            s = shp
            for _ in range(rng.choice([1, 1, 2])):
                s = gen.mutate_shape(rng, s)
            cands.add(fit(ctx, s))
        # Shapes generated from the pattern itself, so that mutated patterns match, too.
        for _ in range(2):
            if pat:
                s = []
                for p in pat:
                    if p is ELL:
                        s += [gen.size(rng, zero=0.05) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
                    else:
                        s.append(gen.size(rng, zero=0.05) if p == -1 else p)
                cands.add(fit(ctx, s))
        cands = [c for c in cands if len(c) <= 25 and all(d >= 0 for d in c)]
        ann = core.run(gen.subscript, rng, T, pat)
        if not ctx.check(ann.ok, "a well-formed shape was refused", pattern=ref.render(pat),
                         outcome=ann):
            continue
        A = ann.value
        for s in sorted(cands, key=str):
            value = fw.make(rng, s)
            want = ref.match(pat, s)
            got = probe(value, A)
            ctx.check(got.ok and got.value is want,
                      f"isinstance({fw.name} of shape {s}, {fw.name}{ref.render(pat)}) should be {want}",
                      got=got, value_type=type(value))
            ctx.event("match" if want else "mismatch")
            if pat and ELL in pat:
                ctx.event("ellipsis-pattern")
            if pat and pat.count(ELL) > 1:
                ctx.event("multi-ellipsis-pattern")
            if 0 in s:
                ctx.event("zero-size")
            if tf:
                ctx.event("tf-checks")
            if pat:
                ctx.seen(fw.name, ref.render(pat), s)
        ctx.sample(f"{fw.name}{ref.render(pat)} vs {sorted(cands, key=str)}")
        if rng.random() < 0.1:
            v = rng.choice(others(ctx))
            got = probe(v, A)
            ctx.check(got.ok and got.value is False, "a value of another type matched",
                      pattern=ref.render(pat), value=v, got=got)
            ctx.event("non-arrays")
        if rng.random() < 0.1:
            for spelled in (T[()], T[asta.Scalar]):
                s = rng.choice(sorted(cands, key=str) + [()])
                got = probe(fw.make(rng, s), spelled)
                ctx.check(got.ok and got.value is (s == ()), "scalar annotation", shape=s, got=got)

    # Exhaustive over small patterns and shapes.
    if not tf or ctx.tier == "thorough":
        exhaustive(ctx, fw)


def exhaustive(ctx, fw):
    import itertools

    maxlen = 4 if ctx.tier == "thorough" else 3
    pats = []
    for k in range(maxlen + 1):
        for p in itertools.product([0, 1, 2, -1, ELL], repeat=k):
            if gen.legal(p):
                pats.append(list(p))
    shapes = [s for k in range(maxlen + 1) for s in itertools.product([0, 1, 2], repeat=k)]
    import random

    values = [(s, fw.make(random.Random(0), s)) for s in shapes]
    for idx, _rng in zip(range(10**9), ctx.cases(len(pats), "small")):
        pat = pats[ctx.case["index"]]
        A = fw.T[tuple(pat)] if pat else fw.T[()]
        for s, v in values:
            want = ref.match(pat, s)
            got = probe(v, A)
            ctx.check(got.ok and got.value is want,
                      f"isinstance of shape {s}, {fw.name}{ref.render(pat)} should be {want}", got=got)
        ctx.event("exhaustive-patterns")
        ctx.event("exhaustive-pairs", len(values))
