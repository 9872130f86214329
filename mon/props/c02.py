"""C02: dtype annotations match exactly the dtypes they name."""
import datetime

import numpy as np

from props.common import *

NP_SIZED = ["?", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f2", "f4", "f8", "f16", "c8",
            "c16", "c32", "q", "Q", "l", "b"]
SWAPPED = [">i2", ">i4", ">i8", ">u4", ">f4", ">f8", ">c16"]
WIDE = ["S1", "S3", "S7", "U1", "U2", "U10", "M8[s]", "M8[D]", "M8[ns]", "m8[s]", "m8[h]", "M8",
        "m8", ">U2", ">M8[s]"]
TYPES = {int: "int64", float: "float64", complex: "complex128", bool: "bool"}
KINDS = {str: "U", bytes: "S", object: "O", datetime.datetime: "M", datetime.timedelta: "m"}


def numpy_specs():
    """(subscript, predicate on the value's dtype, name)"""
    specs = []
    for t, name in TYPES.items():
        specs.append((t, lambda d, w=np.dtype(name): d == w, t.__name__))
    for t, kind in KINDS.items():
        specs.append((t, lambda d, k=kind: d.kind == k, t.__name__))
    for code in NP_SIZED + SWAPPED + [c for c in WIDE if c not in ("M8", "m8")]:
        d = np.dtype(code)
        specs.append((d, lambda x, w=d: x == w, f"dtype({code})"))
    for t in (np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64,
              np.float16, np.float32, np.float64, np.complex64, np.complex128, np.bool_,
              np.longdouble, np.intp):
        specs.append((t, lambda x, w=np.dtype(t): x == w, f"np.{t.__name__}"))
    return specs


def numpy_values():
    return [np.dtype(c) for c in NP_SIZED + SWAPPED + WIDE + ["O", "V3"]]


def tf_specs():
    import tensorflow as tf

    specs = []
    for t, d in {int: tf.int32, float: tf.float32, complex: tf.complex128, bool: tf.bool,
                 bytes: tf.string, str: tf.string}.items():
        specs.append((t, lambda x, w=d: x == w, t.__name__))
    for d in tf_dtypes() + [tf.qint8, tf.variant, tf.resource]:
        specs.append((d, lambda x, w=d: x == w, d.name))
    return specs


def tf_dtypes():
    import tensorflow as tf

    return [tf.bfloat16, tf.bool, tf.complex128, tf.complex64, tf.double, tf.float16, tf.float32,
            tf.float64, tf.half, tf.int16, tf.int32, tf.int64, tf.int8, tf.string, tf.uint16,
            tf.uint32, tf.uint64, tf.uint8]


def torch_specs():
    import torch

    specs = []
    for t, d in {int: torch.int32, float: torch.float32, bool: torch.bool, bytes: torch.uint8}.items():
        specs.append((t, lambda x, w=d: x is w, t.__name__))
    for d in torch_dtypes():
        specs.append((d, lambda x, w=d: x is w, str(d)))
    return specs


def torch_dtypes():
    import torch

    return [getattr(torch, n) for n in ("float32", "float64", "float16", "bfloat16", "uint8", "int8", "int16",
                                        "int32", "int64", "complex64", "complex128", "bool", "double", "half",
                                        "long")]


def run(ctx):
    (fw,) = frameworks(ctx)
    T = fw.T
    specs = tf_specs() if has_tf(ctx) else torch_specs() if has_torch(ctx) else numpy_specs()
    dtypes = tf_dtypes() if has_tf(ctx) else torch_dtypes() if has_torch(ctx) else numpy_values()

    # The whole annotation-by-value matrix, in every spelling, with random shapes.
    for rng in ctx.cases(len(specs) * scale(ctx, 2), "matrix"):
        item, pred, name = specs[ctx.case["index"] % len(specs)]
        shp = gen.shape(rng, maxrank=4, big=0)
        pat = None if rng.random() < 0.4 else gen.pattern_from(rng, shp)
        if pat is not None and rng.random() < 0.2:
            pat = gen.mutate_pattern(rng, pat)
        how = rng.randrange(3)
        if pat is None or how == 0:
            ann = core.run(gen.subscript, rng, T, pat, item)
        elif how == 1:
            ann = core.run(lambda: gen.subscript(rng, T, None, item)[tuple(pat) or ()])
        else:
            ann = core.run(lambda: gen.subscript(rng, T, pat)[item])
        if not ctx.check(ann.ok, "a dtype annotation was refused", dtype=name,
                         pattern=ref.render(pat), outcome=ann):
            continue
        for d in dtypes:
            s = shp if rng.random() < 0.8 else gen.mutate_shape(rng, shp)
            value = fw.make(rng, s, d)
            actual = value.dtype
            want = bool(pred(actual)) and ref.match(pat, s)
            got = probe(value, ann.value)
            ctx.check(got.ok and got.value is want,
                      f"isinstance(value of dtype {actual!r} shape {s}, "
                      f"{fw.name}[{name},{ref.render(pat)}]) should be {want}", got=got)
            ctx.event("match" if want else "mismatch")
            ctx.seen(fw.name, name, str(actual), ref.render(pat), s)
        # Without a dtype every dtype matches.
        bare = T if pat is None else T[tuple(pat)] if pat else T[()]
        d = rng.choice(dtypes)
        got = probe(fw.make(rng, shp, d), bare)
        ctx.check(got.ok and got.value is ref.match(pat, shp), "an annotation without a dtype",
                  dtype=d, pattern=ref.render(pat), shape=shp, got=got)
        ctx.event("no-dtype")
        ctx.sample(f"{fw.name}[{name}, {ref.render(pat)}] against {len(dtypes)} dtypes")
