"""Canonical annotations (dtype, shape, attributes) and their spellings."""
import datetime

import numpy as np

import core
import gen
import ref
from ref import ELL, E, sym, num
from props import exprs

NP_DTYPES = [int, float, complex, bool, str, bytes, object, datetime.datetime, datetime.timedelta,
             np.int8, np.int32, np.uint8, np.float32, np.float16, np.complex64, np.dtype("f4"),
             np.dtype(">i4"), np.dtype("S3"), np.dtype("U5"), np.dtype("M8[s]"), np.dtype("i2")]


def np_key(item):
    """What the dtype means: equal keys must give equal annotations."""
    kinds = {str: "U", bytes: "S", object: "O", datetime.datetime: "M", datetime.timedelta: "m"}
    if item is None:
        return None
    if isinstance(item, type) and item in kinds:
        return ("kind", kinds[item])
    return ("dtype", np.dtype(item).str)


def tf_dtype_items():
    import tensorflow as tf

    return [int, float, complex, bool, bytes, str, tf.int8, tf.int32, tf.int64, tf.float16,
            tf.float32, tf.float64, tf.complex64, tf.uint8, tf.string, tf.bool]


def tf_key(item):
    import tensorflow as tf

    if item is None:
        return None
    return {int: tf.int32, float: tf.float32, complex: tf.complex128, bool: tf.bool,
            bytes: tf.string, str: tf.string}.get(item, item).name


def torch_dtype_items():
    import torch

    return [int, float, bool, bytes] + [getattr(torch, n) for n in TORCH_DTYPES] + [torch.double, torch.half,
                                                                                  torch.long]


TORCH_DTYPES = ["float32", "float64", "float16", "bfloat16", "uint8", "int8", "int16", "int32", "int64",
                "complex64", "complex128", "bool"]


def torch_key(item):
    import torch

    if item is None:
        return None
    return str({int: torch.int32, float: torch.float32, bool: torch.bool, bytes: torch.uint8}.get(item, item))


def dtype_items(ctx):
    """What can be written as the dtype in this world."""
    fws = ctx.world.get("frameworks", "")
    return tf_dtype_items() if "tf" in fws else torch_dtype_items() if "torch" in fws else NP_DTYPES


def dtype_key(ctx):
    fws = ctx.world.get("frameworks", "")
    return tf_key if "tf" in fws else torch_key if "torch" in fws else np_key


def random_pattern(rng, symbols_ok=True):
    r = rng.random()
    if r < 0.12:
        return []
    if r < 0.4 and symbols_ok:
        names = exprs.pick_names(rng, rng.choice([1, 2]))
        pat, _, _ = exprs.pattern(rng, names, max_ell=2)
        if gen.legal(pat) and pat:
            return pat
    shp = gen.shape(rng, maxrank=5)
    pat = gen.pattern_from(rng, shp)
    return pat


ATTRS = [{"ndim": 1}, {"ndim": 2}, {"size": 6}, {"ndim": 2, "size": 6}, {"ndim": 2, "size": 6, "tag": "a"}, {"itemsize": 8}, {"tag": "a"},
         {"nbytes": 48}, {}]


class Spec:
    """dtype item (or None), pattern (or None), attributes (or None)."""

    def __init__(self, dtype, pat, attrs):
        self.dtype, self.pat, self.attrs = dtype, pat, attrs

    def key(self, dkey, lookup=None):
        return (dkey(self.dtype), shape_key(self.pat, lookup), attrs_key(self.attrs))

    def __repr__(self):
        d = getattr(self.dtype, "__name__", str(self.dtype))
        return f"[{d}|{ref.render(self.pat)}|{self.attrs}]"


def shape_key(pat, lookup=None):
    """Expressions are compared as polynomials, through values at a few points."""
    if pat is None:
        return None
    import random
    from fractions import Fraction

    out = []
    for p in pat:
        if isinstance(p, E):
            r = random.Random(7)
            points = [{n: Fraction(r.randint(-10**6, 10**6)) for n in exprs.NAMES} for _ in range(4)]
            out.append(("E",) + tuple(p.ev(pt) for pt in points))
        elif p is ELL:
            out.append("...")
        else:
            out.append(p)
    return tuple(out)


def attrs_key(attrs):
    def value(v):
        if isinstance(v, np.ndarray):
            return ("array", v.shape, tuple(v.ravel().tolist()))
        if isinstance(v, list):
            return ("list", tuple(v))
        return v.item() if isinstance(v, np.generic) else v

    return tuple((k, value((attrs or {})[k])) for k in sorted(attrs or {}))


def shuffled(rng, attrs):
    items = list(attrs.items())
    rng.shuffle(items)
    return dict(items)


def random_spec(rng, dtypes, symbols_ok=True):
    return Spec(rng.choice(dtypes) if rng.random() < 0.6 else None,
                random_pattern(rng, symbols_ok) if rng.random() < 0.8 else None,
                shuffled(rng, rng.choice(ATTRS)) if rng.random() < 0.25 else None)


def chain(rng, T, spec, lookup, scalar=None, noise=None):
    """Spell a spec as a random chain of subscripts of T; returns (annotation, description)."""
    parts = []
    if spec.dtype is not None:
        parts.append("d")
    if spec.pat is not None:
        parts.append("s")
    if spec.attrs is not None:
        parts.append("a")
    rng.shuffle(parts)
    steps = []
    # Overwritten parts first: only the last value of each must count.
    for part in list(parts):
        if noise and rng.random() < 0.25:
            steps.append({part: noise})
    while parts:
        k = rng.randint(1, len(parts))
        group, parts = parts[:k], parts[k:]
        steps.append({p: spec for p in group})
    desc = []
    A = T
    for step in steps:
        d = step["d"].dtype if "d" in step else None
        p = step["s"].pat if "s" in step else None
        a = step["a"].attrs if "a" in step else None
        if (d, p, a) == (None, None, None):
            continue
        items = []
        if d is not None:
            items.append(d)
        if p is not None:
            dims = gen.dims_of(p, lookup)
            if not dims:
                items.append(scalar if scalar is not None and rng.random() < 0.4 else ())
            elif rng.random() < 0.4:
                items.append(dims)
            else:
                items.extend(dims)
        if a is not None:
            items.append(dict(a))
        sub = items[0] if len(items) == 1 and rng.random() < 0.6 else tuple(items)
        if len(items) == 1 and isinstance(items[0], tuple) and not items[0]:
            sub = ()
        desc.append(sub)
        A = A[sub]
    return A, "".join(f"[{x!r}]" for x in desc)
