"""Helpers shared by the property modules (imported inside workers only)."""
import sys

import numpy as np

import core
import gen
import ref
from ref import ELL, E, sym, num

TIERS = {"quick": 1, "thorough": 25}
# Cheap checks run more cases, so that every quick check takes 10 to 30 s on 8 cores.
WEIGHT = {"C01": 8, "C02": 15, "C03": 2, "C04": 2, "C05": 8, "C06": 4, "C07": 10, "C08": 5, "C09": 2, "C10": 8, "C11": 8,
          "C12": 3, "C13": 2, "C14": 3, "C15": 3, "C16": 3, "C17": 2, "C18": 2, "C19": 2, "C20": 2, "C21": 2, "C22": 2, "C23": 2,
          "C24": 2, "C25": 2, "C27": 2}


def scale(ctx, n):
    return n * max(TIERS[ctx.tier], WEIGHT.get(ctx.prop, 1))


def has_tf(ctx):
    return "tf" in ctx.world.get("frameworks", "")


def has_torch(ctx):
    return "torch" in ctx.world.get("frameworks", "")


class Framework:
    """One annotation class with its values and dtypes.

    ``table`` lists (what to write as the dtype, whether it matches a value's dtype) and
    ``vdtypes`` the dtypes of generated values; ``isval`` recognises the values.
    """

    def __init__(self, name, T, make, table, vdtypes, isval, default):
        self.name, self.T, self._make, self.table = name, T, make, table
        self.vdtypes, self.is_value, self.default = vdtypes, isval, default
        self.matchers = table

    def make(self, rng, shp, dtype=None):
        return self._make(rng, shp, self.default if dtype is None else dtype)

    def ann_dtype(self, rng):
        return rng.choice(self.table)[0]

    def dtype_matches(self, ann, value):
        if ann is None:
            return True
        for item, ok in self.table:
            if item is ann:
                return ok(value.dtype)
        raise AssertionError(ann)

    def value_dtype(self, rng, ann):
        if ann is None:
            return rng.choice(self.vdtypes) if rng.random() < 0.4 else self.default
        for item, ok in self.table:
            if item is ann:
                return next(d for d in self.vdtypes if ok(d))
        raise AssertionError(ann)

    @staticmethod
    def dtype_of(value):
        return value.dtype

    def alien(self, shp):
        """A value of the same shape of another framework."""

        class Alien:
            shape, dtype, ndim = tuple(shp), np.dtype("f8"), len(shp)

        if self.name == "Array":
            return Alien()
        shp = tuple(abs(s) if s < 50 else 2 for s in shp)
        return np.zeros(shp, dtype="f4")


def np_table():
    def eq(d):
        return lambda x: x == np.dtype(d)

    def kind(k):
        return lambda x: x.kind == k

    table = [(d, eq(d)) for d in (float, int, bool, complex, np.float32, np.int8, np.uint16)]
    table += [(str, kind("U")), (bytes, kind("S")), (np.dtype("f2"), eq("f2")),
              (np.dtype("i4"), eq("i4"))]
    values = [np.dtype(x) for x in ("f8", "i8", "?", "c16", "f4", "i1", "u2", "U3", "S2", "f2", "i4")]
    return table, values


def tf_table():
    import tensorflow as tf

    def eq(d):
        return lambda x: x == d

    pairs = [(int, tf.int32), (float, tf.float32), (complex, tf.complex128), (bool, tf.bool),
             (bytes, tf.string), (tf.int64, tf.int64), (tf.float64, tf.float64), (tf.uint8, tf.uint8),
             (tf.int32, tf.int32)]
    return [(a, eq(d)) for a, d in pairs], [d for _, d in pairs]


def torch_table():
    import torch

    def eq(d):
        return lambda x: x is d

    pairs = [(int, torch.int32), (float, torch.float32), (bool, torch.bool), (bytes, torch.uint8),
             (torch.int64, torch.int64), (torch.float64, torch.float64), (torch.int32, torch.int32)]
    return [(a, eq(d)) for a, d in pairs], [d for _, d in pairs]


def numpy_make(rng, shp, dtype=np.float64):
    return gen.array(rng, shp, dtype)


def tf_make(rng, shp, dtype=None):
    import tensorflow as tf

    dtype = dtype or tf.float32
    total = 1
    for s in shp:
        total *= s
    if total > 20000000:
        raise ValueError("too large")
    if dtype == tf.string:
        return tf.fill(list(shp), "a") if shp else tf.constant("a")
    if dtype == tf.variant or dtype == tf.resource:
        raise ValueError("no values of this dtype")
    return tf.zeros(list(shp), dtype=dtype)


def torch_make(rng, shp, dtype=None):
    import torch

    return torch.zeros(tuple(shp), dtype=dtype or torch.float32)


def all_frameworks(ctx):
    """Every installed framework, numpy last."""
    import asta

    out = []
    if has_tf(ctx):
        import tensorflow as tf

        out.append(Framework("TFTensor", asta.TFTensor, tf_make, *tf_table(),
                             lambda v: isinstance(v, tf.Tensor), tf.float32))
    if has_torch(ctx):
        import torch

        out.append(Framework("Tensor", asta.Tensor, torch_make, *torch_table(),
                             lambda v: isinstance(v, torch.Tensor), torch.float32))
    out.append(Framework("Array", asta.Array, numpy_make, *np_table(),
                         lambda v: isinstance(v, np.ndarray), np.dtype("f8")))
    return out


def frameworks(ctx):
    """The framework the world is about."""
    return all_frameworks(ctx)[:1]


def make_env(ctx, fw):
    """The environment of a workload of decorated calls."""
    from asta import symbols
    from props import model

    cfg = ctx.world.get("config", {})
    return model.Env(fw, lambda name: getattr(symbols, name),
                     check_all=cfg.get("check-all-sequence-elements", "yes") == "yes",
                     non_asta=cfg.get("check-non-asta-types", "no") == "yes")


def fit(ctx, shp):
    """Shrink sizes so that the value can be made (numpy: addressed, others: allocated)."""
    limit = 100000 if has_tf(ctx) else 2 ** 45
    total, out = 1, []
    for s in map(abs, shp):
        if total * max(s, 1) > limit:
            s = s % 5 + 1
            if total * s > limit:
                s = 1
        total *= max(s, 1)
        out.append(s)
    return tuple(out)


def probe(value, T):
    """isinstance as an Outcome."""
    return core.run(isinstance, value, T)
