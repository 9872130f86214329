"""A stand-in for the parts of PyTorch that asta uses.

PyTorch is not installed in this environment.  This module models, from its documentation, what
``asta`` relies on: ``Tensor`` (an ordinary class with ``shape``, ``dtype``, ``ndim``, ``numel``),
``Size`` (a subclass of tuple whose sums, slices and repetitions are Sizes), ``dtype`` instances
that are compared by identity, and factory functions.
"""
import builtins as _b

__version__ = "0-standin"


class dtype:
    """Instances are singletons such as ``torch.float32``."""

    _all = {}

    def __init__(self, name):
        self._name = name
        dtype._all[name] = self

    def __repr__(self):
        return f"torch.{self._name}"


for _n in ("float32", "float64", "float16", "bfloat16", "uint8", "int8", "int16", "int32", "int64",
           "complex64", "complex128"):
    globals()[_n] = dtype(_n)
bool = dtype("bool")
float, double, half = float32, float64, float16  # noqa: F821
int, long, short = int32, int64, int16  # noqa: F821


class Size(tuple):
    """The shape of a tensor."""

    def __new__(cls, items=()):
        items = tuple(items)
        for x in items:
            if not isinstance(x, _b.int):
                raise TypeError("torch.Size() takes an iterable of 'int'")
        return super().__new__(cls, items)

    def __getitem__(self, i):
        out = tuple.__getitem__(self, i)
        return Size(out) if isinstance(i, slice) else out

    def __add__(self, other):
        out = tuple.__add__(self, other)
        return Size(out) if _b.all(isinstance(x, _b.int) for x in out) else out

    def __mul__(self, n):
        return Size(tuple.__mul__(self, n))

    __rmul__ = __mul__

    def numel(self):
        out = 1
        for x in self:
            out *= x
        return out

    def __repr__(self):
        return f"torch.Size({list(self)})"


class Tensor:
    """A tensor without contents."""

    def __init__(self, shape=(), dtype=float32):  # noqa: F821
        self._shape, self._dtype = Size(shape), dtype
        self.requires_grad = False

    @property
    def shape(self):
        return self._shape

    @property
    def dtype(self):
        return self._dtype

    @property
    def ndim(self):
        return len(self._shape)

    def dim(self):
        return len(self._shape)

    def size(self, i=None):
        return self._shape if i is None else self._shape[i]

    def numel(self):
        return self._shape.numel()

    def __eq__(self, other):
        if isinstance(other, Tensor):
            return Tensor(self._shape, bool)
        return NotImplemented

    __hash__ = object.__hash__

    def __repr__(self):
        return f"tensor(shape={list(self._shape)}, dtype={self._dtype})"


class Parameter(Tensor):
    """A subclass, as ``torch.nn.Parameter``."""


def zeros(*shape, dtype=None):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    return Tensor(shape, dtype or float32)  # noqa: F821


def ones(*shape, dtype=None):
    return zeros(*shape, dtype=dtype)


def empty(*shape, dtype=None):
    return zeros(*shape, dtype=dtype)


def is_tensor(x):
    return isinstance(x, Tensor)
