"""C24: Scalar recognises scalars and 0-dimensional arrays only."""
import collections
import datetime
import decimal
import enum
import fractions
import io
import pathlib
import types

from props.common import *
from props import model


class MyInt(int):
    pass


class MyFloat(float):
    shape = (3,)
    dtype = "f8"


class MyStr(str):
    shape = (2, 2)


class MyBytes(bytes):
    pass


class MyComplex(complex):
    pass


class MyDatetime(datetime.datetime):
    pass


class MyDelta(datetime.timedelta):
    def __eq__(self, other):
        raise RuntimeError("not to be compared")

    __hash__ = None


class Colour(enum.IntEnum):
    RED = 0
    BLUE = 3


class Mode(str, enum.Enum):
    A = "a"


class Flag(enum.Flag):
    X = 1


class FakeArray:
    """Not an array, although it looks like a 0-dimensional one."""

    shape, dtype, ndim, size = (), np.dtype("f8"), 0, 1

    def item(self):
        return 1.0

    def __array__(self, dtype=None):
        return np.zeros(())

    def __float__(self):
        return 1.0

    def __index__(self):
        return 1


class Hostile:
    """An object that minds being compared."""

    def __eq__(self, other):
        raise RuntimeError("compared")

    def __bool__(self):
        raise RuntimeError("truth value taken")

    __hash__ = None


class Rebel(np.ndarray):
    """An array without a truth value of its own."""

    def __eq__(self, other):
        raise RuntimeError("compared")

    def __bool__(self):
        raise RuntimeError("truth value taken")


NT = collections.namedtuple("NT", "x")

SCALARS = {
    "bool": lambda r: r.random() < 0.5,
    "int": lambda r: r.choice([0, 1, -1, 7, 10 ** 30, -(2 ** 63)]),
    "float": lambda r: r.choice([0.0, -0.0, 1.5, float("nan"), float("inf"), 5e-324]),
    "complex": lambda r: r.choice([0j, 1 + 2j, complex("nan")]),
    "bytes": lambda r: r.choice([b"", b"a", b"\0\xff", b"long" * 50]),
    "str": lambda r: r.choice(["", "a", "shape", "long" * 50, "\u00e9"]),
    "datetime": lambda r: r.choice([datetime.datetime(2020, 1, 2), datetime.datetime.min,
                                    datetime.datetime(2020, 1, 2, tzinfo=datetime.timezone.utc)]),
    "timedelta": lambda r: r.choice([datetime.timedelta(0), datetime.timedelta(days=-3, seconds=4)]),
    "subclass": lambda r: r.choice([MyInt(0), MyInt(3), MyFloat(0), MyFloat(2.5), MyStr(""), MyStr("x"),
                                    MyBytes(b""), MyComplex(0), MyDatetime(2020, 1, 1), MyDelta(0), MyDelta(3),
                                    Colour.RED, Colour.BLUE, Mode.A]),
    "numpy-subclass": lambda r: r.choice([np.float64(0), np.float64(2), np.complex128(1j), np.str_("a"),
                                          np.bytes_(b"a")]),
}
OTHERS = {
    "none": lambda r: None,
    "container": lambda r: r.choice([[], [1], (), (1,), {}, {"a": 1}, set(), {1}, frozenset(), range(1), range(0),
                                     bytearray(b"a"), memoryview(b"a"), NT(1), collections.OrderedDict(),
                                     collections.deque([1]), iter([]), array_array()]),
    "object": lambda r: r.choice([object(), Hostile(), FakeArray(), Flag.X, decimal.Decimal(1),
                                  fractions.Fraction(1, 2), datetime.date(2020, 1, 1), datetime.time(1),
                                  datetime.timezone.utc, Ellipsis, NotImplemented, slice(1), len, lambda: 1,
                                  types.SimpleNamespace(shape=()), io.StringIO("a"), pathlib.PurePath("a"),
                                  types.ModuleType("m")]),
    "class": lambda r: r.choice([int, float, str, bool, bytes, complex, np.ndarray, datetime.datetime, Hostile,
                                 type, object, MyInt, np.float64, np.dtype("f8"), Colour, type(None)]),
}


def array_array():
    import array

    return array.array("i", [1])


def some_array(rng, shp):
    """Arrays of every dtype, kind and layout."""
    dt = rng.choice(["f8", "f4", "f2", "i8", "i4", "i2", "i1", "u1", "u8", "?", "c8", "c16", "U3", "U1", "S4", "O",
                     "M8[s]", "m8[ns]", ">i4", ">f8", [("a", "i4"), ("b", "f8")], "V4", "g"])
    r = rng.randrange(9)
    a = np.zeros(shp, dtype=dt)
    if r == 0:
        return a.view(gen.Sub)
    if r == 1:
        return a.view(Rebel)
    if r == 2:
        return np.ma.masked_array(a, mask=np.ma.nomask if rng.random() < 0.5 else np.ones(shp, dtype=bool))
    if r == 3 and dt != "O":
        return np.asfortranarray(a) if shp else a
    if r == 4:
        a.flags.writeable = False
        return a
    if r == 5:
        return np.broadcast_to(np.zeros((), dtype=dt), shp)
    if r == 6:
        return np.zeros((2,) + tuple(shp), dtype=dt)[1, ...]  # a view, also with shape ()
    if r == 7 and not shp:
        return rng.choice([np.array(v) for v in (1, 2.5, "s", None, True, b"x")] + [np.ma.masked])
    if r == 8 and len(shp) == 2:
        return np.zeros(shp).view(np.matrix)
    return a


def run(ctx):
    from asta import Scalar

    fws = {fw.name: fw for fw in all_frameworks(ctx)}

    def ask(rng, v, want, kind):
        how = rng.randrange(3)
        got = [lambda: core.run(isinstance, v, Scalar), lambda: core.run(isinstance, v, (Scalar,)),
               lambda: core.run(isinstance, v, (type("Other", (), {}), Scalar))][how]()
        try:
            shown = repr(v)
        except Exception:  # pylint: disable=broad-except
            shown = type(v).__name__
        if ctx.check(got.ok and got.value is want, "isinstance(value, Scalar) is wrong", value=shown[:200],
                     type=type(v), kind=kind, got=got, want=want):
            again = core.run(isinstance, v, Scalar)
            ctx.check(again.ok and again.value is want, "a second isinstance(value, Scalar) is wrong", type=type(v),
                      got=again)
        ctx.event(f"{kind}-{want}")

    for rng in ctx.cases(scale(ctx, 400), "scalars"):
        for kind, make in SCALARS.items():
            v = make(rng)
            ask(rng, v, True, kind)
            ctx.seen(kind, type(v), repr(v) if kind != "timedelta" else 0)
        for kind, make in OTHERS.items():
            v = make(rng)
            ask(rng, v, False, kind)
            ctx.seen(kind, type(v))
    for rng in ctx.cases(scale(ctx, 2500), "arrays"):
        shp = () if rng.random() < 0.35 else rng.choice(
            [(1,), (0,), (1, 1), (1, 0), (0, 0), (1,) * 5, (2,), (2, 3), (1, 2), gen.shape(rng, big=0, minrank=1)])
        v = some_array(rng, shp)
        ask(rng, v, v.shape == (), "array")
        ctx.seen("array", type(v), str(v.dtype), v.shape)
        # Values next to arrays: their elements and containers of 0-dimensional arrays.
        ask(rng, rng.choice([[v], (v,), {"a": v}, {0: v}]), False, "containing")
    for name, fw in fws.items():
        if name == "Array":
            continue
        for rng in ctx.cases(scale(ctx, 300), "tensors of " + name):
            shp = () if rng.random() < 0.4 else rng.choice([(1,), (0,), (1, 1), (1, 0), (2,), (2, 3), (1,) * 4])
            v = fw.make(rng, shp, rng.choice(fw.vdtypes))
            ask(rng, v, shp == (), name)
            ctx.seen(name, str(v.dtype), shp)
            if name == "Tensor":
                import torch

                ask(rng, torch.Parameter(shp), shp == (), "Parameter")
            ask(rng, rng.choice([[v], v.shape, v.dtype, type(v)]), False, "of-tensor")
