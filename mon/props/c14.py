"""C14: other types are checked only on request, and then faithfully."""
import abc
import collections
import collections.abc
import dataclasses
import datetime
import decimal
import enum
import functools
import inspect
import io
import numbers
import typing

from props.common import *
from props import calls, model
from props.model import Plain


class User:
    pass


class Derived(User):
    pass


class Other:
    def __eq__(self, other):
        return True

    __hash__ = object.__hash__


class Base(abc.ABC):
    @abc.abstractmethod
    def go(self):
        ...


class Impl(Base):
    def go(self):
        return 1


class Registered:
    pass


Base.register(Registered)


@typing.runtime_checkable
class Closer(typing.Protocol):
    def close(self) -> None:
        ...


class HasClose:
    def close(self):
        pass


@typing.runtime_checkable
class Sizes(typing.Protocol):
    width: int
    height: int


class HasSizes:
    height = 2

    def __init__(self, width=1):
        if width:
            self.width = width


class Drawable(typing.Protocol):
    """Not runtime checkable: Python itself cannot tell what satisfies it."""

    def draw(self) -> None:
        ...


class Color(enum.Enum):
    RED = 1
    BLUE = 2


@dataclasses.dataclass
class Point:
    x: int = 0


class MyInt(int):
    pass


class MyFloat(float):
    pass


class MyStr(str):
    pass


K = typing.TypeVar("K")


class Box(typing.Generic[K]):
    pass


class Meta(type):
    pass


class WithMeta(metaclass=Meta):
    pass


def f0():
    pass


def f1(a):
    pass


def f2(a, b):
    pass


def f4(a, b, c, d):
    return a


def f5(a, b, c, d, /, e):
    return a


def f12(a, b=1):
    pass


def fv(*a):
    pass


def f1v(a, *b):
    pass


def fk(a, *, k=1):
    pass


def fp(a, b, /):
    pass


def fkw(a, **k):
    pass


def fvk(*a, k, **kw):
    pass


def fpm(a, /, b, c=1, *, k=2):
    pass


def fkr(a, b, *, k):
    pass


class CallMe:
    def __call__(self, a, b):
        pass


class Bound:
    def m(self, a):
        pass

    @classmethod
    def c(cls, a, b=1):
        pass

    @staticmethod
    def s(**k):
        pass

    p = functools.partialmethod(m, 3)


def arity_ok(fn, n):
    """Whether Python accepts n positional arguments; yes where the signature is unknown."""
    try:
        signature = inspect.signature(fn)
    except ValueError:
        return True
    try:
        signature.bind(*range(n))
        return True
    except TypeError:
        return False


def pool(ctx, fw, rng):
    vals = [0, 1, 2, -3, True, False, 1.5, 0.0, 2j, 1 + 0j, "a", "b", "", b"x", bytearray(b"x"), None,
            User(), Derived(), User, Derived, Other, Impl(), Registered(), HasClose(), HasClose, MyInt(3),
            MyFloat(2.0), MyStr("a"), int, str, float, bool, type, Meta, WithMeta, WithMeta(), Box(),
            f0, f1, f2, f4, f5, f12, fv, f1v, fk, fp, fkw, fpm, CallMe(), CallMe, Bound().m, Bound.m, Bound.c, Bound.s, Bound.p, lambda x: x, functools.partial(f2, 1),
            [1], ["a"], [], (1,), (), {"a": 1}, {}, {1}, frozenset(), range(3), iter([]), object(),
            datetime.datetime(2020, 1, 1), np.float64(1.0), np.int64(1), np.zeros(()),
            fw.make(rng, (2,), None), Other(), NotImplemented, Ellipsis, collections.OrderedDict(a=1),
            collections.deque([1]), ValueError("x"), ValueError, HasSizes(), HasSizes(0), HasSizes, Color.RED,
            Color.BLUE, Color, Point(), Point, io.StringIO(), io.BytesIO(), decimal.Decimal(1), (lambda: (yield))(),
            collections.ChainMap(), memoryview(b"x")]
    return vals


def plain_nodes():
    def inst(cls, make, name=None):
        return Plain(cls, lambda v: isinstance(v, cls), make, name or cls.__name__)

    out = [
        inst(int, lambda r: r.choice([0, 5, True, MyInt(2)])),
        inst(str, lambda r: r.choice(["", "a", MyStr("q")])),
        inst(bool, lambda r: r.choice([True, False])),
        Plain(float, lambda v: isinstance(v, float), lambda r: r.choice([1.5, MyFloat(1)]), "float"),
        Plain(complex, lambda v: isinstance(v, complex), lambda r: 2j, "complex"),
        Plain(bytes, lambda v: isinstance(v, (bytes, bytearray)), lambda r: r.choice([b"a", bytearray(b"b")]),
              "bytes"),
        inst(User, lambda r: r.choice([User(), Derived()])),
        inst(Derived, lambda r: Derived()),
        inst(Base, lambda r: r.choice([Impl(), Registered()])),
        inst(object, lambda r: r.choice([None, 3])),
        inst(datetime.datetime, lambda r: datetime.datetime(2021, 1, 1)),
        inst(collections.abc.Sized, lambda r: r.choice([[], "a"])),
        inst(collections.abc.Hashable, lambda r: r.choice([1, "a"])),
        inst(Exception, lambda r: ValueError()),
        inst(WithMeta, lambda r: WithMeta()),
        inst(list, lambda r: [1]),
        inst(dict, lambda r: {"a": 1}),
        inst(collections.deque, lambda r: collections.deque()),
        Plain(Closer, lambda v: callable(getattr(type(v), "close", None)), lambda r: HasClose(), "Closer"),
        Plain(Sizes, lambda v: hasattr(v, "width") and hasattr(v, "height"), lambda r: HasSizes(), "Sizes"),
        Plain(Drawable, lambda v: True, lambda r: r.choice([None, HasClose()]), "Drawable"),
        inst(Color, lambda r: r.choice(list(Color))),
        inst(Point, lambda r: Point()),
        inst(HasSizes, lambda r: HasSizes()),
        inst(numbers.Number, lambda r: r.choice([1, 2.0, decimal.Decimal(2), np.float64(1)]), "Number"),
        inst(collections.abc.Mapping, lambda r: r.choice([{}, collections.ChainMap()])),
        inst(collections.abc.Iterator, lambda r: iter([])),
        inst(collections.abc.Container, lambda r: r.choice([[], "a"])),
        Plain(typing.SupportsInt, lambda v: isinstance(v, typing.SupportsInt), lambda r: r.choice([1, 2.0, True]),
              "SupportsInt"),
        Plain(typing.TextIO, lambda v: isinstance(v, io.TextIOBase), lambda r: io.StringIO(), "TextIO"),
        Plain(typing.BinaryIO, lambda v: isinstance(v, (io.RawIOBase, io.BufferedIOBase)),
              lambda r: io.BytesIO(), "BinaryIO"),
        Plain(typing.IO, lambda v: isinstance(v, io.IOBase), lambda r: r.choice([io.StringIO(), io.BytesIO()]),
              "IO"),
        Plain(typing.Deque[int], lambda v: isinstance(v, collections.deque), lambda r: collections.deque(),
              "Deque[int]"),
        Plain(typing.Iterator[int], lambda v: isinstance(v, collections.abc.Iterator), lambda r: iter([]),
              "Iterator[int]"),
        Plain(typing.OrderedDict[str, int], lambda v: isinstance(v, collections.OrderedDict),
              lambda r: collections.OrderedDict(), "OrderedDict[str,int]"),
        Plain(np.ndarray, lambda v: isinstance(v, np.ndarray), lambda r: np.zeros(2), "ndarray"),
        Plain(Box[int], lambda v: isinstance(v, Box), lambda r: Box(), "Box[int]"),
        Plain(Box, lambda v: isinstance(v, Box), lambda r: Box(), "Box"),
        Plain(typing.Iterable[int], lambda v: isinstance(v, collections.abc.Iterable), lambda r: [1],
              "Iterable[int]"),
        Plain(typing.Mapping[str, int], lambda v: isinstance(v, collections.abc.Mapping),
              lambda r: {"a": 1}, "Mapping[str,int]"),
        Plain(typing.FrozenSet[int], lambda v: isinstance(v, frozenset), lambda r: frozenset([1]),
              "FrozenSet[int]"),
        Plain(typing.Type, inspect.isclass, lambda r: int, "Type"),
        Plain(typing.Type[typing.Any], inspect.isclass, lambda r: int, "Type[Any]"),
        Plain(typing.Callable, callable, lambda r: f1, "Callable"),
        Plain(typing.Any, lambda v: True, lambda r: None, "Any"),
        Plain(K, lambda v: True, lambda r: 1, "TypeVar"),
    ]
    for c in (User, Derived, float, int, Base, object, Meta, Exception):
        for spell in (typing.Type, type):
            out.append(Plain(spell[c], lambda v, c=c: inspect.isclass(v) and issubclass(v, c),
                             lambda r, c=c: c, f"Type[{c.__name__}]"))
    for u in ((User, float), (Derived, type(None)), (int, str), (Meta, Exception, Base)):
        for spell in (typing.Type, type):
            out.append(Plain(spell[typing.Union[u]], lambda v, u=u: inspect.isclass(v) and issubclass(v, u),
                             lambda r, u=u: r.choice(u), f"Type[Union[{','.join(c.__name__ for c in u)}]]"))
    out.append(Plain(typing.Type[K], inspect.isclass, lambda r: int, "Type[TypeVar]"))
    for n in range(7):
        for spell in (typing.Callable, collections.abc.Callable):
            out.append(Plain(spell[[int] * n, int], lambda v, n=n: callable(v) and arity_ok(v, n),
                             lambda r, n=n: [f0, f1, f2, lambda a, b, c: 1, f4, f5, lambda a, b, c, d, e, f=1: 1][n], f"Callable[{n}]"))
    out.append(Plain(typing.Callable[..., int], callable, lambda r: f2, "Callable[...]"))
    for members in (("a",), ("a", "b"), (1, 2), (0,), ("b", 3, None), (True,), (b"x",), ("", "c", 7),
                    (Color.RED,), (Color.BLUE, "a", None)):
        out.append(Plain(typing.Literal[members], lambda v, m=members: any(eq(v, x) for x in m),
                         lambda r, m=members: r.choice(m), f"Literal{members}"))
    return out


def eq(a, b):
    try:
        return bool(a == b)
    except Exception:  # pylint: disable=broad-except
        return False


def fw_size(v):
    n = 1
    for s in v.shape:
        n *= int(s)
    return n


def unsure(node, v):
    """Values whose relation to the annotation the property leaves open."""
    if isinstance(node, Plain):
        if node.name.startswith("Callable[") and callable(v):
            try:
                inspect.signature(v)
            except (TypeError, ValueError):
                return True
        if node.name.startswith("Literal") and hasattr(v, "shape") and fw_size(v) == 1:
            return True
        if node.name in ("Closer", "Sizes", "SupportsInt") and inspect.isclass(v):
            return True
        return False
    if isinstance(v, (list, tuple, set, frozenset, collections.deque)):
        return any(unsure(c, x) for c in node.children() for x in v)
    if isinstance(v, dict):
        return any(unsure(c, x) for c in node.children() for kv in v.items() for x in kv)
    return any(unsure(c, v) for c in node.children())


def tree(rng, nodes, depth):
    r = rng.random()
    if depth == 0 or r < 0.35:
        return rng.choice(nodes)
    sub = lambda: tree(rng, nodes, depth - 1)
    if r < 0.5:
        return model.ListNode(sub(), seq=rng.random() < 0.4)
    if r < 0.62:
        return model.TupleNode([sub() for _ in range(rng.choice([0, 1, 2, 3]))])
    if r < 0.68:
        return model.TupleVar(sub())
    if r < 0.78:
        return model.DictNode(model.STR if rng.random() < 0.5 else rng.choice(
            [n for n in nodes if n.name in ("int", "str", "bool", "object", "User", "float")]), sub())
    if r < 0.82:
        k = rng.choice([1, 2])
        return model.NTNode(["alpha", "b"][:k], [sub() for _ in range(k)])
    if r < 0.88:
        k = rng.choice([1, 2])
        return model.TDNode(["alpha", "b"][:k], [sub() for _ in range(k)], rng.random() < 0.5)
    return model.UnionNode([sub() for _ in range(rng.choice([1, 2, 3]))], rng.random() < 0.5)


def wild(rng, v, vals):
    """Replace something inside a value by something of the pool."""
    if isinstance(v, list) and v and rng.random() < 0.7:
        v = list(v)
        i = rng.randrange(len(v))
        v[i] = wild(rng, v[i], vals)
        return v
    if type(v) is tuple and v and rng.random() < 0.7:
        i = rng.randrange(len(v))
        return v[:i] + (wild(rng, v[i], vals),) + v[i + 1:]
    if isinstance(v, dict) and v and rng.random() < 0.7:
        k = rng.choice(list(v))
        if rng.random() < 0.4:
            bad = rng.choice([3, 0, True, None, b"a", 2.5, "zz", (), ("a",), frozenset(), k])
            return {(bad if x == k and type(x) is type(k) else x): y for x, y in v.items()}
        return {**v, k: wild(rng, v[k], vals)}
    if isinstance(v, tuple) and hasattr(v, "_fields") and rng.random() < 0.7:
        i = rng.randrange(len(v))
        return type(v)(*[wild(rng, x, vals) if j == i else x for j, x in enumerate(v)])
    return rng.choice(vals)


def run(ctx):
    from asta import typechecked

    (fw,) = frameworks(ctx)
    env = make_env(ctx, fw)
    nodes = plain_nodes()
    for rng in ctx.cases(scale(ctx, 1600), "annotation"):
        node = tree(rng, nodes, rng.choice([0, 0, 0, 1, 1, 2]))
        T = core.run(node.build, env, rng)
        if not T.ok:  # typing itself refuses it
            ctx.event("not-an-annotation")
            continue
        runs = []

        def f(p):
            runs.append(p)
            return p

        def g(p):
            return p

        f.__annotations__ = {"p": T.value}
        g.__annotations__ = {"p": typing.Any, "return": T.value}
        f, g = typechecked(f), typechecked(g)
        vals = pool(ctx, fw, rng)
        cands = rng.sample(vals, 6) + [node.value(rng, env, {}) for _ in range(3)]
        cands += [wild(rng, node.value(rng, env, {}), vals) for _ in range(4)]
        for v in cands:
            if unsure(node, v):
                ctx.event("left-open")
                continue
            want = bool(node.alts(v, env))
            runs.clear()
            got = core.run(f, v)
            ctx.check(got.ok == want and (want or isinstance(got.exc, TypeError)),
                      f"should be {'accepted' if want else 'refused'}", annotation=node,
                      value=model.describe(v), got=got, at=core.where(got.exc) if got.exc else "")
            ctx.check(len(runs) == want and all(x is v for x in runs), "the body ran wrongly",
                      annotation=node, value=model.describe(v), runs=len(runs))
            if rng.random() < 0.3:
                got = core.run(g, v)
                ctx.check(got.ok == want and (want or isinstance(got.exc, TypeError)),
                          f"as a result, should be {'accepted' if want else 'refused'}", annotation=node,
                          value=model.describe(v), got=got)
            ctx.event("accept" if want else "refuse")
            if isinstance(node, Plain):
                ctx.event(("plain-accept" if want else "plain-refuse"))
                if not node.accepts(v):
                    ctx.event("would-refuse-if-asked" if want else "refused-as-asked")
            ctx.seen(repr(node), model.describe(v), want)
        ctx.sample(repr(node))
    # Array annotations beside others are checked the same in both worlds.
    for rng in ctx.cases(scale(ctx, 400), "mixed"):
        def node(r):
            if r.random() < 0.45:
                return model.leaf(r, env)
            t = tree(r, [n for n in nodes if not n.name.startswith(("Callable[", "Literal", "Closer", "Sizes", "SupportsInt"))], 1)
            return t
        f = calls.random_function(rng, env, node, defaults=0.2)
        if not core.run(f.namespace, env, rng).ok:
            continue
        calls.with_defaults(f, rng, env, {})
        made = core.run(f.make, env, rng, typechecked)
        if not ctx.check(made.ok, "decorating failed", function=f, got=made):
            continue
        for _ in range(3):
            args, kwargs = calls.arguments(f, rng, env, {})
            ret = calls.result(f, rng, env, {})
            calls.judge(ctx, f, args, kwargs, ret, env, f.verdict(args, kwargs, ret, env))
            ctx.event("mixed")
