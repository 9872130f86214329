"""C19: decorating a class checks each of its annotated methods."""
import abc
import dataclasses
import functools
import inspect
import types

from props.common import *
from props import calls, exprs, model


class Outside:
    """A class which is merely an attribute of the decorated one."""

    def m(self, x: int):
        return x


def outside(self, x: "ignored"):
    return x


class Plain:
    """A base without anything to check."""

    def base_method(self, x: int):
        return x


class PlainABC(abc.ABC):
    shared = 3


class MarkedClassMethod(classmethod):
    """A class method of a kind of its own."""


class MarkedStaticMethod(staticmethod):
    """A static method of a kind of its own."""


class Member:
    """A generated method: kind, name and the function behind it."""

    def __init__(self, kind, f):
        self.kind, self.f = kind, f


def build_class(rng, env, qualname, depth, members, others, bases, plan):
    """A class with random members; ``members`` and ``others`` collect what to verify."""
    ns = {"__qualname__": qualname, "__module__": "generated_module", "__doc__": "A class."}
    path = []
    used = set()
    for _ in range(rng.randint(1, 4)):
        kind = rng.choice(["instance", "instance", "instance", "class", "static", "dunder", "abstract"])
        name = rng.choice(["forward", "step", "loss", "build", "_private", "__mangled"])
        if kind == "dunder":
            name = rng.choice(["__call__", "__getitem__", "__enter__", "__matmul__", "__contains"])
        if name in used:
            continue
        used.add(name)
        first = {"static": None, "class": "cls"}.get(kind, "self")
        names = exprs.pick_names(rng, 2)
        values = {n: rng.choice([1, 2, 3, 4]) for n in names}

        def node(r):
            return model.tree(r, env, depth=r.choice([0, 0, 0, 1]), names=names, values=values, expr=0.1,
                              plain=r.random() < 0.3)
        f = calls.random_function(rng, env, node, ret=0.6, defaults=0.3, name=name.strip("_"), first=first)
        if not f.params and f.ret_node is None or not core.run(f.namespace, env, rng).ok:
            continue
        calls.with_defaults(f, rng, env, values)
        f.make(env, rng, lambda fn: fn)
        fn = f.original
        # The attribute's name and the function's may differ.
        fname = name if rng.random() < 0.85 else rng.choice(["other_name", "forward", "wrapped"])
        fn.__name__ = fname
        fn.__qualname__ = f"{qualname}.{fname}"
        fn.__module__ = "generated_module"
        if kind == "abstract":
            fn = abc.abstractmethod(fn)
        kinds = {"class": classmethod, "static": staticmethod}
        if rng.random() < 0.12:
            kinds = {"class": MarkedClassMethod, "static": MarkedStaticMethod}
        ns[name] = kinds.get(kind, lambda x: x)(fn)
        m = Member(kind, f)
        m.name, m.values, m.raw, m.fname = name, values, ns[name], fname
        path.append(m)
        if rng.random() < 0.15 and kind in ("instance", "class", "static"):
            alias = Member(kind, f)
            alias.name, alias.values, alias.raw, alias.fname = "alias_" + name, values, ns[name], fname
            ns[alias.name] = ns[name]
            path.append(alias)
    # What must stay as it is.
    T = env.fw.T

    def fn(name, body, ann=None):
        body = types.FunctionType(body.__code__, body.__globals__, name, body.__defaults__, body.__closure__)
        body.__qualname__ = f"{qualname}.{name}"
        body.__annotations__ = ann or {}
        return body

    pool = {
        "plain": fn("plain", lambda self, x: x),
        "plain_class": classmethod(fn("plain_class", lambda cls, x: (cls, x))),
        "plain_static": staticmethod(fn("plain_static", lambda x: x)),
        "prop": property(fn("prop", lambda self: 41, {"return": T[1]})),
        "cached": functools.cached_property(fn("cached", lambda self: 42, {"return": T[1]})),
        "partial": functools.partialmethod(fn("partial", lambda self, x: x), 3),
        "data": [1, 2], "number": 5, "T": T[2], "none": None, "borrowed": outside, "Alias": Outside,
        "func": len, "instance": object(),
    }
    # Annotated functions and a class of other classes, whose names extend or resemble this one's.
    for i, other in enumerate((qualname + "Block", qualname + "2.Inner", qualname.split(".")[-1] + "Outer",
                               "Other." + qualname, qualname.lower())):
        g = fn(f"like{i}", lambda self, x: x, {"x": T[2], "return": T[2]})
        g.__qualname__ = f"{other}.like{i}"
        pool[f"like{i}"] = rng.choice([g, staticmethod(fn("plain_like", lambda x: x))])
    similar = type(qualname.split(".")[-1] + "Similar", (), {"m": fn("m", lambda self, x: x, {"x": T[2]})})
    similar.__qualname__ = qualname + "Similar"
    similar.m.__qualname__ = similar.__qualname__ + ".m"
    pool["Similar"] = similar
    others.append((similar, {"m": vars(similar)["m"]}, {"m": types.FunctionType}, list(vars(similar))))
    for name in rng.sample(list(pool), rng.randint(2, 10)):
        ns[name] = pool[name]
    ann = {"data": T[3]}
    ns["__annotations__"] = ann
    nested = []
    if depth and rng.random() < 0.6:
        sub_members, sub_others = [], []
        sub_bases = rng.choice([(), (), (Plain,), (PlainABC,), (dict,), (Plain, PlainABC)])
        inner = build_class(rng, env, f"{qualname}.Inner", depth - 1, sub_members, sub_others, sub_bases, plan)
        ns["Inner"] = inner
        nested.append(inner)
        members += sub_members
        others += sub_others
    meta = type
    for b in bases:
        meta = type(b) if issubclass(type(b), meta) else meta
    cls = meta(qualname.split(".")[-1], tuple(bases), ns)
    for m in path:
        m.owner = cls
        members.append(m)
    keep = {k: v for k, v in vars(cls).items() if k not in {m.name for m in path}
            and k not in ("__dict__", "__weakref__")}
    others.append((cls, keep, {k: type(vars(cls)[k]) for k in vars(cls)}, list(vars(cls))))
    return cls


def run(ctx):
    from asta import typechecked

    (fw,) = frameworks(ctx)
    env = make_env(ctx, fw)
    few = has_tf(ctx)
    for rng in ctx.cases(scale(ctx, 60 if few else 330), "class"):
        whole(ctx, rng, env, typechecked)
    for rng in ctx.cases(scale(ctx, 30), "special"):
        special(ctx, rng, env, typechecked)


class PlainMeta(type):
    pass


def whole(ctx, rng, env, typechecked):
    base_members, base_others = [], []
    bases = ()
    base = None
    if rng.random() < 0.6:
        base_members, base_others = [], []
        root = rng.choice([(), (), (abc.ABC,)])
        base = build_class(rng, env, "Base", 0, base_members, base_others, root, None)
        bases = (base,)
    members, others = [], []
    C = build_class(rng, env, rng.choice(["C", "Net", "test_it.<locals>.C"]), 2, members, others, bases, None)
    sigs = {id(m): inspect.signature(m.f.original) for m in members}
    got = core.run(typechecked, C)
    if not ctx.check(got.ok and got.value is C and got.out == "", "decorating a class", got=got, out=got.out,
                     members=[(m.kind, m.name, m.f) for m in members]):
        return
    if rng.random() < 0.15:
        got = core.run(typechecked, C)
        ctx.check(got.ok and got.value is C, "decorating a class again", got=got)
        ctx.event("twice")
    # Other attributes are untouched, the kinds of the methods unchanged.
    for cls, keep, kinds, order in others + base_others:
        now = vars(cls)
        ctx.check(list(now) == order, "attributes appeared or vanished", cls=cls, got=list(now), want=order)
        for k, v in keep.items():
            if k == "Inner":
                ctx.check(now.get(k) is v, "a nested class was replaced", name=k)
            else:
                ctx.check(k in now and now[k] is v, "an attribute was replaced", name=k)
        for k, t in kinds.items():
            ctx.check(type(now[k]) is t, "the kind of an attribute changed", name=k, got=type(now[k]), want=t)
        ctx.event("attributes", len(keep))
    if base is not None:
        for m in base_members:
            ctx.check(vars(m.owner)[m.name] is m.raw, "a method of an undecorated base was replaced", name=m.name)
            ctx.event("inherited")
    for m in members:
        use(ctx, rng, env, m, sigs[id(m)])
    if base is not None:
        inherited(ctx, rng, env, C, base, base_members)


def make_instance(cls):
    if getattr(cls, "__abstractmethods__", None):
        cls = type("Concrete", (cls,), {})
        cls.__abstractmethods__ = frozenset()
    return cls()


def accessors(rng, m, owner):
    """(what must be bound first, how to reach the method)."""
    Sub = type("Sub", (owner,), {})
    if getattr(owner, "__abstractmethods__", None):
        Sub.__abstractmethods__ = frozenset()
    sub = make_instance(Sub)
    obj = make_instance(owner) if not getattr(owner, "__abstractmethods__", None) else sub
    get = lambda o: getattr(o, m.name)
    if m.kind == "class":
        return [(owner, get(owner)), (type(obj), get(obj)), (Sub, get(Sub)), (Sub, get(sub))]
    if m.kind == "static":
        return [(None, get(owner)), (None, get(obj)), (None, get(Sub)), (None, get(sub))]
    return [(obj, get(obj)), (sub, get(sub)), (obj, functools.partial(get(owner), obj)),
            (sub, functools.partial(get(Sub), sub))]


def use(ctx, rng, env, m, sig):
    f = m.f
    acc = accessors(rng, m, m.owner)
    if m.name != m.fname:
        ctx.event("aliases")
    for _ in range(4):
        first, fn = rng.choice(acc)
        args, kwargs = calls.arguments(f, rng, env, m.values, bad=0.3)
        ret = calls.result(f, rng, env, m.values)
        lead = (first,) if f.first else ()
        f.decorated = (lambda *a, **k: fn(*a[1:], **k)) if f.first else fn
        want = f.verdict(lead + args, kwargs, ret, env)
        calls.judge(ctx, f, lead + args, kwargs, ret, env, want, label=f"a method ({m.kind})")
        ctx.event("method-" + m.kind)
        if "Inner" in m.owner.__qualname__:
            ctx.event("nested-methods")
        ctx.seen(m.kind, repr(f), want, [model.describe(a) for a in args])
    raw = vars(m.owner)[m.name]
    raw = raw.__func__ if isinstance(raw, (classmethod, staticmethod)) else raw
    ctx.check(calls.same_signature(inspect.signature(raw), sig), "the signature of a method changed", name=m.name)
    ctx.check(raw.__name__ == m.fname and raw.__qualname__ == f"{m.owner.__qualname__}.{m.fname}"
              and raw.__doc__ == f.original.__doc__, "the metadata of a method changed", name=m.name,
              got=raw.__qualname__)
    if m.kind == "abstract":
        ctx.check(getattr(raw, "__isabstractmethod__", False), "a method is no longer abstract", name=m.name)
    if m.kind in ("instance", "dunder"):
        obj = acc[0][0]
        bound = getattr(obj, m.name)
        ctx.check(bound.__self__ is obj, "a method is bound to something else", name=m.name)
    if m.kind == "class":
        ctx.check(getattr(m.owner, m.name).__self__ is m.owner, "a class method is bound to something else",
                  name=m.name)


def inherited(ctx, rng, env, C, base, base_members):
    """Inherited methods are not checked; nor are overriding methods of undecorated subclasses."""
    for m in base_members:
        if m.name in vars(C):
            continue
        f = m.f
        acc = accessors(rng, m, C)
        first, fn = rng.choice(acc)
        args, kwargs = calls.arguments(f, rng, env, m.values, bad=0.8, misfit=0)
        ret = object()
        f.rec.calls.clear()
        f.rec.ret, f.rec.exc = ret, None
        lead = (first,) if f.first else ()
        bound = f.bind(lead + args, kwargs)
        if bound is None:
            continue
        got = core.run(fn, *args, **kwargs)
        ctx.check(got.ok and got.value is ret and len(f.rec.calls) == 1
                  and calls.identical(f.rec.calls[0], bound),
                  "an inherited method of an undecorated class is checked", got=got, function=f)
        ctx.event("inherited-calls")


def special(ctx, rng, env, typechecked):
    """Classes as users write them."""
    n = rng.randint(1, 4)
    T = env.fw.T[n]
    good, bad = env.fw.make(rng, (n,), None), env.fw.make(rng, (n + 1,), None)
    log = []

    def expect(fn, value, want, what):
        log.clear()
        got = core.run(fn, value)
        ctx.check(got.ok == want and (want or isinstance(got.exc, TypeError)), what, got=got, want=want,
                  at=core.where(got.exc) if got.exc else "")
        ctx.check(len(log) == want, f"{what}: the body ran {len(log)} times", want=want)
        ctx.event("special")
        return got

    class Parent:
        def __init__(self, x):
            self.x = x

        def greet(self, x):
            return ("parent", x)

    @typechecked
    class Child(Parent):
        made = 0

        def __init__(self, x: T) -> None:
            log.append(x)
            super().__init__(x)

        def greet(self, x: T):
            log.append(x)
            return super().greet(x)

        def __call__(self, x: T) -> T:
            log.append(x)
            return x

        def __eq__(self, other: T):
            log.append(other)
            return other is self.x

        @property
        def p(self) -> T:
            return "unchecked"

        @p.setter
        def p(self, value: T):
            log.append(value)

        def rec(self, x: T, k: int) -> T:
            return self.rec(x, k - 1) if k else x

    got = expect(Child, good, True, "a checked __init__")
    if not got.ok:
        return
    obj = got.value
    ctx.check(obj.x is good and type(obj) is Child, "the instance is wrong")
    expect(Child, bad, False, "a checked __init__")
    got = expect(obj.greet, good, True, "super() in a checked method")
    ctx.check(got.ok and got.value[0] == "parent" and got.value[1] is good, "super() returned something else")
    expect(obj.greet, bad, False, "a checked method")
    expect(obj, good, True, "a checked __call__")
    expect(obj, bad, False, "a checked __call__")
    expect(lambda v: obj == v, good, True, "a checked __eq__")
    expect(lambda v: obj == v, bad, False, "a checked __eq__")
    ctx.check(obj.p == "unchecked", "a property is checked")
    expect(lambda v: setattr(obj, "p", v), bad, True, "a property setter is untouched")
    got = core.run(obj.rec, good, 3)
    ctx.check(got.ok and got.value is good, "a recursive method", got=got)

    class Unchecked(Child):
        def greet(self, x: T):
            log.append(x)
            return super().greet(good)

    expect(lambda v: core.run(Unchecked, v).exc or 1, good, True, "an inherited checked __init__")
    u = core.run(Unchecked, good)
    if ctx.check(u.ok, "instantiating a subclass", got=u):
        log.clear()
        got = core.run(u.value.greet, bad)
        ctx.check(got.ok and got.value[1] is good and len(log) == 2, "an overriding method of an undecorated subclass",
                  got=got)

    @typechecked
    class New:
        def __new__(cls, x: T):
            log.append(x)
            return super().__new__(cls)

        def __class_getitem__(cls, x: T):
            log.append(x)
            return cls

        def __init_subclass__(cls, x: T = good):
            log.append(x)

    got = expect(New, good, True, "a checked __new__")
    ctx.check(got.ok and type(got.value) is New, "__new__ made something else", got=got)
    expect(New, bad, False, "a checked __new__")
    got = expect(lambda v: New[v], good, True, "a checked __class_getitem__")
    ctx.check(got.ok and got.value is New, "__class_getitem__ was bound to something else")
    expect(lambda v: New[v], bad, False, "a checked __class_getitem__")
    expect(lambda v: type("S", (New,), {}, x=v), good, True, "a checked __init_subclass__")
    expect(lambda v: type("S", (New,), {}, x=v), bad, False, "a checked __init_subclass__")

    @typechecked
    class Meta(type):
        def __call__(cls, x: T):
            log.append(x)
            return super().__call__()

        def build(cls, x: T) -> T:
            log.append((cls, x))
            return x

        def __new__(mcs, name, bases, ns):
            return super().__new__(mcs, name, bases, ns)

    K = core.run(Meta, "K", (), {})
    # A metaclass's own calls go to type.__call__, so only __new__ (unannotated) runs here.
    if ctx.check(K.ok, "a class of a decorated metaclass", got=K):
        K = K.value
        expect(K, good, True, "a metaclass's __call__")
        expect(K, bad, False, "a metaclass's __call__")
        got = expect(K.build, good, True, "a metaclass's method")
        ctx.check(got.ok and got.value is good, "a metaclass's method returned something else")
        expect(K.build, bad, False, "a metaclass's method")

    @typechecked
    @dataclasses.dataclass
    class Data:
        x: T

        def shift(self, x: T) -> T:
            log.append(x)
            return x

    d = core.run(Data, good)
    if ctx.check(d.ok and d.value.x is good, "a dataclass", got=d):
        expect(d.value.shift, good, True, "a method of a dataclass")
        expect(d.value.shift, bad, False, "a method of a dataclass")

    # Many methods, all of them checked.
    ns = {}
    for i in range(rng.choice([15, 60, 300])):
        def method(self, x: T) -> T:
            log.append(x)
            return x

        method.__name__ = f"m{i}"
        method.__qualname__ = f"Wide.m{i}"
        ns[method.__name__] = rng.choice([method, method, classmethod(method), staticmethod(lambda x: x)])
    Wide = typechecked(type("Wide", (), ns))
    for name in rng.sample(list(ns), 12):
        if not isinstance(ns[name], staticmethod):
            expect(getattr(Wide(), name), good, True, "a method of a class with many")
            expect(getattr(Wide(), name), bad, False, "a method of a class with many")

    class Slots:
        __slots__ = ("x",)

        def m(self, x: T):
            log.append(x)
            self.x = x

    S = typechecked(Slots)
    ctx.check(S is Slots, "a class with slots was replaced")
    expect(S().m, good, True, "a method of a class with slots")
    expect(S().m, bad, False, "a method of a class with slots")
    ctx.seen("special", n)
