"""Reference model of annotations of decorated functions, and workloads for them.

A node describes an annotation.  ``build`` gives the object a user writes; ``alts`` gives the
ways a value can satisfy it, each as a list of constraints (expression, size) on the symbols;
no way means the value mismatches.
"""
import collections
import collections.abc
import fractions
import functools
import itertools
import operator
import types
import typing

import numpy as np

import core
import gen
import ref
from ref import ELL, E, sym, num
from props import annots, exprs


class HArr(np.ndarray):
    """A hashable array, for sets and dictionary keys."""

    number = 0

    def __hash__(self):  # not by address: the order of sets has to be reproducible
        if "_hash" not in self.__dict__:
            HArr.number += 1
            self._hash = HArr.number
        return self._hash


class Env:
    """What a workload needs to know: framework, symbol lookup, configuration."""

    def __init__(self, fw, lookup, check_all=True, non_asta=False):
        self.fw, self.lookup, self.check_all, self.non_asta = fw, lookup, check_all, non_asta
        self.array_keys = True


def product(alts_list, cap=64):
    """All combinations of alternatives (concatenated), capped."""
    out = [[]]
    for alts in alts_list:
        out = [a + b for a in out for b in alts]
        if len(out) > cap:
            out = out[:cap]
    return out


def same_array(a, b):
    """Whether an array and anything are equal as arrays."""
    try:
        a, b = np.asarray(a), np.asarray(b)
    except Exception:  # pylint: disable=broad-except
        return False
    return a.shape == b.shape and all(x == y for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))


class Node:
    def children(self):
        return []

    def leaves(self):
        if isinstance(self, Leaf):
            return [self]
        return [x for c in self.children() for x in c.leaves()]


class Leaf(Node):
    """An array annotation."""

    def __init__(self, dtype, pat, attrs=None):
        self.dtype, self.pat, self.attrs = dtype, pat, attrs

    def __repr__(self):
        d = getattr(self.dtype, "__name__", str(self.dtype))
        a = f",{self.attrs}" if self.attrs is not None else ""
        return f"A[{d}|{ref.render(self.pat)}{a}]"

    def build(self, env, rng):
        attrs = None
        if self.attrs is not None:
            attrs = {k: v.build(env.lookup) if isinstance(v, E) else v for k, v in self.attrs.items()}
        return gen.subscript(rng, env.fw.T, self.pat, self.dtype, attrs, env.lookup)

    def alts(self, v, env):
        if not env.fw.is_value(v) or not env.fw.dtype_matches(self.dtype, v):
            return []
        extra = []
        for k, want in (self.attrs or {}).items():
            if not hasattr(v, k):
                return []
            if isinstance(want, E):
                if not isinstance(getattr(v, k), (int, float, complex, fractions.Fraction, np.number)):
                    return []
                extra.append((want, getattr(v, k)))
            elif isinstance(getattr(v, k), (np.ndarray, np.generic)) or isinstance(want, (np.ndarray, np.generic)):
                if not same_array(getattr(v, k), want):
                    return []
            elif getattr(v, k) != want:
                return []
        shp = tuple(int(x) for x in v.shape)
        if self.pat is None:
            return [extra]
        if not ref.has_expr(self.pat):
            return [extra] if ref.match(self.pat, shp) else []
        return [a + extra for a in ref.alignments(self.pat, shp)]

    def value(self, rng, env, values):
        pat = self.pat
        shp = []
        if pat is None:
            shp = list(gen.shape(rng, maxrank=3, big=0.05))
        else:
            for p in pat:
                if p is ELL:
                    shp += [rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 1, 2]))]
                elif isinstance(p, E):
                    v = min(int(p.ev(values)), 10**6)
                    shp.append(1 if v < 0 or v == 0 and rng.random() < 0.4 else v)
                elif p == -1:
                    shp.append(rng.choice([1, 2, 3, 7]))
                else:
                    shp.append(p)
        return env.fw.make(rng, fit(env, shp), env.fw.value_dtype(rng, self.dtype))


def fit(env, shp):
    limit = 20000 if env.fw.name != "Array" else 2 ** 40
    total, out = 1, []
    for s in map(abs, shp):
        if total * max(s, 1) > limit:
            s = s % 5 + 1
            if total * s > limit:
                s = 1
        total *= max(s, 1)
        out.append(s)
    return tuple(out)


class NoneNode(Node):
    def __repr__(self):
        return "None"

    def build(self, env, rng):
        return type(None)

    def alts(self, v, env):
        return [[]] if v is None else []

    def value(self, rng, env, values):
        return None


class AnyNode(Node):
    def __repr__(self):
        return "Any"

    def build(self, env, rng):
        return typing.Any

    def alts(self, v, env):
        return [[]]

    def value(self, rng, env, values):
        return rng.choice([None, 3, "x", np.zeros(2), [1], object()])


class Plain(Node):
    """A builtin or other non-asta type; checked only when asked for."""

    def __init__(self, ann, accepts, make, name):
        self.ann, self.accepts, self.make, self.name = ann, accepts, make, name

    def __repr__(self):
        return self.name

    def build(self, env, rng):
        return self.ann

    def alts(self, v, env):
        return [[]] if not env.non_asta or self.accepts(v) else []

    def value(self, rng, env, values):
        return self.make(rng)


STR = Plain(str, lambda v: isinstance(v, str), lambda r: r.choice(["a", "b", "c", ""]), "str")
INT = Plain(int, lambda v: isinstance(v, int), lambda r: r.choice([0, 1, 7]), "int")


class ListNode(Node):
    def __init__(self, elem, seq=False):
        self.elem, self.seq = elem, seq

    def children(self):
        return [self.elem]

    def __repr__(self):
        return f"{'Sequence' if self.seq else 'List'}[{self.elem!r}]"

    def build(self, env, rng):
        e = self.elem.build(env, rng)
        if self.seq:
            return rng.choice([typing.Sequence, collections.abc.Sequence])[e]
        return rng.choice([typing.List, list])[e]

    def alts(self, v, env):
        if not isinstance(v, collections.abc.Sequence if self.seq else list):
            return []
        items = list(v) if env.check_all else list(v)[:1]
        return product([self.elem.alts(x, env) for x in items])

    def value(self, rng, env, values):
        n = rng.choice([0, 1, 1, 2, 2, 3, 4])
        items = [self.elem.value(rng, env, values) for _ in range(n)]
        if self.seq:
            return rng.choice([list, tuple, MySeq, BareSeq, collections.deque])(items)
        return rng.choice([list, list, MyList])(items)


class MyStr(str):
    """A string of another class."""


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MyDict(dict):
    pass


class MySeq(collections.abc.Sequence):
    """A user-defined sequence."""

    def __init__(self, items):
        self.items = list(items)

    def __getitem__(self, i):
        return MySeq(self.items[i]) if isinstance(i, slice) else self.items[i]

    def __len__(self):
        return len(self.items)


class BareSeq(MySeq):
    """A sequence without slices."""

    def __getitem__(self, i):
        return self.items[i.__index__()]


SEQS = (list, tuple, MySeq, collections.deque)


class TupleNode(Node):
    """Fixed-length."""

    def __init__(self, elems):
        self.elems = elems

    def children(self):
        return self.elems

    def __repr__(self):
        return f"Tuple{self.elems!r}"

    def build(self, env, rng):
        base = rng.choice([typing.Tuple, tuple])
        if not self.elems:
            return base[()]
        return base[tuple(e.build(env, rng) for e in self.elems)]

    def alts(self, v, env):
        if not isinstance(v, tuple) or len(v) != len(self.elems):
            return []
        return product([e.alts(x, env) for e, x in zip(self.elems, v)])

    def value(self, rng, env, values):
        return rng.choice([tuple, tuple, MyTuple])(
            [e.value(rng, env, values) for e in self.elems])


class TupleVar(Node):
    def __init__(self, elem):
        self.elem = elem

    def children(self):
        return [self.elem]

    def __repr__(self):
        return f"Tuple[{self.elem!r},...]"

    def build(self, env, rng):
        return rng.choice([typing.Tuple, tuple])[self.elem.build(env, rng), ...]

    def alts(self, v, env):
        if not isinstance(v, tuple):
            return []
        return product([self.elem.alts(x, env) for x in v])

    def value(self, rng, env, values):
        return tuple(self.elem.value(rng, env, values) for _ in range(rng.choice([0, 1, 2, 3])))


class DictNode(Node):
    def __init__(self, key, val):
        self.key, self.val = key, val

    def children(self):
        return [self.key, self.val]

    def __repr__(self):
        return f"Dict[{self.key!r},{self.val!r}]"

    def build(self, env, rng):
        return rng.choice([typing.Dict, dict])[self.key.build(env, rng), self.val.build(env, rng)]

    def alts(self, v, env):
        if not isinstance(v, dict):
            return []
        return product([n.alts(x, env) for k, x_ in v.items()
                        for n, x in ((self.key, k), (self.val, x_))])

    def value(self, rng, env, values):
        out = {}
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            k = self.key.value(rng, env, values)
            out[hashable(k)] = self.val.value(rng, env, values)
        return rng.choice([dict, dict, MyDict, collections.OrderedDict])(out)


def hashable(v):
    if type(v) is not HArr and isinstance(v, np.ndarray):
        return np.asarray(v).view(HArr)
    if isinstance(v, list):
        return tuple(hashable(x) for x in v)
    if isinstance(v, tuple):
        return tuple(hashable(x) for x in v)
    return v


class SetNode(Node):
    abstract = False

    def __init__(self, elem):
        self.elem = elem

    def children(self):
        return [self.elem]

    def __repr__(self):
        return f"Set[{self.elem!r}]"

    def build(self, env, rng):
        kind = rng.choice([typing.Set, set, typing.Set, set, typing.AbstractSet, collections.abc.Set])
        self.abstract = kind in (typing.AbstractSet, collections.abc.Set)
        return kind[self.elem.build(env, rng)]

    def alts(self, v, env):
        if not isinstance(v, collections.abc.Set):
            return []
        return product([self.elem.alts(x, env) for x in v])

    def value(self, rng, env, values):
        items = [hashable(self.elem.value(rng, env, values)) for _ in range(rng.choice([0, 1, 2, 3]))]
        if self.abstract and rng.random() < 0.4:
            return dict.fromkeys(items).keys()
        return rng.choice([set, frozenset])(items)


class NTNode(Node):
    def __init__(self, names, elems, nondefault=0):
        self.names, self.elems, self.cls = names, elems, None

    def children(self):
        return self.elems

    def __repr__(self):
        return f"NamedTuple({dict(zip(self.names, self.elems))!r})"

    def build(self, env, rng):
        if self.cls is None:
            fields = [(n, e.build(env, rng)) for n, e in zip(self.names, self.elems)]
            self.cls = typing.NamedTuple("NT", fields)
        return self.cls

    def alts(self, v, env):
        if not isinstance(v, self.cls):
            return []
        return product([e.alts(x, env) for e, x in zip(self.elems, v)])

    def value(self, rng, env, values):
        cls = self.cls
        if rng.random() < 0.15:
            cls = type(rng.choice(["NT", "Derived"]), (cls,), {"__slots__": ()})
        return cls(*[e.value(rng, env, values) for e in self.elems])


class TDNode(Node):
    def __init__(self, names, elems, total):
        """``total`` may also be the set of required names."""
        self.names, self.elems, self.total, self.cls = names, elems, total, None
        self.required = set(total) if isinstance(total, (set, frozenset)) else set(names) if total else set()

    def children(self):
        return self.elems

    def __repr__(self):
        return f"TypedDict({dict(zip(self.names, self.elems))!r},total={self.total})"

    def build(self, env, rng):
        if self.cls is None:
            fields = {n: e.build(env, rng) for n, e in zip(self.names, self.elems)}
            self.cls = self.declare(fields, rng)
        return self.cls

    def declare(self, fields, rng):
        if isinstance(self.total, bool) and rng.random() < 0.8:
            return typing.TypedDict("TD", fields, total=self.total)
        total = rng.random() < 0.5
        if rng.random() < 0.5:  # marked one by one
            for n in fields:
                need = n in self.required
                if need != total or rng.random() < 0.2:
                    fields[n] = (typing.Required if need else typing.NotRequired)[fields[n]]
            return typing.TypedDict("TD", fields, total=total)
        first = {n: t for n, t in fields.items() if (n in self.required) == total}
        rest = {n: t for n, t in fields.items() if n not in first}
        base = typing.TypedDict("Base", first, total=total)
        return types.new_class("TD", (base,), {"total": not total}, lambda ns: ns.update(__annotations__=rest))

    def alts(self, v, env):
        if not isinstance(v, dict) or set(v) - set(self.names):
            return []
        if self.required - set(v):
            return []
        return product([e.alts(v[n], env) for n, e in zip(self.names, self.elems) if n in v])

    def value(self, rng, env, values):
        out = {n: e.value(rng, env, values) for n, e in zip(self.names, self.elems)
               if n in self.required or rng.random() < 0.7}
        items = list(out.items())
        rng.shuffle(items)
        return dict(items)


class UnionNode(Node):
    def __init__(self, elems, optional=False):
        self.elems, self.optional = elems, optional

    def children(self):
        return self.elems

    def __repr__(self):
        return ("Optional" if self.optional else "Union") + repr(self.elems)

    def build(self, env, rng):
        anns = [e.build(env, rng) for e in self.elems]
        if rng.random() < 0.3 and len(anns) + self.optional > 1:
            alts = anns + [None] * self.optional
            rng.shuffle(alts)
            try:
                return functools.reduce(operator.or_, alts)
            except TypeError:  # not everything supports the operator
                pass
        if self.optional:
            return typing.Optional[typing.Union[tuple(anns)]]
        return typing.Union[tuple(anns)]

    def alts(self, v, env):
        out = [a for e in self.elems for a in e.alts(v, env)]
        if self.optional and v is None:
            out.append([])
        return out

    def value(self, rng, env, values):
        if self.optional and rng.random() < 0.3:
            return None
        return rng.choice(self.elems).value(rng, env, values)


# -- verdicts ---------------------------------------------------------------------------------
def joint(alts_list, rng=None):
    """Three-valued: do the values together satisfy their annotations?"""
    combos = product(alts_list, cap=65)
    if not combos:
        return False
    if len(combos) > 64:
        return None
    verdicts = {ref.decide(c, rng) for c in combos}
    if len(verdicts) == 1:
        return verdicts.pop()
    return None


def hard(alts_list):
    return max((exprs.nasty(c) for c in product(alts_list, cap=16)), default=0) > 1


# -- generation -------------------------------------------------------------------------------
def leaf(rng, env, names=None, values=None, dtype=0.4, none_shape=0.1, attrs=0.0, expr=0.35,
         zero=0.06):
    """A random array annotation; symbols only from ``names``."""
    d = env.fw.ann_dtype(rng) if rng.random() < dtype else None
    r = rng.random()
    if r < none_shape:
        pat = None
    elif names and r < none_shape + 0.55:
        pat, _, _ = exprs.pattern(rng, names, rank=rng.choice([1, 1, 2, 2, 3]), values=values,
                                  bare=1 - expr)
    else:
        shp = tuple(s if s < 9 else s % 5 + 1 for s in gen.shape(rng, maxrank=3, zero=zero, big=0))
        pat = gen.pattern_from(rng, shp, ell=0.12, wild=0.2)
    if d is None and pat is None and rng.random() < 0.8:
        pat = [rng.choice([1, 2, 3])]
    a = None
    if rng.random() < attrs:
        a = dict(rng.choice([{"ndim": 1}, {"ndim": 2}, {"missing": 1}]))
        if env.fw.name == "Array" and names and rng.random() < 0.4:
            a = {rng.choice(["size", "ndim", "itemsize"]): sym(rng.choice(names))}
    return Leaf(d, pat, a)


FIELDS = ["alpha", "b", "count", "x1", "y_"]


def tree(rng, env, depth=2, names=None, values=None, unions=True, plain=True, **kw):
    """A random annotation over leaves."""
    r = rng.random()

    def sub():
        return tree(rng, env, depth - 1, names, values, unions, plain, **kw)

    if depth == 0 or r < 0.22:
        if plain and rng.random() < 0.08:
            return rng.choice([STR, INT, AnyNode(), NoneNode()])
        return leaf(rng, env, names, values, **kw)
    if r < 0.36:
        return ListNode(sub(), seq=rng.random() < 0.4)
    if r < 0.50:
        return TupleNode([sub() for _ in range(rng.choice([0, 1, 2, 2, 3]))])
    if r < 0.58:
        return TupleVar(sub())
    if r < 0.70:
        key = STR if env.fw.name != "Array" or not env.array_keys or rng.random() < 0.8 else leaf(rng, env, names, values)
        if key is STR and rng.random() < 0.2:
            key = INT
        return DictNode(key, sub())
    if r < 0.75 and env.fw.name == "Array":
        return SetNode(leaf(rng, env, names, values, **kw))
    if r < 0.82:
        k = rng.choice([1, 2, 3])
        return NTNode(rng.sample(FIELDS, k), [sub() for _ in range(k)])
    if r < 0.89:
        k = rng.choice([1, 2, 3])
        keys = rng.sample(FIELDS, k)
        total = rng.random() < 0.5 if rng.random() < 0.6 else {n for n in keys if rng.random() < 0.5}
        return TDNode(keys, [sub() for _ in range(k)], total)
    if unions:
        return UnionNode([sub() for _ in range(rng.choice([1, 2, 2, 3]))], rng.random() < 0.5)
    return sub()


ODD = [type(None), ..., NotImplemented, False, True, 0, "None", "", b"", (), [], {}, int, object, np.ndarray,
       typing.Any, range(2), np.float64(1)]


def mutate(rng, v, env):
    """A value close to ``v``: one thing changed somewhere inside."""
    if env.fw.is_value(v):
        r = rng.random()
        shp = tuple(int(x) for x in v.shape)
        if r < 0.65:
            s = exprs.perturb(rng, shp) if rng.random() < 0.6 else gen.mutate_shape(rng, shp)
            out = env.fw.make(rng, fit(env, s), env.fw.dtype_of(v))
        elif r < 0.85:
            out = env.fw.make(rng, shp, env.fw.value_dtype(rng, env.fw.ann_dtype(rng)))
        else:
            return rng.choice([None, 3, 2.5, "no", [v], (v,), {"a": v}, env.fw.alien(shp), [0.0] * 3]
                              + rng.sample(ODD, 3))
        return hashable(out) if isinstance(v, HArr) else out
    if isinstance(v, tuple) and hasattr(v, "_fields"):
        if rng.random() < 0.15:
            return tuple(v)
        if rng.random() < 0.15:  # looks the same, but is another class
            return collections.namedtuple(type(v).__name__, v._fields)(*v)
        i = rng.randrange(len(v))
        return type(v)(*[mutate(rng, x, env) if j == i else x for j, x in enumerate(v)])
    if isinstance(v, SEQS):
        items = list(v)
        r = rng.random()
        if items and r < 0.7:
            i = rng.randrange(len(items))
            items[i] = mutate(rng, items[i], env)
        elif items and r < 0.78:
            items.pop(rng.randrange(len(items)))
        elif items and r < 0.86:
            items.append(items[0])
        elif items and r < 0.9:
            return rng.choice([items[0], None])
        else:
            return rng.choice([list, tuple, lambda x: dict(enumerate(x)), lambda x: 5, iter, collections.deque,
                               collections.UserList, MySeq])(items)
        return type(v)(items)
    if isinstance(v, dict):
        items = dict(v)
        r = rng.random()
        if items and r < 0.1:  # another kind of key
            k = rng.choice(list(items))
            return {rng.choice([3, 0, None, b"a", (1,), 2.5, MyStr("k")]) if q is k else q: x for q, x in items.items()}
        if items and r < 0.65:
            k = rng.choice(list(items))
            items[k] = mutate(rng, items[k], env)
        elif items and r < 0.78:
            items.pop(rng.choice(list(items)))
        elif r < 0.9:
            items["extra"] = next(iter(items.values()), None)
        else:
            return rng.choice([list(items.values()), None, list(items.items()), collections.UserDict(items),
                               types.MappingProxyType(items), collections.ChainMap(items)])
        return items
    if isinstance(v, (set, frozenset)):
        items = list(v)
        if items and rng.random() < 0.7:
            i = rng.randrange(len(items))
            items[i] = hashable(mutate(rng, items[i], env))
            try:
                return type(v)(items)
            except TypeError:
                return None
        return rng.choice([items, tuple(items), None, dict.fromkeys(items, items[0] if items else 0).values()])
    return rng.choice([env.fw.make(rng, (2,), None), None, "other", 3, [v], rng.choice(ODD)])


def describe(v, depth=3):
    if isinstance(v, np.ndarray):
        return f"nd{v.shape}{v.dtype.str}"
    if isinstance(v, type):
        return repr(v)
    if hasattr(v, "shape") and hasattr(v, "dtype"):
        return f"t{tuple(v.shape)}{v.dtype}"
    if depth == 0:
        return "..."
    if isinstance(v, tuple) and hasattr(v, "_fields"):
        return f"NT({', '.join(describe(x, depth - 1) for x in v)})"
    if isinstance(v, SEQS + (set, frozenset)):
        return f"{type(v).__name__}({', '.join(describe(x, depth - 1) for x in v)})"
    if isinstance(v, dict):
        return f"dict({', '.join(describe(k, 1) + ':' + describe(x, depth - 1) for k, x in v.items())})"
    return core.short(v, 60)
