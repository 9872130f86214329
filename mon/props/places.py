"""Dimension and shape placeholders: substitution in the reference model."""
import copy
import threading
from fractions import Fraction

from ref import ELL, E, sym, num
from props import model


def in_thread(fn):
    """``fn``, run in a thread of its own."""
    def run(*args, **kwargs):
        box = []

        def target():
            try:
                box.append((True, fn(*args, **kwargs)))
            except BaseException as exc:  # pylint: disable=broad-except
                box.append((False, exc))
        t = threading.Thread(target=target)
        t.start()
        t.join()
        ok, value = box.pop()
        if not ok:
            raise value
        return value
    return run


class Never(model.Node):
    """What nothing satisfies: a placeholder without a value, or a size that is no integer."""

    def __repr__(self):
        return "Never"

    def alts(self, v, env):
        return []


def map_leaves(node, fn):
    """A copy of an annotation tree with every leaf replaced."""
    if isinstance(node, model.Leaf):
        return fn(node)
    out = copy.copy(node)
    for attr in ("elem", "key", "val"):
        if hasattr(out, attr):
            setattr(out, attr, map_leaves(getattr(out, attr), fn))
    if hasattr(out, "elems"):
        out.elems = [map_leaves(x, fn) for x in out.elems]
    return out


def set_dims(pat, values, names):
    """Replace the dims placeholders of a pattern; None if some have no usable value."""
    if pat is None:
        return pat
    out = []
    for p in pat:
        if isinstance(p, E):
            if p.vars() & set(names) - set(values):
                return None
            p = p.substitute({n: values[n] for n in p.vars() if n in values})
            if not p.vars():
                v = Fraction(p.ev({}))
                if v.denominator != 1:
                    return None
                p = int(v)
        out.append(p)
    return out


def with_dims(node, values, names):
    def one(leaf):
        pat = set_dims(leaf.pat, values, names)
        if pat is None and leaf.pat is not None:
            return Never()
        return model.Leaf(leaf.dtype, pat, leaf.attrs)

    return map_leaves(node, one)


class Resolved:
    """A function's annotations as they are in effect at one call."""

    def __init__(self, f, resolve):
        self.f, self.resolve = f, resolve

    def verdict(self, args, kwargs, ret, env):
        f = self.f
        saved = [p.node for p in f.params], f.ret_node
        try:
            for p in f.params:
                p.node = self.resolve(p.node)
            if f.ret_node is not None:
                f.ret_node = self.resolve(f.ret_node)
            return f.verdict(args, kwargs, ret, env)
        finally:
            for p, n in zip(f.params, saved[0]):
                p.node = n
            f.ret_node = saved[1]


def set_value(rng, module_name, obj, name, value):
    """Store a placeholder value in one of the ways a program can."""
    import sys
    import threading

    how = rng.choice(["attr", "setattr", "module", "thread", "exec", "from"])
    if how == "attr":
        setattr(obj, name, value)
    elif how == "setattr":
        obj.__setattr__(name, value)
    elif how == "module":
        setattr(sys.modules["asta." + module_name], name, value)
    elif how == "thread":
        t = threading.Thread(target=setattr, args=(obj, name, value))
        t.start()
        t.join()
    elif how == "exec":
        exec(f"import asta.{module_name} as m\nm.{name} = value", {"value": value})
    else:
        exec(f"from asta import {module_name}\n{module_name}.{name} = value", {"value": value})
    return how


# Names which mean something elsewhere (sympy, Python, the implementation).
SPECIAL = ["E", "pi", "I", "S", "N", "O", "Q", "oo", "zoo", "nan", "beta", "gamma", "zeta", "Symbol", "Expr",
           "shape", "name", "data", "values", "items", "keys", "get", "copy", "self", "_x", "x1", "X_1", "a_b_c",
           "αβ", "größe", "symbols", "shapes", "dims", "Any", "Dict", "Dimensions", "Shapes", "Placeholder",
           "symbol", "value", "sys", "int", "None_", "true", "Ellipsis", "Integer", "Add", "contents", "unpacked",
           "composite", "match", "case", "type", "id", "batch", "B", "T0", "class_", "lambda_", "list", "tuple"]


def fresh_names(ctx, rng, k, bases):
    """Names no case before has used: a placeholder cannot be unset again."""
    index = ctx.case["index"]
    names = [f"{b}_{index}" for b in rng.sample(bases, k)]
    if ctx.prop in ("C10", "C11") and index % 3 == 0 and index // 3 < len(SPECIAL):
        names[0] = SPECIAL[(index // 3 + 7 * ctx.seed) % len(SPECIAL)]
        ctx.event("special-names")
    return names
