"""C22: attribute requirements are checked like dimensions."""
import collections
import fractions

from props.common import *
from props import calls, exprs, model

SYMS = ["X", "Y", "n"]


class Tagged(np.ndarray):
    """An array with attributes of its own."""

    fixed = "class attribute"
    level = 3
    unit = None

    @property
    def doubled(self):
        return 2 * self.ndim

    @property
    def broken(self):
        raise AttributeError("broken")

    def __getattr__(self, name):
        if name == "dynamic":
            return 7
        raise AttributeError(name)


class Unit:
    """Equal by value."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Unit) and self.n == other.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return f"Unit({self.n})"


Point = collections.namedtuple("Point", "x y")
MARK = object()
# Values of the attributes: groups of equal values.
GROUPS = [[1, 1.0, True, fractions.Fraction(1), np.int64(1), np.float32(1)], [0, 0.0, False, np.uint8(0)], [2, 2.0, np.float64(2)], [-1], [1.5],
          ["cpu"], ["cuda"], [""], [None], [(1, 2), Point(1, 2)], [(2, 1)], [()], [[1, 2]], [[]],
          [{"a": 1}], [{}], [Unit(1), Unit(1)], [Unit(2)], [int], [float], [MARK], [frozenset({1})],
          [float("inf")], [10 ** 20], [b"cpu"], ["fixed"], ["class attribute"], [7], ["1"], ["None"], ["CPU"], ["cpu "],
          ["[1, 2]"], ["(1, 2)"], ["1.5"], ["Unit(1)"], ["True"]]
NUMBERS = [[g for g in group if not isinstance(g, (bool, np.bool_))] for group in GROUPS]  # expressions against bools are open
ALL = GROUPS + [[np.array([1, 2]), np.array([1.0, 2.0])], [np.zeros((1, 2))], [np.str_("gpu"), "gpu"]]
OWN = ["tag", "units", "device_", "timestep", "requires_grad", "_hidden", "name2"]
BUILTIN = {"Array": ["ndim", "size", "itemsize", "nbytes"], "TFTensor": ["ndim"], "Tensor": ["ndim"]}
SPECIAL = ["fixed", "level", "unit", "doubled", "broken", "dynamic", "absent"]
OVERRIDDEN = ["fixed", "level", "unit", "dynamic"]  # attributes of the class, which instances may have as well


def alike(rng, want):
    """A value that resembles another one."""
    like = [np.zeros(2), np.int64(1), str(want), repr(want), [want], (want,), {want: want} if isinstance(want, str) else {0: want}]
    if isinstance(want, (np.ndarray, np.generic)):
        return rng.choice([0, 1, None, "cpu", [1, 2], [], np.zeros(2), np.int64(3), want.tolist()])
    if isinstance(want, str):
        like += [want.upper(), want + " ", want[:-1], want.encode()]
    if isinstance(want, (tuple, list)):
        like += [list(want), tuple(want), want[:-1], want[::-1]]
    if isinstance(want, (int, float)):
        like += [want + 1e-6, -want, complex(want), want + 10 ** 6]
    return rng.choice(like)


def plain_requirement(rng):
    return rng.choice(rng.choice([g for g in GROUPS if g]))


class AttrLeaf(model.Leaf):
    """A leaf with up to four required attributes, some of them symbolic."""

    def value(self, rng, env, values, bad=0.12):
        v = super().value(rng, env, values)
        return dress(rng, v, self.attrs, env, values, bad)


def dress(rng, v, attrs, env, values, bad):
    """Give a value the required attributes, or nearly."""
    if not any(k in OWN or k in SPECIAL for k in attrs or {}) and rng.random() < 0.7:
        return v
    if env.fw.name == "Array":
        v = np.asarray(v).view(Tagged)
    for k, want in (attrs or {}).items():
        if k in OVERRIDDEN and env.fw.name == "Array" and not isinstance(want, E):
            if rng.random() < 0.5:
                setattr(v, k, want if rng.random() < 0.7 else plain_requirement(rng))
            continue
        if k not in OWN or rng.random() < bad / 2:
            continue
        if isinstance(want, E):
            have = int(want.ev(values))
            if rng.random() < bad:
                have += rng.choice([1, -1, 2])
            have = max(have, 0)
            if rng.random() < 0.25:
                have = rng.choice([np.int64, np.int32, np.uint8])(have)
        else:
            have = want
            for group in GROUPS:
                if any(have is g for g in group):
                    have = rng.choice(group)
                    break
            if rng.random() < bad:
                have = plain_requirement(rng) if rng.random() < 0.5 else alike(rng, want)
            if rng.random() < bad / 2 and not isinstance(want, (tuple, list)):
                have = np.full(rng.choice([(2,), (0,), (1, 3), (2, 2)]), want if type(want) in (int, float) else 0)
        setattr(v, k, have)
    if rng.random() < 0.3:
        setattr(v, rng.choice(OWN + ["other"]), 5) if rng.random() < 0.3 else setattr(v, "other", 5)
    return v


def attrs_for(rng, env, symbolic, values):
    out = {}
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 4])):
        r = rng.random()
        if r < 0.2:
            k = rng.choice(BUILTIN[env.fw.name])
            if symbolic and rng.random() < 0.5:
                out[k] = sym(rng.choice(SYMS))
            else:
                out[k] = rng.choice([0, 1, 2, 2, 3, 6, 8])
        elif r < 0.35 and env.fw.name == "Array":
            k = rng.choice(SPECIAL + ["base", "real"])
            if k in ("base", "real"):
                out[k] = rng.choice([None, None, 3, "cpu"])
                continue
            if symbolic and k == "level" and rng.random() < 0.4:
                out[k] = sym(rng.choice(SYMS))
                continue
            out[k] = {"fixed": "class attribute", "dynamic": 7, "level": rng.choice([3, 4])}.get(k, rng.choice([2, 4])) \
                if rng.random() < 0.7 else plain_requirement(rng)
        else:
            k = rng.choice(OWN)
            if symbolic and k != "requires_grad" and rng.random() < 0.6:
                while True:
                    e = gen.expr(rng, SYMS, depth=rng.choice([0, 0, 1]))
                    if e.lin() is not None and e.ev(values) >= 0:
                        break
                out[k] = e
            else:
                out[k] = plain_requirement(rng)
    return out


def attr_leaf(rng, env, symbolic, values):
    if env.fw.name == "Tensor" or rng.random() < 0.6:
        base = model.leaf(rng, env, names=SYMS if symbolic else None, values=values, expr=0.15, dtype=0.35,
                          none_shape=0.3)
    else:
        base = model.Leaf(None, None)
    return AttrLeaf(base.dtype, base.pat, attrs_for(rng, env, symbolic, values))


def annotation(rng, env, symbolic, values):
    def sub():
        return attr_leaf(rng, env, symbolic, values)

    r = rng.random()
    if r < 0.6:
        return sub()
    if r < 0.7:
        return model.ListNode(sub())
    if r < 0.78:
        return model.DictNode(model.STR, sub())
    if r < 0.86:
        return model.TupleNode([sub(), sub()])
    if r < 0.93:
        return model.UnionNode([sub()], optional=True)
    return model.leaf(rng, env, names=SYMS if symbolic else None, values=values, expr=0.15)


def spell(rng, node, env):
    """One subscript or a chain of them."""
    T = env.fw.T
    attrs = {k: v.build(env.lookup) if isinstance(v, E) else v for k, v in node.attrs.items()}
    if rng.random() < 0.5:
        return node.build(env, rng)
    steps = []
    if node.dtype is not None or node.pat is not None:
        steps.append(lambda A: gen.subscript(rng, A, node.pat, node.dtype, None, env.lookup))
    steps.append(lambda A: A[attrs] if rng.random() < 0.7 or not (node.dtype or node.pat) else A[attrs])
    rng.shuffle(steps)
    for s in steps:
        T = s(T)
    return T


def show(v):
    own = {k: getattr(v, k) for k in OWN + ["other"] if hasattr(v, k)}
    return f"{model.describe(v)}{own}"


def run(ctx):
    (fw,) = frameworks(ctx)
    env = make_env(ctx, fw)
    from asta import typechecked

    for rng in ctx.cases(scale(ctx, 150 if has_tf(ctx) else 900), "isinstance"):
        values = {k: rng.choice([1, 2, 3]) for k in SYMS}
        GROUPS[:] = ALL
        node = attr_leaf(rng, env, False, values)
        got = core.run(spell, rng, node, env)
        if not ctx.check(got.ok, "an annotation with attributes was refused", node=node, got=got):
            continue
        T = got.value
        for _ in range(4):
            v = node.value(rng, env, values, bad=0.3)
            if rng.random() < 0.25:
                v = model.mutate(rng, v, env)
                if env.fw.is_value(v):
                    v = dress(rng, v, node.attrs, env, values, 0.1)
            want = bool(node.alts(v, env))
            out = probe(v, T)
            ctx.check(out.ok and out.value is want, "isinstance is wrong about attributes", node=node,
                      value=show(v), want=want, got=out)
            ctx.event(f"isinstance-{want}")
            ctx.event(f"attributes-{len(node.attrs)}")
            if not want and model.Leaf(node.dtype, node.pat).alts(v, env):
                ctx.event("refused-for-attributes")
            ctx.seen(repr(node), show(v), want)
    for rng in ctx.cases(scale(ctx, 100 if has_tf(ctx) else 700), "calls"):
        values = {k: rng.choice([1, 1, 2, 2, 3, 4]) for k in SYMS}
        GROUPS[:] = NUMBERS
        symbolic = rng.random() < 0.75
        f = calls.random_function(rng, env, lambda r: annotation(r, env, symbolic, values), ret=0.6, defaults=0.1)
        got = core.run(f.namespace, env, rng)
        if not ctx.check(got.ok, "an annotation with attributes was refused", function=f, got=got):
            continue
        calls.with_defaults(f, rng, env, values, bad=0.1)
        f.make(env, rng, typechecked)
        for _ in range(3):
            mine = values if rng.random() < 0.7 else {k: rng.choice([1, 2, 3]) for k in SYMS}
            args, kwargs = calls.arguments(f, rng, env, mine, bad=0.15, misfit=0)
            ret = calls.result(f, rng, env, mine, bad=0.1)
            want = f.verdict(args, kwargs, ret, env)
            calls.judge(ctx, f, args, kwargs, ret, env, want, label="attributes")
            if any(isinstance(x, E) for p in f.params for n in p.node.leaves() for x in (n.attrs or {}).values()):
                ctx.event("symbolic")
            ctx.seen(repr(f), want, [show(a) for a in args])
        ctx.sample(f)
    # A symbolic attribute of something that is no number.
    for rng in ctx.cases(scale(ctx, 120), "no number"):
        from asta import symbols

        ran = []

        def g(x: fw.T[{"tag": symbols.X}]) -> fw.T:
            ran.append(1)
            return x

        v = fw.make(rng, (2,), None)
        if fw.name == "Array":
            v = v.view(Tagged)
        v.tag = rng.choice(["cpu", "1", "X", None, (1,), {}, MARK, [2], int, len, b"2", np.zeros(2), {2}])
        out = probe(v, fw.T[{"tag": symbols.X}])
        ctx.check(out.ok and out.value is False, "isinstance: an attribute that is no number matched an expression",
                  tag=v.tag, got=out)
        out = core.run(typechecked(g), v)
        ctx.check(isinstance(out.exc, TypeError) and not ran, "an attribute that is no number matched an expression",
                  tag=v.tag, got=out)
        ctx.event("no-number")
