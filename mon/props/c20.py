"""C20: verdicts do not depend on what was checked before.

A question is one isinstance check or one decorated call.  Each is asked first thing in a fresh
process, and many times in the middle of long histories of other work; all answers must agree.
"""
import gc
import random
import typing

from props.common import *
from props import calls, exprs, forked, model
from props.c11 import ShLeaf, shleaf

SYMS = ["X", "Y", "Z", "n"]


class Shapes(ShLeaf):
    """A shape with shape placeholders, and values for it."""

    def __init__(self, leaf, vals):
        super().__init__(leaf.dtype, leaf.items)
        self.vals = vals

    def value(self, rng, env, values):
        return self.resolve(self.vals).value(rng, env, values)

    def alts(self, v, env):
        return self.resolve(self.vals).alts(v, env)


class Question:
    """``seed`` decides about the annotation or function, ``variant`` about the values it is asked
    with; questions with the same seed use one annotation or function if ``family`` is given."""

    def __init__(self, seed, env, variant=0, family=None):
        self.env = env
        self.seed = seed
        model.HArr.number = 0
        rng = random.Random(seed)
        self.kind = rng.choice(["isinstance", "isinstance", "call", "call", "call", "call", "inplace",
                                "container"])
        self.ph = {n: rng.choice([1, 2, 3, 4]) for n in env.PHS}
        self.shp = {n: tuple(rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 2]))) for n in self.env.SHP}
        self.syms = {n: rng.choice([1, 2, 3, 4]) for n in SYMS}
        self.values = {**self.syms, **self.ph, "never": 2}
        shared = None if family is None else family.get(seed)
        if shared is None:
            getattr(self, "init_" + self.kind)(rng)
            shared = {k: v for k, v in self.__dict__.items() if k in ("node", "kept", "f", "leaves", "array", "k")}
            if family is not None:
                family[seed] = shared
        else:
            self.__dict__.update(shared)
        variant, self.twin = variant if isinstance(variant, tuple) else (variant, None)
        rng = random.Random(f"{seed}/{variant}")
        if rng.random() < 0.5:
            self.values = {**self.values, **{n: rng.choice([1, 2, 3, 4]) for n in SYMS}}
        if self.twin is not None and random.Random(f"{seed}/{self.twin}").random() < 0.2:
            # The same arguments with other placeholder values.
            other = random.Random(f"{seed}/{self.twin}/placeholders")
            self.ph = {n: v + other.choice([0, 0, 1]) for n, v in self.ph.items()}
            self.shp = {n: tuple(x + other.choice([0, 1]) for x in v) for n, v in self.shp.items()}
            self.twin = None
        getattr(self, "ask_" + self.kind)(rng)
        self.depth = 0

    def nearly(self, what):
        """For a twin: what differs in one respect from what its partner is asked with."""
        if self.twin is None:
            return what
        return subtle(random.Random(f"{self.seed}/{self.twin}"), what, self.env)

    def leaf(self, rng, names):
        return model.leaf(rng, self.env, names=names, values=self.values, expr=0.2, attrs=0.05)

    def init_isinstance(self, rng):
        self.node = self.leaf(rng, SYMS)
        self.node.attrs = None if rng.random() < 0.8 else {"ndim": 2}
        self.kept = self.node.build(self.env, random.Random(self.seed))

    def ask_isinstance(self, rng):
        v = self.node.value(rng, self.env, self.values)
        if rng.random() < 0.5:
            v = model.mutate(rng, v, self.env)
        self.value = self.nearly(v)

    FACTORS = {6: [(6,), (2, 3), (3, 2), (6, 1), (1, 6), (1, 2, 3)],
               12: [(12,), (3, 4), (4, 3), (2, 6), (2, 2, 3), (1, 12)]}

    def init_inplace(self, rng):
        """One array whose shape changes between the checks: asked with its shape as given."""
        self.k = rng.choice([6, 12])
        self.array = np.zeros(self.k)
        pat = list(rng.choice(self.FACTORS[self.k]))
        if rng.random() < 0.5:
            pat[rng.randrange(len(pat))] = rng.choice([sym("X"), -1, -1, -2, ELL])
        self.node = model.Leaf(None, pat)
        self.kept = self.node.build(self.env, random.Random(self.seed))

    def ask_inplace(self, rng):
        self.shape, self.other = rng.sample(self.FACTORS[self.k], 2)

    def init_container(self, rng):
        self.leaves = [self.leaf(rng, SYMS) for _ in range(2)]
        inner = model.UnionNode(self.leaves, rng.random() < 0.5) if rng.random() < 0.5 else self.leaves[0]
        self.node = rng.choice([lambda: model.ListNode(inner), lambda: model.TupleVar(inner),
                                lambda: model.DictNode(model.STR, inner),
                                lambda: model.UnionNode([model.ListNode(inner), inner])])()

    def ask_container(self, rng):
        v = self.node.value(rng, self.env, self.values)
        self.value = self.nearly(model.mutate(rng, v, self.env) if rng.random() < 0.5 else v)

    def init_call(self, rng):
        names = SYMS + self.env.PHS
        env = self.env
        if rng.random() < 0.15:
            names = names + ["never"]  # a placeholder without a value
        shp = rng.random() < 0.35
        shp_names = env.SHP + (["NEVER_SHP"] if rng.random() < 0.2 else [])
        while True:
            def node(r):
                if shp and r.random() < 0.6:
                    return Shapes(shleaf(r, env, shp_names, SYMS), {**self.shp, "NEVER_SHP": (2,)})
                return model.tree(r, env, depth=r.choice([0, 0, 1, 1, 2]), names=names, values=self.values,
                                  expr=0.1, attrs=0.03, unions=r.random() < 0.4)
            f = calls.random_function(rng, env, node, ret=0.6, defaults=0.2)
            if not core.run(f.namespace, env, rng).ok:
                continue
            calls.with_defaults(f, rng, env, self.values, bad=0.05)
            break
        self.f = f
        from asta import typechecked

        f.make(env, random.Random(self.seed), typechecked)

    def ask_call(self, rng):
        f, env = self.f, self.env
        self.args, self.kwargs = calls.arguments(f, rng, env, self.values, bad=0.3, misfit=0.05)
        self.ret = calls.result(f, rng, env, self.values, bad=0.3)
        self.exc = ValueError("body") if rng.random() < 0.12 else None
        if self.twin is not None:
            spots = [("a", i) for i in range(len(self.args))] + [("k", k) for k in self.kwargs] + [("r", 0)]
            where, k = random.Random(f"{self.seed}/{self.twin}/spot").choice(spots)
            if where == "a":
                self.args = tuple(self.nearly(a) if i == k else a for i, a in enumerate(self.args))
            elif where == "k":
                self.kwargs = {n: self.nearly(a) if n == k else a for n, a in self.kwargs.items()}
            else:
                self.ret = self.nearly(self.ret)
        alts = []
        bound = f.bind(self.args, self.kwargs)
        if bound is not None:
            nodes = f.checks(bound) + ([("return", f.ret_node, self.ret)] if f.ret_node else [])
            alts = [n.alts(v, Resolve(env)) for _, n, v in nodes]
        self.hard = bool(alts) and all(alts) and calls.hard(alts)

    def body(self, seen):
        self.runs += 1
        if self.inside is not None:
            self.inside()
        if self.exc is not None:
            raise self.exc
        return self.ret

    def ask(self, rng, inside=None):
        """The answer; ``rng`` only chooses among equivalent ways to ask."""
        from asta import dims, shapes, typechecked

        before = {n: getattr(dims, n) for n in self.env.PHS}
        before_shp = {n: getattr(shapes, n) for n in self.env.SHP}
        for n, v in self.ph.items():
            setattr(dims, n, v)
        for n, v in self.shp.items():
            setattr(shapes, n, v)
        try:
            if self.kind in ("isinstance", "inplace"):
                T = self.kept
                if rng.random() < 0.5:
                    T = self.node.build(self.env, random.Random(self.seed))
                value = self.shaped() if self.kind == "inplace" else self.value
                got = core.run(isinstance, value, T)
                return [got.value if got.ok else type(got.exc).__name__]
            if self.kind == "container":
                T = self.node.build(self.env, random.Random(self.seed + "again"))

                def f(p):
                    if inside is not None:
                        inside()
                    return 1
                f.__annotations__ = {"p": T}
                got = core.run(typechecked(f), self.value)
                return ["ok" if got.ok else type(got.exc).__name__]
            self.runs, self.inside = 0, inside
            fn = self.f.decorated
            if rng.random() < 0.25:
                fn = typechecked(self.f.original)
            outer = self.f.rec.__dict__.get("body")
            self.f.rec.body = self.body
            got = core.run(fn, *self.args, **self.kwargs)
            self.f.rec.body = outer
            self.inside = None
            return [("ok" if got.value is self.ret else "other result") if got.ok else type(got.exc).__name__,
                    self.runs]
        finally:
            for n, v in before.items():
                if isinstance(v, int):
                    setattr(dims, n, v)
            for n, v in before_shp.items():
                if isinstance(v, tuple):
                    setattr(shapes, n, v)

    def shaped(self):
        a = self.array
        a.shape = self.shape
        return a

    def unshape(self):
        if hasattr(self, "array"):
            self.array.shape = self.other


def subtle(rng, v, env):
    """A value which differs from ``v`` in one respect that a careless memory would not notice."""
    if env.fw.is_value(v):
        shp = tuple(int(x) for x in v.shape)
        r = rng.random()
        if r < 0.6:  # the same shape, another dtype
            out = env.fw.make(rng, shp, env.fw.value_dtype(rng, env.fw.ann_dtype(rng)))
        elif r < 0.8:  # the same number of elements and dimensions
            out = env.fw.make(rng, shp[::-1], env.fw.dtype_of(v))
        elif r < 0.9:  # the same shape and dtype of something else
            return env.fw.alien(shp)
        else:  # another last size
            out = env.fw.make(rng, shp[:-1] + tuple(x + 1 for x in shp[-1:]), env.fw.dtype_of(v))
        return model.hashable(out) if isinstance(v, model.HArr) else out
    if isinstance(v, tuple) and hasattr(v, "_fields") and len(v):
        i = rng.randrange(len(v))
        return type(v)(*[subtle(rng, x, env) if j == i else x for j, x in enumerate(v)])
    if isinstance(v, (list, tuple)) and v:
        if rng.random() < 0.2:
            return (tuple if isinstance(v, list) else list)(v)
        i = rng.randrange(len(v))
        return type(v)([subtle(rng, x, env) if j == i else x for j, x in enumerate(v)])
    if isinstance(v, dict) and v:
        k = rng.choice(list(v))
        return {n: subtle(rng, x, env) if n is k else x for n, x in v.items()}
    return model.mutate(rng, v, env)


class Resolve:
    """The environment with the placeholders as they will be: only used to judge hardness."""

    def __init__(self, env):
        self.__dict__.update(env.__dict__)


def noise(rng, env, questions, stats):
    """Something else that uses asta."""
    from asta import dims, shapes, symbols, typechecked

    T = env.fw.T
    stats["noise"] = stats.get("noise", 0) + 1
    r = rng.randrange(9)
    if r == 0:  # a failing subscript
        core.run(lambda: T[..., ...])
        core.run(lambda: T[1.5, symbols.X])
    elif r == 1:
        leaf = model.leaf(rng, env, names=SYMS, values=dict.fromkeys(SYMS, 2))
        ann = core.run(leaf.build, env, rng)
        if ann.ok:
            core.run(lambda: (repr(ann.value), hash(ann.value), ann.value == T, typing.List[ann.value],
                              typing.Optional[ann.value], ann.value[2], ann.value[{"ndim": 1}]))
    elif r == 2:
        class C:
            def m(self, x: T[symbols.X], y: typing.Union[T[2], T[3]]) -> T[symbols.X]:
                return x
        typechecked(C)
        core.run(C().m, env.fw.make(rng, (rng.choice([1, 2]),), None), env.fw.make(rng, (rng.choice([2, 4]),), None))
    elif r == 3:
        gc.collect()
        for _ in range(20):  # short-lived annotations and values: addresses get reused
            core.run(isinstance, env.fw.make(rng, (rng.choice([1, 2, 3]),), None), T[rng.choice([1, 2, 3])])
    elif r == 4:
        rng.choice(questions).__dict__.get("array") is not None and rng.choice(questions).unshape()
    elif r == 5:
        setattr(dims, rng.choice(env.PHS), rng.choice([1, 2, 5]))
        setattr(shapes, rng.choice(env.SHP), rng.choice([(), (2,), (3, 4)]))
    elif r == 6:
        def bad(x: T[2], y) -> T:
            return x
        core.run(typechecked(bad), 1, 2)

        def boom(x: typing.Union[T[3], typing.List[T[2]]]) -> T:
            raise KeyboardInterrupt()
        try:
            core.run(typechecked(boom), env.fw.make(rng, (3,), None))
        except KeyboardInterrupt:
            pass
    elif r == 7:
        s = getattr(shapes, rng.choice(env.SHP))
        core.run(lambda: (tuple(s) + (2,), s + (1,), [*s]))
    else:
        for q in questions:
            q.unshape()


def keys_for(seed, n):
    """Some of the questions are about the same annotation or function, and some of these differ
    from another one (their partner) in one respect only."""
    rng = random.Random(seed + ":families")
    keys = []
    for i in range(n):
        firsts = [k for k in keys if not isinstance(k[1], tuple)]
        if firsts and rng.random() < 0.4:
            base, j = rng.choice(firsts)
            keys.append((base, (j, f"twin{i}")))
        else:
            keys.append((f"{seed}:{rng.randrange(i + 1) if rng.random() < 0.6 else i}", i))
    return keys


def partners_for(seed, n):
    """For each question those which differ from it in one respect."""
    keys = keys_for(seed, n)
    first = lambda k: (k[0], k[1][0] if isinstance(k[1], tuple) else k[1])
    return [[j for j in range(n) if j != i and first(keys[j]) == first(keys[i])] for i in range(n)]


def questions_for(seed, env, n):
    family = {}
    return [Question(base, env, i, family) for base, i in keys_for(seed, n)]


def history(seed, env, qs, length):
    rng = random.Random(seed + ":history")
    n = len(qs)
    partners = partners_for(seed, n)
    answers = {i: [] for i in range(n)}
    stats = {}

    def ask(i, depth):
        q = qs[i]
        if getattr(q, "hard", False):
            return
        inside = None
        if depth < 2 and rng.random() < 0.35 and q.kind in ("call", "container"):
            others = [j for j in range(n) if qs[j] is not q and qs[j].depth == 0]
            if others:
                j = rng.choice(others)

                def inside():
                    stats["nested"] = stats.get("nested", 0) + 1
                    ask(j, depth + 1)
        q.depth += 1
        try:
            answers[i].append(q.ask(rng, inside) + [depth])
        finally:
            q.depth -= 1
        stats["asked"] = stats.get("asked", 0) + 1

    for _ in range(length):
        if rng.random() < 0.4:
            noise(rng, env, qs, stats)
        else:
            i = rng.randrange(n)
            ask(i, 0)
            if partners[i] and rng.random() < 0.6:
                ask(rng.choice(partners[i]), 0)
                stats["partners"] = stats.get("partners", 0) + 1
            if rng.random() < 0.2:
                ask(rng.randrange(n), 0)
    for i in range(n):
        ask(i, 0)
    return {"answers": answers, "stats": stats, "kinds": [q.kind for q in qs]}


def pristine(q):
    if getattr(q, "hard", False):
        return {"answer": None}
    return {"answer": q.ask(random.Random(0))}


def run(ctx):
    from asta import dims, symbols  # noqa: F401

    (fw,) = frameworks(ctx)
    env = make_env(ctx, fw)
    env.lookup = lambda name: getattr(dims if name in env.PHS else symbols, name)
    env.PHS, env.SHP = ["B", "D", "hidden"], ["SHP", "REST"]
    forks = not has_tf(ctx)
    n, number = 9, 0
    for rng in ctx.cases(scale(ctx, 18 * ctx.nshards if forks else 8), "history"):
        seed = str(rng.random())
        length = rng.choice([20, 40, 80, 160])
        if forks:
            got = forked.child(lambda: history(seed, env, questions_for(seed, env, n), length))
            alone = [forked.child(lambda k=k: pristine(Question(k[0], env, k[1]))) for k in keys_for(seed, n)]
        else:
            # No fresh process: other placeholders for each case, unset while its questions are built.
            k = f"{ctx.shard}_{number}"
            number += 1
            env.PHS, env.SHP = [f"B{k}", f"D{k}", f"hidden{k}"], [f"SHP{k}", f"REST{k}"]
            qs = questions_for(seed, env, n)
            single = [Question(base, env, i) for base, i in keys_for(seed, n)]
            if rng.random() < 0.5:
                alone = [pristine(q) for q in single]
                got = history(seed, env, qs, length)
            else:
                got = history(seed, env, qs, length)
                alone = [pristine(q) for q in single]
        if not ctx.check("crash" not in got and not any("crash" in a for a in alone),
                         "asking a question failed", got=got.get("crash"), alone=[a.get("crash") for a in alone]):
            continue
        for i in range(n):
            want = alone[i]["answer"]
            if want is None:
                ctx.event("skipped-hard-system")
                continue
            for k, a in enumerate(got["answers"][i] if i in got["answers"] else got["answers"][str(i)]):
                ctx.check(a[:-1] == want, "an answer depends on the history", question=i, asked=k,
                          kind=got["kinds"][i], alone=want, got=a)
                if a[-1]:
                    ctx.event("answers-inside-calls")
            ctx.event(f"{got['kinds'][i]}-{want[0]}")
            ctx.seen(seed, i)
        for k, v in got["stats"].items():
            ctx.event(k, v)
        ctx.sample(f"history of {length}: {got['stats']}")
