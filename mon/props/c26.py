"""C26: checking neither modifies nor retains values."""
import collections
import gc
import threading
import typing
import weakref

from props.common import *
from props import calls, model
from props.model import MyDict, MyList, MySeq

SYMS = ["X", "Y", "n"]
ATOMS = (int, str, float, bool, bytes, type(None), complex, type)


class Count(np.ndarray):
    """An array with attributes of its own, which notices being written to."""

    writes = 0

    def __setitem__(self, k, v):
        Count.writes += 1
        super().__setitem__(k, v)

    def __setattr__(self, k, v):
        Count.writes += 1
        super().__setattr__(k, v)


class Once:
    """An iterator which counts how far it was used."""

    def __init__(self, items):
        self.items, self.used = list(items), 0

    def __iter__(self):
        return self

    def __next__(self):
        self.used += 1
        return self.items.pop()


class Factory:
    def __init__(self, value):
        self.value = value

    def __call__(self):
        return self.value


def parts(v, out=None):
    """Every object inside a value, itself included, once."""
    out = {} if out is None else out
    if isinstance(v, ATOMS) or id(v) in out:
        return out
    out[id(v)] = v
    if isinstance(v, dict):
        for k, x in v.items():
            parts(k, out)
            parts(x, out)
    elif isinstance(v, (list, tuple, set, frozenset, collections.deque)):
        for x in v:
            parts(x, out)
    elif isinstance(v, MySeq):
        parts(v.items, out)
    elif isinstance(v, Once):
        parts(v.items, out)
    return out


def state(v, fw):
    """Everything there is to see of one object, contained objects by identity."""
    kind = type(v)
    own = getattr(v, "__dict__", None)
    if isinstance(v, np.ndarray):
        if isinstance(v, np.ma.MaskedArray):  # its own caches: the fill value is made on demand
            own = None
        own = None if own is None else {k: id(x) for k, x in own.items()}
        data = v.tobytes() if v.nbytes < 4096 else b""
        return (kind, v.shape, v.strides, v.dtype.str, str(v.flags), data, id(v.base), own,
                v.__array_interface__["data"])
    if fw.is_value(v):
        extra = repr(v.numpy()) if hasattr(v, "numpy") else None
        return kind, tuple(v.shape), str(v.dtype), extra
    if isinstance(v, dict):
        return kind, [(id(k), id(x)) for k, x in v.items()], getattr(v, "default_factory", None)
    if isinstance(v, (list, tuple, collections.deque)):
        return kind, [id(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return kind, [id(x) for x in v]
    if isinstance(v, Once):
        return kind, v.used, len(v.items)
    if isinstance(v, MySeq):
        return kind, id(v.items)
    return kind, None if own is None else {k: id(x) for k, x in own.items()}


class Snapshot:
    def __init__(self, values, fw):
        self.objs = list(parts(values).values())
        self.fw = fw
        self.states = [state(v, fw) for v in self.objs]

    def changed(self):
        for v, s in zip(self.objs, self.states):
            if state(v, self.fw) != s:
                return f"{model.describe(v)}: {s!r} became {state(v, self.fw)!r}"
        return None


def counts(objs):
    return [sys.getrefcount(v) for v in objs]


def vary(rng, v, fw):
    """Other kinds of the same containers and arrays, some of which notice being used."""
    if isinstance(v, tuple) and hasattr(v, "_fields"):
        return v
    if type(v) is list:
        items = [vary(rng, x, fw) for x in v]
        r = rng.random()
        return MyList(items) if r < 0.3 else items if r < 0.95 else Once(items)
    if type(v) is dict:
        items = {k: vary(rng, x, fw) for k, x in v.items()}
        r = rng.random()
        if r < 0.3 and items:
            return collections.defaultdict(Factory(next(iter(items.values()))), items)
        return MyDict(items) if r < 0.6 else items
    if type(v) is np.ndarray and rng.random() < 0.3 and v.ndim and v.nbytes < 10 ** 6:
        out = np.array(v).view(Count)
        out.tag = [1]
        return out
    return v


def drop_key(rng, v):
    """A defaultdict without one of its keys (reading the key would put it back)."""
    if isinstance(v, collections.defaultdict) and v and rng.random() < 0.4:
        v.pop(rng.choice(list(v)))
    elif isinstance(v, (list, tuple)):
        for x in v:
            drop_key(rng, x)
    return v


def leaf_or_tree(rng, env, values):
    if rng.random() < 0.15:
        ks = rng.sample(model.FIELDS, rng.choice([1, 2, 3]))
        return model.TDNode(ks, [model.leaf(rng, env, SYMS, values) for _ in ks], rng.random() < 0.7)
    return model.tree(rng, env, depth=rng.choice([0, 0, 1, 1, 2]), names=SYMS, values=values, expr=0.02,
                      attrs=0.05, unions=rng.random() < 0.4)


def weakable(objs):
    out = []
    for v in objs:
        try:
            out.append(weakref.ref(v))
        except TypeError:
            pass
    return out


def outcome_of(got):
    return "passed" if got.exc is None else type(got.exc).__name__


class Case:
    """A function, and a way to make arguments for it that nothing else holds."""

    def __init__(self, rng, env, typechecked):
        self.env = env
        self.values = {k: rng.choice([1, 2, 3]) for k in SYMS}
        while True:
            self.f = calls.random_function(rng, env, lambda r: leaf_or_tree(r, env, self.values), ret=0.6,
                                           defaults=0.15)
            if core.run(self.f.namespace, env, rng).ok:
                break
        calls.with_defaults(self.f, rng, env, self.values, bad=0.05)
        self.f.make(env, rng, typechecked)

    def fresh(self, rng):
        env, f = self.env, self.f
        while True:
            args, kwargs = calls.arguments(f, rng, env, self.values, bad=0.3, misfit=0.05)
            ret = calls.result(f, rng, env, self.values, bad=0.25)
            args = tuple(drop_key(rng, vary(rng, a, env.fw)) for a in args)
            kwargs = {k: drop_key(rng, vary(rng, a, env.fw)) for k, a in kwargs.items()}
            bound = f.bind(args, kwargs)
            f.twin.calls.clear()
            if bound is not None:
                alts = [n.alts(v, env) for _, n, v in f.checks(bound)]
                if f.ret_node is not None:
                    alts.append(f.ret_node.alts(ret, env))
                if all(alts) and model.hard(alts):
                    self.values = {k: 1 for k in SYMS}
                    continue
            return args, kwargs, ret

    def held(self):
        """Objects the function holds by itself."""
        out = {}
        for p in self.f.params:
            if p.default is not None:
                parts(p.default[0], out)
        return out

    def call(self, args, kwargs, ret, exc=None):
        rec = self.f.rec
        rec.calls.clear()
        rec.ret, rec.exc = ret, exc
        got = core.run(self.f.decorated, *args, **kwargs)
        how = outcome_of(got) if exc is None or got.exc is not exc else "raised"
        if exc is not None:  # which this monitor goes on holding
            exc.__traceback__ = exc.__context__ = exc.__cause__ = None
        rec.calls.clear()
        rec.ret = rec.exc = None
        return how


def run(ctx):
    from asta import typechecked

    (fw,) = frameworks(ctx)
    env = make_env(ctx, fw)
    gc.collect()
    gc.freeze()
    few = has_tf(ctx)
    part = 7 if ctx.nshards == 1 and not few else 1
    for rng in ctx.cases(scale(ctx, 60 if few else 600) // part, "calls"):
        case = Case(rng, env, typechecked)
        for _ in range(4):
            one_call(ctx, rng, case)
        ctx.sample(case.f)
    for rng in ctx.cases(scale(ctx, 60 if few else 500) // part, "isinstance"):
        one_isinstance(ctx, rng, env)
    for rng in ctx.cases(scale(ctx, 3 if few else 16) // part, "repeated"):
        repeated(ctx, rng, env, typechecked)
    for rng in ctx.cases(scale(ctx, 10 if few else 40) // part, "threads"):
        in_thread(ctx, rng, env, typechecked)
    for rng in ctx.cases(scale(ctx, 40), "other types"):
        other_types(ctx, rng, env, typechecked)
    gc.unfreeze()


def one_call(ctx, rng, case):
    fw = case.env.fw
    args, kwargs, ret = case.fresh(rng)
    exc = KeyError("body") if rng.random() < 0.15 else None
    info = dict(function=case.f, args=[model.describe(a) for a in args],
                kwargs={k: model.describe(v) for k, v in kwargs.items()}, ret=model.describe(ret))
    values = [args, kwargs, ret]
    del args, kwargs, ret
    writes = Count.writes
    held = case.held()
    held_states = [state(v, fw) for v in held.values()]
    snap = Snapshot(values, fw)
    before = counts(snap.objs)
    how = case.call(*values, exc)
    after = counts(snap.objs)
    if after != before:
        gc.collect()
        ctx.event("needed-gc")
        after = counts(snap.objs)
    ctx.event("calls-" + how)
    ctx.check(snap.changed() is None, "a call changed a value", changed=snap.changed(), **info)
    ctx.check(writes == Count.writes, "a call wrote to an array", **info)
    ctx.check([state(v, fw) for v in held.values()] == held_states, "a call changed a default value", **info)
    ctx.event("objects-compared", len(snap.objs))
    ctx.check(after == before, "after a call more (or fewer) references to a value are left", before=before,
              after=after, outcome=how, objects=[model.describe(v) for v in snap.objs], **info)
    if rng.random() < 0.5:  # and it does go away
        refs = weakable([v for v in snap.objs if id(v) not in held])
        del snap
        case.call(*values, exc)
        values.clear()
        gc.collect()
        left = [r() for r in refs if r() is not None]
        ctx.check(not left, "a value of a finished call is still alive", left=[model.describe(v) for v in left],
                  outcome=how, **info)
        ctx.event("reclaimed", len(refs))
        ctx.event("reclaimed-after-" + how, len(refs))
    ctx.seen(info["function"], how, info["args"], info["ret"])


def one_isinstance(ctx, rng, env):
    fw = env.fw
    values = {k: rng.choice([1, 2, 3]) for k in SYMS}
    node = model.leaf(rng, env, SYMS, values, expr=0.05, attrs=0.1)
    got = core.run(node.build, env, rng)
    if not got.ok:
        return
    for _ in range(3):
        v = node.value(rng, env, values)
        if rng.random() < 0.4:
            v = model.mutate(rng, v, env)
        v = vary(rng, v, fw)
        alts = node.alts(v, env)
        if alts and model.hard([alts]):
            continue
        desc = model.describe(v)
        snap = Snapshot([v], fw)
        before = counts(snap.objs)
        out = core.run(isinstance, v, got.value)
        out = out.value if out.ok else out
        after = counts(snap.objs)
        if after != before:
            gc.collect()
            after = counts(snap.objs)
        info = dict(node=node, value=desc, answer=out)
        ctx.check(snap.changed() is None, "isinstance changed a value", changed=snap.changed(), **info)
        ctx.check(after == before, "after isinstance other references to a value are left", before=before,
                  after=after, **info)
        ctx.event(f"isinstance-{out}")
        refs = weakable(snap.objs)
        del snap, v, alts
        gc.collect()
        ctx.check(all(r() is None for r in refs), "a value is still alive after isinstance", **info)
        ctx.event("reclaimed", len(refs))
        ctx.seen(repr(node), desc)


def repeated(ctx, rng, env, typechecked):
    """The same calls again and again allocate nothing that stays."""
    todo = []
    for _ in range(6):
        case = Case(rng, env, typechecked)
        args, kwargs, ret = case.fresh(rng)
        todo.append((case, args, kwargs, ret, KeyError("body") if rng.random() < 0.1 else None))
    probes = []
    for _ in range(4):
        values = {k: rng.choice([1, 2]) for k in SYMS}
        node = model.leaf(rng, env, SYMS, values, expr=0)
        got = core.run(node.build, env, rng)
        v = node.value(rng, env, values) if rng.random() < 0.6 else model.mutate(rng, node.value(rng, env, values), env)
        if got.ok:
            probes.append((node, v, got.value))
    rounds = 15

    def go(n):
        for _ in range(n):
            for case, args, kwargs, ret, exc in todo:
                case.call(args, kwargs, ret, exc)
            for _node, v, T in probes:
                core.run(isinstance, v, T)
        gc.collect()
        return sys.getallocatedblocks()

    # Caches of sympy fill up at first, and the noise falls off: a leak goes on.
    marks, steps = [go(5)], []
    while len(steps) < 30 and min(steps, default=rounds) >= rounds - 2:
        marks.append(go(rounds))
        steps.append(marks[-1] - marks[-2])
    ctx.check(min(steps) < rounds - 2, "repeated calls and checks leave more and more objects", grows=steps,
              calls=[c[0].f for c in todo], probes=[p[0] for p in probes])
    ctx.event("repetitions", rounds * len(steps) * (len(todo) + len(probes)))
    ctx.event("steady" if min(steps) <= 0 else "nearly-steady")
    ctx.seen("repeated", [repr(c[0].f) for c in todo])


def in_thread(ctx, rng, env, typechecked):
    """Values of calls made by another thread do not stay with it."""
    case = Case(rng, env, typechecked)
    batches = [list(case.fresh(rng)) for _ in range(3)]
    held = case.held()
    desc = [model.describe(b[0]) for b in batches]
    refs = [weakable([v for v in parts(b).values() if id(v) not in held]) for b in batches]
    ready, go_on = threading.Event(), threading.Event()

    def work():
        while batches:
            case.call(*batches.pop())
        ready.set()
        go_on.wait(20)  # the thread still lives when the values have to be gone

    t = threading.Thread(target=work, daemon=True)
    t.start()
    ready.wait(20)
    gc.collect()
    left = [model.describe(r()) for rs in refs for r in rs if r() is not None]
    go_on.set()
    t.join(20)
    ctx.check(not left, "a thread which goes on keeps the values of finished calls", left=left, function=case.f,
              args=desc)
    ctx.event("threads")
    ctx.event("reclaimed", sum(map(len, refs)))


def other_types(ctx, rng, env, typechecked):
    """Iterators, callables and so on are not used up, called or kept."""
    fw = env.fw
    A = fw.T[rng.choice([(2,), (..., 1), (-1, -1)])]
    ann = rng.choice([typing.Iterator[A], typing.Iterable[A], typing.Generator[A, None, None], typing.Any,
                      typing.List[A], typing.Sequence[A], typing.Tuple[A, ...], typing.Set[A],
                      typing.Dict[str, A], typing.Optional[A], typing.Union[typing.List[A], A],
                      typing.Callable[[], A], object, typing.Mapping[str, A], typing.Collection[A],
                      typing.Deque[A], typing.DefaultDict[str, A]])

    def f(p: ann) -> ann:
        return p

    f = typechecked(f)
    calls_seen = []

    def generator():
        calls_seen.append(1)
        yield 1

    made = [Once([fw.make(rng, (2,))]), generator(), generator, collections.deque([fw.make(rng, (2,))]),
            collections.defaultdict(list), collections.defaultdict(list, a=fw.make(rng, (2,))),
            iter([fw.make(rng, (2,))]), MyDict(a=fw.make(rng, (2,))), MyList([fw.make(rng, (2,))])]
    v = rng.choice(made)
    made.clear()
    used = getattr(v, "used", None)
    size = len(v) if hasattr(v, "__len__") else None
    before = sys.getrefcount(v)
    for _ in range(2):
        core.run(f, v)
    after = sys.getrefcount(v)
    if before != after:
        gc.collect()
        after = sys.getrefcount(v)
    info = dict(annotation=ann, value=type(v))
    ctx.check(before == after, "a call keeps a value", before=before, after=after, **info)
    ctx.check(getattr(v, "used", None) == used and not calls_seen, "checking used an iterator up or called it",
              **info)
    if size is not None:
        ctx.check(len(v) == size, "checking changed a container", **info)
    elif type(v).__name__ == "list_iterator":
        ctx.check(v.__length_hint__() == 1, "checking used an iterator up", **info)
    try:
        ref = weakref.ref(v)
    except TypeError:
        return
    del v, generator
    gc.collect()
    ctx.check(ref() is None, "a value is still alive after the call", **info)
    ctx.event("other-types")
