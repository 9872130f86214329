"""C18: print-passes controls exactly what is printed."""
import os

from props.common import *
from props import calls, exprs, model


def lines_of(text):
    return [x for x in core.plain(text).splitlines() if x.strip()]


def without_values(lines, *values):
    """The lines without the further lines of a failure message that quotes an array of several."""
    texts = [" ".join(s.split()) for v in values for s in (str(v), repr(v)) if "\n" in s]
    out, inside = [], False
    for x in lines:
        inside = inside or "FAILED" in x
        core_of = " ".join(x.split()).strip("'\" .")
        if inside and "PASSED" not in x and "FAILED" not in x and core_of and any(core_of in t for t in texts):
            continue
        out.append(x)
    return out


class Expect:
    """A PASSED line: the label it must name, the annotation in effect, the actual type."""

    def __init__(self, label, leaf, value):
        self.label, self.leaf, self.value = label, leaf, value

    def fits(self, line, env, rng, lookup):
        shape = repr(tuple(int(x) for x in self.value.shape))
        return (f"'{self.label}'" in line and self.rep(env, rng, lookup) in line
                and shape in line.split("actual")[-1] and dtype_name(self.value) in line.split("actual")[-1])

    def rep(self, env, rng, lookup):
        kept, env.lookup = env.lookup, lookup
        try:
            return repr(self.leaf.build(env, rng))
        finally:
            env.lookup = kept

    def __repr__(self):
        return f"{self.label}: {self.leaf} ~ {model.describe(self.value)}"


def dtype_name(v):
    d = v.dtype
    return getattr(d, "name", str(d))


def expectations(node, v, label, env):
    """PASSED lines of a value that satisfies its annotation; None if a union leaves a choice."""
    if isinstance(node, model.Leaf):
        return [Expect(label, node, v)]
    out = []

    def add(n, x, lab):
        nonlocal out
        more = expectations(n, x, lab, env)
        out = None if out is None or more is None else out + more

    if isinstance(node, model.ListNode):
        for i, x in enumerate(v):
            add(node.elem, x, f"{label}[{i}]")
    elif isinstance(node, model.TupleVar):
        for i, x in enumerate(v):
            add(node.elem, x, f"{label}[{i}]")
    elif isinstance(node, model.TupleNode):
        for i, (n, x) in enumerate(zip(node.elems, v)):
            add(n, x, f"{label}[{i}]")
    elif isinstance(node, model.DictNode):
        for k, x in v.items():
            add(node.key, k, f"{label}.<key>")
            add(node.val, x, f"{label}[{k}]")
    elif isinstance(node, model.SetNode):
        for x in v:
            add(node.elem, x, f"{label}.<set_element>")
    elif isinstance(node, model.NTNode):
        for n, x, name in zip(node.elems, v, node.names):
            add(n, x, f"{label}.{name}")
    elif isinstance(node, model.TDNode):
        for n, name in zip(node.elems, node.names):
            if name in v:
                add(n, v[name], f"{label}[{name}]")
    elif isinstance(node, model.UnionNode):
        fitting = [e for e in node.elems if e.alts(v, env)]
        if node.optional and v is None:
            return [] if not fitting else None
        if len(fitting) != 1:
            return None
        add(fitting[0], v, label)
    return out


def matchup(ctx, rng, env, lookup, lines, want, what, info, partial=False):
    """Each PASSED line is one of the expected ones, and all of these were printed."""
    left = list(want)
    for line in lines:
        hit = next((e for e in left if e.fits(line, env, rng, lookup)), None)
        if not ctx.check(hit is not None, f"{what}: a PASSED line for nothing that was satisfied",
                         line=line, left=left, **info):
            return
        left.remove(hit)
    if not partial:
        ctx.check(not left, f"{what}: satisfied annotations without a PASSED line", left=left, **info)


def run(ctx):
    import asta
    from asta import dims, typechecked

    cfg = ctx.world.get("config", {})
    passes = cfg.get("print-passes", "no") == "yes"
    raises = cfg.get("raise-errors", "yes") == "yes"
    off = cfg.get("on") == "no" or os.environ.get("ASTA_TYPECHECK", "1") != "1"
    (fw,) = frameworks(ctx)
    env = make_env(ctx, fw)
    env.array_keys = False  # their labels span lines
    ctx.case = {"kind": "import", "index": 0}
    if off:
        ctx.check(ctx.import_out == "", "importing asta printed with checking off", out=ctx.import_out)
    base_lookup = env.lookup
    few = has_tf(ctx)
    for rng in ctx.cases(scale(ctx, 120 if few else 650), "function"):
        style = rng.choice(["array", "array", "symbols", "dims"])
        names, phs, values = [], [], {}
        if style == "symbols":
            names = exprs.pick_names(rng, 2)
        if style == "dims":
            phs = [f"D{ctx.case['index']}_{j}" for j in range(2)]
        values = {n: rng.choice([1, 2, 3, 4, 5]) for n in names + phs}

        def lookup(name, phs=phs):
            return getattr(dims, name) if name in phs else base_lookup(name)

        def resolved(name, phs=phs, values=values):
            return values[name] if name in phs else base_lookup(name)

        env.lookup = lookup

        def node(r):
            return model.tree(r, env, depth=r.choice([0, 0, 1, 1, 2]), names=names + phs, values=values,
                              unions=r.random() < 0.3, attrs=0.0 if phs or names else 0.08,
                              expr=0.0 if phs else 0.2, plain=r.random() < 0.3)

        f = calls.random_function(rng, env, node, ret=0.6, defaults=0.2)
        if not core.run(f.namespace, env, rng).ok:
            continue
        calls.with_defaults(f, rng, env, values, bad=0)
        made = core.run(f.make, env, rng, typechecked)
        if not ctx.check(made.ok and made.out == "", "decorating failed or printed", function=f, got=made,
                         out=made.out):
            continue
        for n in phs:
            setattr(dims, n, values[n])
        for _ in range(3):
            args, kwargs = calls.arguments(f, rng, env, values, bad=rng.choice([0, 0, 0.5]), misfit=0)
            bound = f.bind(args, kwargs)
            if bound is None:
                continue
            ret = calls.result(f, rng, env, values, bad=0.25)
            one_call(ctx, rng, env, f, args, kwargs, bound, ret, passes, raises, off, resolved, phs, values)
        ctx.sample(f"{style} {f!r}")
    env.lookup = base_lookup
    for rng in ctx.cases(scale(ctx, 40), "quiet"):
        quiet(ctx, rng, env, typechecked, off)
    for rng in ctx.cases(scale(ctx, 40), "nested"):
        nested(ctx, rng, env, typechecked, passes, raises, off)


def fixed_leaf(leaf, phs, values):
    """The leaf with placeholder values written in (bare placeholders only)."""
    if not phs or leaf.pat is None:
        return leaf
    pat = [values[p.args[0]] if isinstance(p, E) and p.op == "sym" and p.args[0] in phs else p
           for p in leaf.pat]
    return model.Leaf(leaf.dtype, pat, leaf.attrs)


def one_call(ctx, rng, env, f, args, kwargs, bound, ret, passes, raises, off, resolved, phs, values):
    f.rec.calls.clear()
    f.rec.ret, f.rec.exc = ret, None
    got = core.run(f.decorated, *args, **kwargs)
    lines = lines_of(got.out)
    info = dict(function=f, args=[model.describe(a) for a in args],
                kwargs={k: model.describe(v) for k, v in kwargs.items()}, ret=model.describe(ret),
                got=got, out=core.plain(got.out))
    ctx.event("calls")
    if off:
        ctx.check(got.out == "" and got.ok, "something was printed or raised with checking off", **info)
        ctx.event("off-calls")
        ctx.seen("off", repr(f))
        return
    header = f"{f.original.__module__}.{f.original.__qualname__}"
    env_now = model.Env(env.fw, resolved, env.check_all, env.non_asta)
    checks = [(label_of(f, lab, i, bound), n, v) for lab, i, n, v in indexed(f, bound)]
    if f.ret_node is not None:
        checks.append(("return", f.ret_node, ret))
    kept, env.lookup = env.lookup, resolved
    try:
        alts = [fixed(n, phs, values).alts(v, env_now) for _, n, v in checks]
    finally:
        env.lookup = kept
    if calls.hard(alts) and all(alts):
        return
    verdict = model.joint(alts) if all(alts) else False
    if verdict is None:
        ctx.event("left-open")
        return
    passed = [x for x in lines if "PASSED" in x]
    failed = [x for x in lines if "FAILED" in x]
    lines = without_values(lines, ret, *args, *kwargs.values())
    headers = [x for x in lines if header in x and "PASSED" not in x and "FAILED" not in x]
    ctx.check(len(passed) + len(failed) + len(headers) == len(lines), "an unexpected line was printed", **info)
    ctx.seen(repr(f), passes, raises, verdict, [model.describe(a) for a in args], len(lines))
    if verdict:
        ctx.check(got.ok, "a satisfied call failed", **info)
        ctx.event("satisfied")
        if not passes:
            ctx.check(got.out == "", "a satisfied call printed with print-passes=no", **info)
            return
        ctx.check(lines and lines[0] in headers and len(headers) == 1 and not failed,
                  "a satisfied call did not print one header and no failure", **info)
        want = []
        for lab, n, v in checks:
            more = expectations(fixed(n, phs, values), v, lab, env_now)
            if more is None:
                ctx.event("ambiguous-union")
                return
            want += more
        matchup(ctx, rng, env, resolved, passed, want, "a satisfied call", info)
        ctx.event("passed-lines", len(passed))
        return
    ctx.event("failing")
    if not passes:
        ctx.check(not passed, "a PASSED line was printed with print-passes=no", **info)
        ctx.check(bool(headers), "a failing call did not print its header", **info)
        if raises:
            ctx.check(len(headers) == 1 and not failed,
                      "a failing call that raised printed more than a header", **info)
        else:
            ctx.check(bool(failed), "a failing call printed no failure line", **info)
    else:
        ctx.check(bool(headers) and lines[0] in headers, "a call did not print its header first", **info)
        # Every top-level array annotation that was satisfied, unless the call was stopped before.
        tops = [Expect(lab, fixed_leaf(n, phs, values), v) for (lab, n, v), a in zip(checks, alts)
                if isinstance(n, model.Leaf) and a and model.joint([a]) is not False]
        if all(isinstance(n, (model.Leaf, model.Plain, model.AnyNode)) for _, n, _v in checks):
            # A call that raises stops at its first failure; which one that is, is left open.
            matchup(ctx, rng, env, resolved, passed, tops, "a failing call", info,
                    partial=raises or any(model.joint([a]) is None for a in alts if a))
            ctx.event("failing-passes")


def fixed(node, phs, values):
    if not phs:
        return node
    from props.places import map_leaves

    return map_leaves(node, lambda leaf: fixed_leaf(leaf, phs, values))


def indexed(f, bound):
    for p in f.params:
        v = bound[p.name]
        if p.kind == "V":
            for i, x in enumerate(v):
                yield p.name, i, p.node, x
        elif p.kind == "W":
            for k, x in v.items():
                yield p.name, k, p.node, x
        else:
            yield p.name, None, p.node, v


def label_of(f, name, i, bound):
    return name if i is None else f"{name}[{i}]"


def quiet(ctx, rng, env, typechecked, off):
    """Decorating, subscripting, isinstance and repr print nothing."""
    T = env.fw.T

    def work():
        leaf = model.leaf(rng, env, names=["X", "Y"], values={"X": 2, "Y": 3})
        ann = leaf.build(env, rng)
        v = env.fw.make(rng, (2,), None)
        isinstance(v, ann)
        isinstance(3, ann)
        repr(ann), hash(ann), ann == T

        def g(x: ann) -> ann:
            return x

        class C:
            def m(self, x: ann):
                return x

            @classmethod
            def c(cls, x: ann):
                return x

            class Inner:
                @staticmethod
                def s(x: ann):
                    return x
        return typechecked(g), typechecked(C)

    got = core.run(work)
    ctx.check(got.ok and got.out == "", "something was printed without any call", got=got, out=got.out)
    ctx.event("quiet")


def nested(ctx, rng, env, typechecked, passes, raises, off):
    """Each call of a nest prints under the header of its own function."""
    n = rng.randint(1, 4)
    T = env.fw.T[n]
    mk = lambda k: env.fw.make(rng, (k,), None)

    @typechecked
    def inner(x: T):
        return 1

    @typechecked
    def outer(x: T, times: int) -> T:
        for _ in range(times):
            inner(mk(n))
        return mk(bad)

    times = rng.choice([0, 1, 2])
    bad = rng.choice([n, n, n + 1])
    got = core.run(outer, mk(n), times)
    lines = lines_of(got.out)
    ho = "nested.<locals>.outer()"
    hi = "nested.<locals>.inner()"
    want = []
    if not off:
        if passes:
            want += ["outer", "x"] + ["inner", "x"] * times
            if bad == n:
                want.append("return")
        if bad != n:
            if not passes:
                want.append("outer")
            if not raises:
                want.append("FAILED")
    seen = []
    for x in lines:
        if "FAILED" in x:
            seen.append("FAILED")
        elif "PASSED" in x:
            seen.append("return" if "'return'" in x else "x")
        else:
            seen.append("outer" if ho in x else "inner" if hi in x else x)
    ctx.check(seen == want, "the lines of nested calls", seen=seen, want=want, times=times, bad=bad, n=n,
              out=core.plain(got.out))
    ctx.event("nested")
    ctx.seen("nested", times, bad == n, passes, raises)
