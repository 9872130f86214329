"""Decorated functions: random signatures, calls, and their reference verdicts."""
import inspect

import core
import gen
import ref
from props import exprs, model
from props.model import joint, hard, describe

PARAMS = ["a", "b", "data", "x", "weights", "idx", "k", "mask"]


class Param:
    def __init__(self, name, kind, node, default=None):
        # kind: P positional-only, N normal, V *args, K keyword-only, W **kwargs
        self.name, self.kind, self.node, self.default = name, kind, node, default


class Recorder:
    """What the bodies of the generated functions saw."""

    def __init__(self):
        self.calls = []
        self.ret = None
        self.exc = None
        self.ann = {}

    def body(self, seen):
        self.calls.append(seen)
        if self.exc is not None:
            raise self.exc
        return self.ret


class Function:
    """A generated function: the original, its reference twin and the decorated one."""

    def __init__(self, params, ret_node, name="f", first=None):
        self.params, self.ret_node, self.name, self.first = params, ret_node, name, first
        self.rec = Recorder()

    def signature_source(self):
        parts, state = [], "P"
        if self.first:
            parts.append(self.first)
        for i, p in enumerate(self.params):
            if state == "P" and p.kind != "P":
                if any(q.kind == "P" for q in self.params[:i]):
                    parts.append("/")
                state = "N"
            if p.kind == "K" and state == "N":
                if not any(q.kind == "V" for q in self.params):
                    parts.append("*")
                state = "K"
            star = {"V": "*", "W": "**"}.get(p.kind, "")
            default = f" = _d_{p.name}" if p.default is not None else ""
            ann = f": _a_{p.name}" if p.node is not None else ""
            parts.append(f"{star}{p.name}{ann}{default}")
        if state == "P" and any(p.kind == "P" for p in self.params):
            parts.append("/")
        return ", ".join(parts)

    def namespace(self, env, rng):
        ns = {"_rec": self.rec}
        for p in self.params:
            if p.node is not None:
                ns["_a_" + p.name] = p.node.build(env, rng)
            if p.default is not None:
                ns["_d_" + p.name] = p.default[0]
        if self.ret_node is not None:
            ns["_a_return"] = self.ret_node.build(env, rng)
        return ns

    def source(self, decorator="", indent="", extra=""):
        ret = " -> _a_return" if self.ret_node is not None else ""
        lines = []
        if decorator:
            lines.append(f"@{decorator}")
        lines += [f"def {self.name}({self.signature_source()}){ret}:",
                  f'    """Documentation of {self.name}."""',
                  "    return _rec.body(dict(locals()))"]
        return "\n".join(indent + x for x in lines)

    def make(self, env, rng, decorate):
        """Define the original in a fresh namespace, decorate it, and make the twin."""
        self.ns = self.namespace(env, rng)
        self.ns["__name__"] = "generated_module"
        exec(compile(self.source(), "<generated>", "exec"), self.ns)
        self.original = self.ns[self.name]
        twin_ns = dict(self.ns)
        twin_ns["_rec"] = self.twin = Recorder()
        exec(compile(self.source(), "<twin>", "exec"), twin_ns)
        self.twin_fn = twin_ns[self.name]
        self.decorated = decorate(self.original)
        return self

    def bind(self, args, kwargs):
        """What Python itself binds, or None if the arguments don't fit."""
        self.twin.calls.clear()
        try:
            self.twin_fn(*args, **kwargs)
        except TypeError:
            return None
        return self.twin.calls[-1]

    def checks(self, bound):
        """The (label, node, value) triples a call with these bindings has to check."""
        out = []
        for p in self.params:
            v = bound[p.name]
            if p.kind == "V":
                out += [(p.name, p.node, x) for x in v]
            elif p.kind == "W":
                out += [(p.name, p.node, x) for x in v.values()]
            else:
                out.append((p.name, p.node, v))
        return out

    def verdict(self, args, kwargs, ret, env, raises=False, known=None):
        """'sig', 'args', 'ret', 'ok', or None (left open); ``known`` gives symbols their values."""
        bound = self.bind(args, kwargs)
        if bound is None:
            return "sig"
        alts = [n.alts(v, env) for _, n, v in self.checks(bound)]
        if any(not a for a in alts):
            return "args"
        alts += [[[(ref.sym(k), v)]] for k, v in (known or {}).items()]
        if hard(alts):
            return "hard"
        j = joint(alts)
        if j is False:
            return "args"
        if j is None:
            return None
        if raises:
            return "raise"
        if self.ret_node is None:
            return "ok"
        alts.append(self.ret_node.alts(ret, env))
        if not alts[-1]:
            return "ret"
        if hard(alts):
            return "hard"
        j = joint(alts)
        return {True: "ok", False: "ret", None: None}[j]

    def __repr__(self):
        ps = ", ".join(f"{p.kind}:{p.name}:{p.node!r}{'=..' if p.default else ''}" for p in self.params)
        return f"{self.name}({ps}) -> {self.ret_node!r}"


def random_function(rng, env, node, nmax=4, kinds=True, ret=0.7, defaults=0.3, name=None, first=None, selfish=True):
    """``node(rng)`` makes the annotation of each parameter; returns the function and a way to
    generate mostly fitting arguments."""
    n = rng.choice([0, 1, 1, 2, 2, 3, nmax])
    names = rng.sample(PARAMS, n)
    if first is None and names and rng.random() < 0.08:
        # An annotated parameter is checked, whatever its name.
        i, name_i = rng.choice([0, 0, rng.randrange(n)]), rng.choice(["self", "cls", "mcs"])
        if selfish:
            names[i] = name_i
    params = []
    ks = []
    for _ in range(n):
        ks.append(rng.choice("PNNNNVKW") if kinds else "N")
    order = "PNVKW"
    ks.sort(key=order.index)
    for k in "VW":
        while ks.count(k) > 1:
            ks[ks.index(k)] = "N"
    ks.sort(key=order.index)
    had_default = False
    for nm, k in zip(names, ks):
        params.append(Param(nm, k, node(rng)))
        if k in "PN" and (had_default or rng.random() < defaults):
            had_default = True
            params[-1].default = "todo"
        elif k == "K" and rng.random() < defaults:
            params[-1].default = "todo"
    f = Function(params, node(rng) if rng.random() < ret else None,
                 name or rng.choice(["f", "forward", "loss_fn", "step"]), first)
    return f


def with_defaults(f, rng, env, values, bad=0.15):
    """Fill in default values (annotations must have been built)."""
    for p in f.params:
        if p.default == "todo":
            v = p.node.value(rng, env, values)
            if rng.random() < bad:
                v = model.mutate(rng, v, env)
            p.default = (v,)


def arguments(f, rng, env, values, bad=0.25, misfit=0.08):
    """Arguments for one call: usually fitting the signature, mostly matching."""
    args, kwargs = [], {}
    positional = True

    made = []

    def val(node):
        if made and rng.random() < 0.07:  # one object given twice
            v = rng.choice(made)
            if bad or node.alts(v, env):
                return v
        v = fresh(node)
        made.append(v)
        return v

    def fresh(node):
        v = node.value(rng, env, values)
        if rng.random() < bad / max(1, len(f.params)) * 1.5:
            v = model.mutate(rng, v, env)
        return v

    has_v = any(p.kind == "V" for p in f.params)
    for p in f.params:
        if p.kind == "P":
            if p.default and rng.random() < 0.3:
                positional = False
            elif positional:
                args.append(val(p.node))
        elif p.kind == "N":
            if p.default and rng.random() < 0.4:
                positional = False
            elif positional and (has_v or rng.random() < 0.6):
                args.append(val(p.node))
            else:
                positional = False
                kwargs[p.name] = val(p.node)
        elif p.kind == "V":
            if positional:
                args += [val(p.node) for _ in range(rng.choice([0, 1, 2, 3]))]
        elif p.kind == "K":
            if not (p.default and rng.random() < 0.4):
                kwargs[p.name] = val(p.node)
        else:
            # Names of the ``**`` and ``*`` parameters and of positional-only ones are free to use.
            pool = ["extra", "opt", "self_", "lr", "args", "name", "value", "return", "self", "decorated"]
            pool += [q.name for q in f.params if q.kind in "PVW"] * 2
            for nm in rng.sample(pool, rng.choice([0, 1, 2, 3])):
                kwargs[nm] = val(p.node)
    if rng.random() < misfit:
        r = rng.random()
        if r < 0.35:
            args.append(env.fw.make(rng, (2,), None))
        elif r < 0.6 and args:
            args.pop()
        elif r < 0.8:
            kwargs[rng.choice(["bogus", "a", "x"])] = env.fw.make(rng, (2,), None)
        elif kwargs:
            kwargs.pop(rng.choice(list(kwargs)))
    items = list(kwargs.items())
    rng.shuffle(items)
    f.given = made
    return tuple(args), dict(items)


def result(f, rng, env, values, bad=0.2):
    given, f.given = getattr(f, "given", None), None
    if f.ret_node is None:
        return object()
    if given and rng.random() < 0.07:  # an argument itself
        return rng.choice(given)
    v = f.ret_node.value(rng, env, values)
    if rng.random() < bad:
        v = model.mutate(rng, v, env)
    return v


def identical(seen, bound):
    """Same names bound to the same objects (containers of *args compared elementwise)."""
    if set(seen) != set(bound):
        return False
    for k, v in bound.items():
        w = seen[k]
        if isinstance(v, tuple) and isinstance(w, tuple) and v is not w:
            if len(v) != len(w) or any(x is not y for x, y in zip(v, w)):
                return False
        elif isinstance(v, dict) and isinstance(w, dict) and v is not w:
            if list(v) != list(w) or any(v[q] is not w[q] for q in v):
                return False
        elif v is not w:
            return False
    return True


def judge(ctx, f, args, kwargs, ret, env, want, label="call"):
    """Call the decorated function and compare with the reference verdict."""
    if want == "hard":  # slow for the solver, and left open anyway
        ctx.event("skipped-hard-system")
        return None
    f.rec.calls.clear()
    f.rec.ret, f.rec.exc = ret, None
    got = core.run(f.decorated, *args, **kwargs)
    ran = len(f.rec.calls)
    info = dict(function=f, args=[describe(a) for a in args],
                kwargs={k: describe(v) for k, v in kwargs.items()}, ret=describe(ret),
                got=got, at=core.where(got.exc) if got.exc else "", body_runs=ran)
    if want is None:
        ctx.event("left-open")
        return got
    ctx.event("want-" + want)
    if want == "ok":
        if ctx.check(got.ok, f"{label}: matching arguments and result were refused", **info):
            ctx.check(ran == 1, f"{label}: the body ran {ran} times", **info)
            ctx.check(got.value is ret, f"{label}: another result was returned", **info)
    else:
        ctx.check(got.exc is not None,
                  f"{label}: a mismatch was accepted ({want})", **info)
        if got.exc is not None:
            ctx.check(isinstance(got.exc, TypeError), f"{label}: raised something other than TypeError",
                      **info)
        ctx.check(ran == (1 if want == "ret" else 0),
                  f"{label}: the body ran {ran} times although the verdict is {want}", **info)
    if ran:
        ctx.check(identical(f.rec.calls[-1], f.bind(args, kwargs) or {}),
                  f"{label}: the body saw other arguments", **info)
    return got


def same_signature(a, b):
    """Whether two signatures have the same parameters, by identity of their parts."""
    same = list(a.parameters) == list(b.parameters)
    for p, q in zip(a.parameters.values(), b.parameters.values()):
        same = same and (p.kind, p.name) == (q.kind, q.name) and p.default is q.default \
            and p.annotation is q.annotation
    return same and a.return_annotation is b.return_annotation
