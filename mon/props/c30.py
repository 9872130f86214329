"""C30: annotations written as strings are checked like those they spell."""
import __future__
import functools
import re
import types
import typing

from props.common import *
from props import calls, model

SYMS = ["X", "Y", "n"]
HEADER = """
from typing import *
from asta import Array, Scalar, typechecked
import typing, collections.abc, asta
"""


class Unknown(model.Node):
    """A string with a name that does not exist, or which is no expression: nothing is checked."""

    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return f"'{self.text}'"

    def build(self, env, rng):
        return self.text

    def alts(self, v, env):
        return [[]]

    def value(self, rng, env, values):
        return rng.choice([None, 3, "x", np.zeros(2), [np.zeros(3)], object(), env.fw.make(rng, (2, 1))])


UNKNOWN = ["Missing", "List[Missing]", "missing.Array[2]", "Optional[Missing]", "the number of rows", "typing.Nope",
           "Array[2", "Dict[str, Missing]", "collections.abc.Nope[int]"]


class Module:
    """A module in which annotations are spelled out."""

    count = 0

    def __init__(self, rng, env, postponed):
        Module.count += 1
        self.rng, self.env, self.postponed = rng, env, postponed
        self.module = types.ModuleType(f"spelled_{Module.count}")
        self.ns = vars(self.module)
        self.late = {}  # bound only after the function was decorated
        self.texts = []
        self.spelled = {}
        self.names = 0
        sys.modules[self.module.__name__] = self.module
        self.run(HEADER)

    def close(self):
        sys.modules.pop(self.module.__name__, None)

    def run(self, text):
        flags = __future__.annotations.compiler_flag if self.postponed else 0
        exec(compile(text, f"<{self.module.__name__}>", "exec", flags=flags, dont_inherit=True), self.ns)
        self.texts.append(text)

    def name(self, obj, late=False):
        self.names += 1
        name = self.rng.choice(["T", "Alias", "X", "_t", "dims", "f"]) + str(self.names)
        (self.late if late else self.ns)[name] = obj
        return name

    def quote(self, text, p=0.35):
        return repr(text) if self.rng.random() < p else text

    def spell(self, node, quoted, late):
        """The expression for an annotation. ``quoted``: parts may be quoted; ``late``: may use late names."""
        rng, env = self.rng, self.env

        def part(n, quotes=quoted):
            text = self.spell(n, quotes, False)
            return self.quote(text) if quotes else text

        def generic(*spellings):
            return rng.choice(spellings)

        if id(node) in self.spelled and self.spelled[id(node)][0] is node:
            return self.spelled[id(node)][1]
        if isinstance(node, (model.NTNode, model.TDNode)):
            text = self.declare(node)
            self.spelled[id(node)] = node, text  # declared once
            return text
        if isinstance(node, model.Leaf):
            if env.fw.name == "Array" and node.dtype is None and node.attrs is None and node.pat and all(
                    p is ELL or isinstance(p, int) for p in node.pat) and rng.random() < 0.6:
                dims = ["..." if p is ELL else str(p) for p in node.pat]
                return rng.choice(["Array", "asta.Array"]) + f"[{', '.join(dims)}]"
            return self.name(node.build(env, rng), late)
        if isinstance(node, model.AnyNode):
            return "Any"
        if isinstance(node, model.NoneNode):
            return "type(None)"  # None itself is no annotation for asta
        if isinstance(node, model.Plain):
            return node.ann.__name__
        if isinstance(node, model.ListNode):
            return generic(*(["Sequence", "typing.Sequence", "collections.abc.Sequence"] if node.seq
                             else ["List", "list", "typing.List"])) + f"[{part(node.elem)}]"
        if isinstance(node, model.SetNode):
            return generic("Set", "set") + f"[{part(node.elem)}]"
        if isinstance(node, model.DictNode):
            return generic("Dict", "dict") + f"[{part(node.key)}, {part(node.val)}]"
        if isinstance(node, model.TupleVar):
            return generic("Tuple", "tuple") + f"[{part(node.elem)}, ...]"
        if isinstance(node, model.TupleNode):
            return generic("Tuple", "tuple") + f"[{', '.join(map(part, node.elems)) or '()'}]"
        if isinstance(node, model.UnionNode):
            if rng.random() < 0.3 and len(node.elems) + node.optional > 1:
                texts = [part(e, False) for e in node.elems] + ["None"] * node.optional
                rng.shuffle(texts)
                text = " | ".join(texts)
                if core.run(eval, text, {**self.ns, **self.late}).ok:
                    return text
            text = f"Union[{', '.join(map(part, node.elems))}]"
            return f"Optional[{text}]" if node.optional else text
        if isinstance(node, Unknown):
            return node.text
        raise AssertionError(node)

    def written(self, node, late=False):
        """The annotation as it stands in the code."""
        if isinstance(node, Unknown):
            return repr(node.text) if not self.postponed or " " in node.text or node.text.endswith("2") else node.text
        quoted = self.postponed or self.rng.random() < 0.7
        text = self.spell(node, not self.postponed or self.rng.random() < 0.3, late and quoted)
        return repr(text) if quoted and not self.postponed else text

    def declare(self, node):
        self.names += 1
        name = f"{'NT' if isinstance(node, model.NTNode) else 'TD'}{self.names}"
        if isinstance(node, model.NTNode):
            texts = [self.written(e) for e in node.elems]
            # A field may be called like something that annotations use, which is found all the same.
            used = sorted({w for t in texts for w in re.findall(r"[A-Za-z]\w*", t)
                           if w in self.ns and w not in node.names and not hasattr(tuple, w)})
            if used and self.rng.random() < 0.3:
                node.names = list(node.names)
                node.names[self.rng.randrange(len(texts))] = self.rng.choice(used)
            lines = [f"class {name}(NamedTuple):"]
            lines += [f"    {n}: {t}" for n, t in zip(node.names, texts)]
        elif isinstance(node.total, bool):
            lines = [f"class {name}(TypedDict, total={node.total}):"]
            lines += [f"    {n}: {self.written(e)}" for n, e in zip(node.names, node.elems)]
        elif self.postponed or self.rng.random() < 0.5:
            lines = []
            for cls, base, total in ((name + "Base", "TypedDict", True), (name, name + "Base", False)):
                lines += [f"class {cls}({base}, total={total}):", "    pass"]
                lines += [f"    {n}: {self.written(e)}" for n, e in zip(node.names, node.elems)
                          if (n in node.required) == total]
        else:
            lines = [f"class {name}(TypedDict):"]
            for n, e in zip(node.names, node.elems):
                text = self.written(e)
                lines.append(f"    {n}: {text if n in node.required else f'NotRequired[{text}]'}")
        self.run("\n".join(lines))
        node.cls = self.ns[name]
        return name


class Spelled(calls.Function):
    """A function whose annotations are spelled out in a module of its own."""

    def prepare(self, env, rng):
        self.mod = Module(rng, env, rng.random() < 0.5)
        late = rng.random() < 0.4
        self.texts = {}
        for p in self.params:
            self.texts[p.name] = self.mod.written(p.node, late)
        if self.ret_node is not None:
            self.texts["return"] = self.mod.written(self.ret_node, late)
        return self

    def signature_source(self):
        text = super().signature_source()
        for p in self.params:
            text = text.replace(f": _a_{p.name}", f": {self.texts[p.name]}", 1)
        return text

    def source(self, decorator="", indent="", extra=""):
        text = super().source(decorator, indent, extra)
        return text.replace("-> _a_return", f"-> {self.texts.get('return')}")

    def make(self, env, rng, decorate):
        mod = self.mod
        mod.ns["_rec"] = self.rec
        for p in self.params:
            if p.default is not None:
                mod.ns["_d_" + p.name] = p.default[0]
        self.twin = calls.Recorder()
        kept, self.texts = self.texts, {k: "object" for k in self.texts}
        ns = {**mod.ns, "_rec": self.twin}
        self.first = None
        exec(compile(self.source(), "<twin>", "exec"), ns)
        self.twin_fn = ns[self.name]
        self.texts = kept
        self.how = rng.choice(["plain", "plain", "plain", "method", "class", "wrapped", "static", "classmethod"])
        if self.how in ("static", "classmethod"):
            self.first = "cls" if self.how == "classmethod" else None
            decorator = "staticmethod" if self.how == "static" else "classmethod"
            mod.run("class Holder:\n" + self.source(decorator, indent="    ").replace(
                "locals()", "{k: v for k, v in locals().items() if k != 'cls'}"))
            cls = decorate(mod.ns["Holder"])
            self.decorated = getattr(cls() if rng.random() < 0.5 else cls, self.name)
        elif self.how in ("method", "class"):
            self.first = "self"
            mod.run("class Holder:\n" + self.source(indent="    ").replace("locals()", "{k: v for k, v in locals().items() if k != 'self'}"))
            cls = mod.ns["Holder"]
            if self.how == "class":
                cls = decorate(cls)
            else:
                setattr(cls, self.name, decorate(vars(cls)[self.name]))
            self.decorated = getattr(cls(), self.name)
        else:
            mod.run(self.source())
            self.original = mod.ns[self.name]
            self.decorated = decorate(passing(self.original) if self.how == "wrapped" else self.original)
        mod.ns.update(mod.late)
        return self

    def __repr__(self):
        ps = ", ".join(f"{p.kind}:{p.name}: {self.texts.get(p.name)} = {p.node!r}" for p in self.params)
        return f"{self.name}({ps}) -> {self.texts.get('return')} = {self.ret_node!r} {'postponed' if self.mod.postponed else ''}"


def passing(fn):
    """Another decorator, defined elsewhere."""

    @functools.wraps(fn)
    def outer(*args, **kwargs):
        return fn(*args, **kwargs)

    return outer


def run(ctx):
    from asta import typechecked

    (fw,) = frameworks(ctx)
    env = make_env(ctx, fw)
    for rng in ctx.cases(scale(ctx, 250 if has_tf(ctx) else 1200), "function"):
        values = {k: rng.choice([1, 2, 3]) for k in SYMS}

        def node(r):
            if r.random() < 0.08:
                return Unknown(r.choice(UNKNOWN))
            return model.tree(r, env, depth=r.choice([0, 0, 1, 1, 2]), names=SYMS, values=values, expr=0.1, attrs=0.05)

        g = calls.random_function(rng, env, node, selfish=False)
        f = Spelled(g.params, g.ret_node, g.name)
        prepared = core.run(f.prepare, env, rng)
        if not prepared.ok:  # Python itself refuses some spellings
            ctx.event("not-spelled")
            if hasattr(f, "mod"):
                f.mod.close()
            continue
        calls.with_defaults(f, rng, env, values)
        made = core.run(f.make, env, rng, typechecked)
        if not ctx.check(made.ok, "decorating failed", function=f, got=made):
            continue
        for _ in range(rng.choice([3, 5])):
            args, kwargs = calls.arguments(f, rng, env, values)
            if f.first:  # taken
                kwargs.pop(f.first, None)
            ret = calls.result(f, rng, env, values)
            want = f.verdict(args, kwargs, ret, env)
            calls.judge(ctx, f, args, kwargs, ret, env, want)
            ctx.seen(repr(f), want, [model.describe(a) for a in args], len(kwargs))
            if want in ("ok", "args", "ret"):
                ctx.event(f"{f.how}-{want}")
                ctx.event(f"{'postponed' if f.mod.postponed else 'quoted'}-{want}")
                if f.mod.late:
                    ctx.event(f"late-{want}")
                if any(isinstance(p.node, Unknown) for p in f.params):
                    ctx.event(f"unknown-{want}")
        ctx.sample(f"{f!r}")
        f.mod.close()
