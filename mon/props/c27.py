"""C27: PyTorch Tensor annotations follow the same rules.

The workloads and oracles of the other properties, over Tensor and torch values, plus what is
special to torch: torch.Size as a subscript, Parameters, and the aliases of dtypes.
"""
import importlib
import time

from props.common import *
from props import calls, model

# Which parts each shard runs, and the share of their cases.
PARTS = [("c01", 0.3), ("c02", 8), ("c03", 0.3), ("c04", 0.5), ("c05", 0.6), ("c06", 0.3), ("c07", 0.3),
         ("c09", 0.3), ("c10", 0.3), ("c11", 0.3), ("c12", 0.3), ("c13", 0.3), ("c22", 0.3), ("c24", 0.1), ("c25", 0.3)]


class Part:
    """The context as one of the other modules sees it."""

    def __init__(self, ctx, name, share):
        self.__dict__.update(ctx=ctx, name=name, share=share)

    def __getattr__(self, name):
        return getattr(self.ctx, name)

    def cases(self, n, kind="case"):
        if kind == "known":  # reported by C03
            return
        for rng in self.ctx.cases(max(1, int(n * self.share)), f"{self.name}:{kind}"):
            self.ctx.event("cases-" + self.name)
            yield rng

    def event(self, name, n=1):
        self.ctx.event(f"{self.name}:{name}", n)


def run(ctx):
    special(ctx)
    for name, share in PARTS:
        module = importlib.import_module("props." + name)
        t = time.monotonic()
        module.run(Part(ctx, name, share))
        ctx.event(f"seconds-{name}", round(time.monotonic() - t, 2))


def special(ctx):
    import torch
    import asta
    from asta import dims, shapes, symbols, typechecked

    T = asta.Tensor
    (fw,) = frameworks(ctx)
    for rng in ctx.cases(scale(ctx, 400), "size"):
        shp = tuple(rng.choice([0, 1, 2, 3, 17]) for _ in range(rng.choice([0, 1, 1, 2, 3, 4])))
        size = rng.choice([torch.Size(shp), torch.zeros(shp).shape])
        item, dtype = rng.choice(fw.table) if rng.random() < 0.4 else (None, None)
        attrs = {"ndim": len(shp)} if rng.random() < 0.2 else None
        lists = [[item], [size], [attrs]]
        sub = [x for (x,) in lists if x is not None]
        spelled = [lambda: T[tuple(sub)] if len(sub) > 1 or rng.random() < 0.5 and shp else T[size]]
        if item is not None:
            spelled += [lambda: T[size][item], lambda: T[item][size]]
        how = rng.choice(spelled)
        got = core.run(how)
        want_ann = core.run(lambda: gen.subscript(rng, T, list(shp), item, None))
        info = dict(size=size, dtype=item, attrs=attrs, got=got)
        if not ctx.check(got.ok and want_ann.ok, "a torch.Size was refused as a subscript", **info):
            continue
        A, B = got.value, want_ann.value
        if how is not spelled[0] or attrs is None:
            same = core.run(lambda: (A == B, B == A, hash(A) == hash(B), repr(A) == repr(B), len({A, B})))
            ctx.check(same.ok and same.value == (True, True, True, True, 1),
                      "a torch.Size and the tuple are different annotations", same=same, **info)
        for s in {shp, gen.mutate_shape(rng, shp), tuple(reversed(shp))}:
            d = fw.value_dtype(rng, item)
            v = fw.make(rng, s, d)
            if rng.random() < 0.2:
                v = torch.Parameter(s, d)
            want = s == shp and (dtype is None or dtype(d))
            out = probe(v, A)
            ctx.check(out.ok and out.value is bool(want), "a torch.Size subscript matches wrongly", value=v,
                      want=want, **{**info, "got": out})
            ctx.event(f"size-{bool(want)}")

            def f(x: A) -> A:
                return x

            out = core.run(typechecked(f), v)
            ctx.check(out.ok and out.value is v if want else isinstance(out.exc, TypeError),
                      "a torch.Size subscript is checked wrongly in a call", value=v, want=want, **{**info, "got": out})
            ctx.seen("size", shp, s, str(item))
    # Sizes of tensors as the values of placeholders.
    for rng in ctx.cases(scale(ctx, 200), "stored sizes"):
        k = f"{ctx.case['index']}_{ctx.shard}"
        S, D = getattr(shapes, "T" + k), getattr(dims, "E" + k)
        item, want = rng.choice([
            (S, lambda: shp), ((1, *S), lambda: (1,) + shp), (S + (D,), lambda: shp + (n,)),
            ((D,) + S, lambda: (n,) + shp), ((..., D), None), ((D * 2, 3), lambda: (2 * n, 3))])
        A = core.run(lambda: T[item])
        if not ctx.check(A.ok, "a placeholder was refused", item=item, got=A):
            continue
        ran = []

        def g(x: A.value):
            ran.append(1)
            return x

        g = typechecked(g)
        for _ in range(3):
            shp = tuple(rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 2, 3])))
            t = torch.zeros(shp)
            n = rng.choice([1, 2, 4])
            stored = core.run(lambda: setattr(shapes, "T" + k, t.shape))
            ctx.check(stored.ok and getattr(shapes, "T" + k) == shp, "a torch.Size cannot be stored in asta.shapes",
                      size=t.shape, got=stored)
            setattr(dims, "E" + k, torch.zeros((n, 7)).shape[0])
            for s in [want() if want else (5, n), shp, (n,) + shp, (n + 1,)]:
                ok = s[-1:] == (n,) if want is None else s == want()
                ran.clear()
                out = core.run(g, torch.zeros(s))
                ctx.check((out.ok and ran == [1]) if ok else (isinstance(out.exc, TypeError) and not ran),
                          "a call with stored sizes is judged wrongly", item=item, stored=shp, n=n, value=s, want=ok,
                          got=out)
                ctx.event(f"stored-{ok}")
    # Other things than tensors.
    for rng in ctx.cases(scale(ctx, 60), "others"):
        v = rng.choice([np.zeros((2, 3)), torch.Size((2, 3)), [torch.zeros(2)], 3, None, "x", torch.float32, T, torch,
                        torch.Tensor, object(), fw.alien((2, 3))])
        A = rng.choice([T, T[2, 3], T[float], T[...], T[symbols.X, ...], T[()]])
        out = probe(v, A)
        ctx.check(out.ok and out.value is False, "something else than a tensor matched", value=v, annotation=A, got=out)
        ctx.event("others")
