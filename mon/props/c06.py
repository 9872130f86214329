"""C06: annotation equality and hashing agree with what they check."""
import typing
from typing import Dict, List, Optional, Tuple, Union

from props.common import *
from props import annots


# Arrays have no single truth value.
ARRAYS = [{"tag": np.array([1, 2])}, {"tag": np.array([1, 2])}, {"tag": np.array([1.0, 2.0])}, {"tag": np.array([1, 3])},
          {"tag": np.array([[1, 2]])}, {"tag": [1, 2]}, {"tag": np.zeros(0)}, {"tag": np.int64(1)}, {"tag": 1},
          {"tag": np.float64(1)}, {"tag": []}, {"tag": np.array(1)}, {"tag": None}, {"tag": 2, "w": np.ones(2)},
          {"tag": 2, "w": np.ones(3)}, {"tag": np.array(["a"])}, {"tag": np.str_("a")}]


def run(ctx):
    (fw,) = frameworks(ctx)
    T = fw.T
    import asta
    from asta import symbols

    tf = has_tf(ctx)
    dtypes = annots.dtype_items(ctx)
    dkey = annots.dtype_key(ctx)

    def lookup(name):
        return getattr(symbols, name)

    for rng in ctx.cases(scale(ctx, 60 if tf else 220), "pool"):
        # A pool with many near-duplicates.
        pool = []
        specs = [annots.random_spec(rng, dtypes) for _ in range(5)] + [annots.Spec(None, None, None)]
        for _ in range(9):
            s = rng.choice(specs)
            r = rng.random()
            if r < 0.3:
                s = annots.Spec(rng.choice(dtypes + [None]), s.pat, s.attrs)
            elif r < 0.5:
                p = annots.random_pattern(rng)
                s = annots.Spec(s.dtype, gen.mutate_pattern(rng, s.pat) if s.pat and rng.random() < 0.6 else p, s.attrs)
            elif r < 0.6:
                s = annots.Spec(s.dtype, s.pat, annots.shuffled(rng, s.attrs if s.attrs and rng.random() < 0.4
                                                                 else rng.choice(rng.choice([annots.ATTRS, ARRAYS]))))
            elif r < 0.66 and s.pat:
                s = annots.Spec(s.dtype, list(reversed(s.pat)), s.attrs)
            specs.append(s)
        for s in specs:
            if rng.random() < 0.3 and pool:  # use older ones in between
                use(rng, ctx, pool, fw)
            got = core.run(lambda: annots.chain(rng, T, s, lookup, asta.Scalar)[0])
            if not ctx.check(got.ok, "a well-formed subscript was refused", spec=s, outcome=got):
                return
            pool.append((got.value, s))
        before = snapshot(ctx, pool)
        use(rng, ctx, pool, fw)
        for (a, sa) in pool:
            for (b, sb) in pool:
                want = sa.key(dkey) == sb.key(dkey)
                got = core.run(lambda: (a == b, a != b))
                ctx.check(got.ok and got.value == (want, not want),
                          f"{sa} == {sb} should be {want}", got=got)
                if want:
                    h = core.run(lambda: hash(a) == hash(b))
                    ctx.check(h.ok and h.value is True, "equal annotations hash differently",
                              a=sa, b=sb, h=h)
                ctx.event("equal" if want else "different")
        typing_checks(ctx, rng, pool, dkey)
        # dictionaries and sets
        table = {}
        for i, (a, s) in enumerate(pool):
            table.setdefault(s.key(dkey), i)
        d = core.run(lambda: {a: None for a, _ in pool})
        ctx.check(d.ok and len(d.value) == len(table), "a dictionary confuses annotations",
                  got=d.ok and len(d.value), want=len(table))
        s = core.run(lambda: set(a for a, _ in pool))
        ctx.check(s.ok and len(s.value) == len(table), "a set confuses annotations")
        # other types
        for other in (None, 3, int, "x", [], {}, object(), list, typing.List[int], ...):
            a = rng.choice(pool)[0]
            got = core.run(lambda: (a == other, a != other))
            ctx.check(got.ok and got.value == (False, True), "equal to an unrelated object",
                      other=other, got=got)
        ctx.check(snapshot(ctx, pool) == before, "using annotations changed one of them",
                  before=before, after=snapshot(ctx, pool))
        bare(ctx, rng, fw, asta)
        ctx.seen(tuple(map(repr, specs)))
        ctx.sample(f"{fw.name} pool: {specs[:6]}")

    if tf:
        for rng in ctx.cases(scale(ctx, 50), "frameworks"):
            s = annots.random_spec(rng, [int, float, bool, complex])
            a = annots.chain(rng, asta.TFTensor, s, lookup)[0]
            b = annots.chain(rng, asta.Array, s, lookup)[0]
            got = core.run(lambda: (a == b, b == a, a != b, a in {b: 1}, len({a, b})))
            ctx.check(got.ok and got.value == (False, False, True, False, 2),
                      "annotations of different frameworks are equal", spec=s, got=got)
            ctx.event("across-frameworks")


def snapshot(ctx, pool):
    """Everything observable about the annotations."""
    out = []
    for a, _ in pool:
        got = core.run(lambda: (repr(a), hash(a), a.dtype, a.shape and tuple(a.shape), a.kwattrs and dict(a.kwattrs)))
        out.append(repr(got))
    return out


def bare(ctx, rng, fw, asta):
    """The bare class still matches everything of the framework."""
    s = fit(ctx, gen.shape(rng))
    got = probe(fw.make(rng, s), fw.T)
    ctx.check(got.ok and got.value is True, "the bare annotation class changed", shape=s, got=got)


def use(rng, ctx, pool, fw):
    for _ in range(4):
        a, _s = rng.choice(pool)
        r = rng.randrange(6)
        if r == 0:
            core.run(hash, a)
        elif r == 1:
            core.run(repr, a)
        elif r == 2:
            core.run(isinstance, fw.make(rng, gen.shape(rng, maxrank=3, big=0)), a)
        elif r == 3:
            core.run(lambda: a[rng.choice([3, (2, 3), int, (), {"ndim": 1}, ..., (float, 4)])])
        elif r == 4:
            core.run(lambda: (Optional[a], List[a], Dict[str, a]))
        else:
            core.run(lambda: a == rng.choice(pool)[0])


def typing_checks(ctx, rng, pool, dkey):
    """typing caches its aliases by equality: the right annotation must come back."""
    for a, s in pool:
        got = core.run(lambda: (List[a].__args__[0], Dict[str, a].__args__[1], Tuple[a, ...].__args__[0],
                                Optional[a].__args__[0], Union[int, a].__args__[1]))
        if not ctx.check(got.ok, "typing refuses an annotation", spec=s, got=got):
            continue
        for back in got.value:
            other = next((t for b, t in pool if b is back), None)
            k = core.run(lambda: (back == a, hash(back) == hash(a), repr(back)))
            ctx.check(k.ok and k.value[0] and k.value[1], "typing returned a different annotation",
                      spec=s, got=k)
            if other is not None:
                ctx.check(other.key(dkey) == s.key(dkey), "typing returned another pool member",
                          spec=s, other=other)
        ctx.event("typing")
    (a, s), (b, t) = rng.sample(pool, 2)
    same = s.key(dkey) == t.key(dkey)
    got = core.run(lambda: (List[a] == List[b], Optional[a] == Optional[b],
                            len(Union[a, b, int].__args__)))
    ctx.check(got.ok and got.value == (same, same, 2 if same else 3),
              "typing generics confuse annotations", a=s, b=t, got=got)
