"""C03: symbolic dimensions are solved within one isinstance check."""
import math

from props.common import *
from props import exprs


def run(ctx):
    (fw,) = frameworks(ctx)
    T = fw.T
    from asta import symbols

    def lookup(name):
        return getattr(symbols, name)

    n = scale(ctx, 350 if has_tf(ctx) else 2000)
    for rng in ctx.cases(n, "system"):
        names = exprs.pick_names(rng)
        multi = rng.random() < 0.12
        pat, shp, values = exprs.pattern(rng, names, max_ell=2 if multi else 1, cancel=0.08)
        if rng.random() < 0.04:
            multi = False
            pat, shp, values = exprs.wide(rng)
            ctx.event("wide-systems")
        if not ref.has_expr(pat):
            pat.append(sym(names[0]))
            shp += (values[names[0]],)
        if not gen.legal(pat):
            continue
        ann = core.run(gen.subscript, rng, T, pat, None, None, lookup)
        if not ctx.check(ann.ok, "a symbolic shape was refused", pattern=ref.render(pat),
                         outcome=ann):
            continue
        cands = [shp, exprs.perturb(rng, shp), exprs.perturb(rng, exprs.perturb(rng, shp)),
                 tuple(max(1, x) for x in gen.mutate_shape(rng, shp)),
                 tuple(rng.sample(shp, len(shp)))]
        if shp and rng.random() < 0.3:
            i = rng.randrange(len(shp))
            cands.append(shp[:i] + (0,) + shp[i + 1:])
        ambiguous = pat.count(ELL) > 1
        for s in dict.fromkeys(fit(ctx, c) for c in cands):
            if max((exprs.nasty(a) for a in ref.alignments(pat, s)), default=0) > 1:
                ctx.event("skipped-hard-system")
                continue
            want = ref.match_expr(pat, s)
            value = fw.make(rng, s)
            got = probe(value, ann.value)
            if not ctx.check(got.ok, "isinstance with symbols raised", pattern=ref.render(pat),
                             shape=s, got=got, at=core.where(got.exc) if got.exc else ""):
                continue
            if want is None or (ambiguous and want):
                ctx.event("left-open")
                continue
            ctx.check(got.value is want,
                      f"isinstance(shape {s}, {fw.name}{ref.render(pat)}) should be {want}",
                      got=got)
            ctx.event("solvable" if want else "contradiction")
            if ELL in pat:
                ctx.event("with-ellipsis")
            ctx.seen(ref.render(pat), s)
            if rng.random() < 0.2:
                again = probe(value, ann.value)
                ctx.check(again.ok and again.value is want, "the second check differs",
                          pattern=ref.render(pat), shape=s, got=again)
        ctx.sample(f"{ref.render(pat)} vs {cands[:3]}")

    # Sizes with many digits (the arrays take no memory).
    for rng in ctx.cases(scale(ctx, 150), "large") if fw.name == "Array" else ():
        digits = rng.choice([5, 7, 8, 9])
        big = rng.randrange(10 ** (digits - 1), 10 ** digits) * 2
        if rng.random() < 0.4:
            big = rng.choice([2 ** 15, 2 ** 16, 2 ** 24, 2 ** 30, 2 ** 31, 2 ** 28]) + rng.choice([0, 1, -1, 2])
        X, Y = sym("X"), sym("Y")
        pat, shp = rng.choice([
            ([X, X], (big, big)), ([X, X + num(1)], (big, big + 1)), ([X, X * num(2)], (big // 2, big // 2 * 2)),
            ([X + Y, X, Y], (big, big - 3, 3)), ([X, Y, X + Y], (big, 1, big + 1)), ([num(2) * X, X], (2 * big, big)),
            ([X - num(3), X], (big - 3, big)), ([X, ELL, X], (big, 2, big)), ([X, big, X], (1, big, 1)),
            ([X], (big,)), ([X * num(3)], (big * 3,)), ([big, X, X], (big, 7, 7))])
        ann = core.run(gen.subscript, rng, T, pat, None, None, lookup)
        if not ctx.check(ann.ok, "a symbolic shape was refused", pattern=ref.render(pat), outcome=ann):
            continue
        i = rng.randrange(len(shp))
        for s in [shp] + [shp[:i] + (max(1, shp[i] + d),) + shp[i + 1:] for d in (1, -1, 2, rng.choice([100, -1000]))]:
            want = ref.match_expr(pat, s)
            if want is None or math.prod(s) > 2 ** 62:
                ctx.event("left-open")
                continue
            got = probe(np.lib.stride_tricks.as_strided(np.zeros(1, np.int8), s, (0,) * len(s)), ann.value)
            ctx.check(got.ok and got.value is want, f"isinstance(shape {s}, {ref.render(pat)}) should be {want}", got=got)
            ctx.event(f"large-{want}")
            ctx.seen("large", ref.render(pat), s)

    # Ambiguous alignments of symbols between several ellipses (see known_findings.txt).
    if not has_tf(ctx) and ctx.shard == 0:
        for _rng in ctx.cases(1, "known"):
            X = symbols.X
            for key, item, s in [("multi-ellipsis-symbol-alignment", (..., X, ..., X), (2, 3, 3))]:
                got = probe(fw.make(_rng, s), T[item])
                if not (got.ok and got.value is True):
                    ctx.findings.append({"key": key, "what": f"Array{item} rejects shape {s}",
                                         "case": dict(ctx.case), "world": ctx.world["name"],
                                         "shard": ctx.shard})
                ctx.event("known-finding-probes")
