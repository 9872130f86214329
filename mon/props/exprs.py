"""Patterns with symbols and expressions, and shapes for them."""
import gen
import ref
from ref import ELL, E, sym, num

NAMES = ["X", "Y", "Z", "W", "N", "n", "batch_size", "H1", "E", "S", "I", "Q", "pi", "beta",
         "lambda_", "C", "O", "x_", "K0"]


def pick_names(rng, k=None):
    k = k or rng.choice([1, 1, 2, 2, 3, 4])
    return rng.sample(NAMES, k)


def pattern(rng, names, rank=None, max_ell=1, bare=0.55, values=None, allow_wild=True, cancel=0):
    """A pattern over ``names`` and a positive assignment under which it can be satisfied."""
    values = values or {n: rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 7, 12, 32]) for n in names}
    rank = rank if rank is not None else rng.choice([1, 1, 2, 2, 3, 3, 4, 5])
    pat, shp = [], []
    ells = 0
    nonlin = 0
    for _ in range(rank):
        r = rng.random()
        if r < 0.12 and ells < max_ell and (not pat or pat[-1] is not ELL):
            pat.append(ELL)
            ells += 1
            shp += [gen.size(rng, zero=0, big=0.1) for _ in range(rng.choice([0, 0, 1, 2]))]
            continue
        if r < 0.22 and allow_wild:
            pat.append(-1)
            shp.append(gen.size(rng, zero=0, big=0.1))
        elif r < 0.32:
            s = gen.size(rng, zero=0, big=0.1)
            pat.append(s)
            shp.append(s)
        elif r < 0.32 + bare * 0.68:
            n = rng.choice(names)
            pat.append(sym(n))
            shp.append(values[n])
        else:
            for _ in range(30):
                e = gen.expr(rng, names, depth=rng.choice([1, 1, 2]))
                if rng.random() < cancel:  # an expression whose symbols cancel
                    e = E("+", E("-", e, e), num(rng.choice([1, 2, 3, 4])))
                v = e.ev(values)
                lin = e.lin() is not None
                if 0 < v < 10**6 and (lin or nonlin < 2) and degree(e) <= 4:
                    break
            else:
                e = sym(rng.choice(names))
                v = e.ev(values)
                lin = True
            nonlin += not lin
            pat.append(e)
            shp.append(v)
    return pat, tuple(shp), values


def wide(rng, count=None):
    """A shape of many dimensions, nearly each a symbol of its own, some in sums, and a few repeated."""
    count = count or rng.randint(6, 16)
    names = rng.sample([a + b for a in "abcdXYZ" for b in ["", "1", "2", "_k"]], count)
    values = {n: rng.choice([1, 1, 2, 3]) for n in names}
    pat = [sym(n) if rng.random() < 0.85 else E("+", sym(n), num(rng.choice([1, 2]))) for n in names]
    for _ in range(rng.choice([0, 1, 1, 2])):
        a, b = rng.choice(names), rng.choice(names)
        pat.append(sym(a) if rng.random() < 0.6 else E("+", sym(a), sym(b)))
    if rng.random() < 0.3:
        pat.append(rng.choice([-1, 1, 2]))
    rng.shuffle(pat)
    shp = [int(p.ev(values)) if isinstance(p, E) else abs(p) for p in pat]
    return pat, tuple(shp), values


def depends(e, name):
    """Whether a (low degree) expression truly depends on a name: ``B - B`` does not on B."""
    others = sorted(e.vars() - {name})
    if name not in e.vars():
        return False
    for k in range(4):
        base = {o: (3 + 7 * k + 5 * i + k * k * i) for i, o in enumerate(others)}
        if len({e.ev({**base, name: t}) for t in (2, 3, 5, 7, 11, 13, 17)}) > 1:
            return True
    return False


def genuine(e):
    """Whether an expression truly depends on everything it mentions."""
    return not isinstance(e, E) or all(depends(e, n) for n in e.vars())


def degree(e):
    if e.op == "sym":
        return 1
    if e.op == "int":
        return 0
    a, b = e.args
    if e.op in "+-":
        return max(degree(a), degree(b))
    if e.op == "*":
        return degree(a) + degree(b)
    return degree(a) * b.args[0]


def nasty(constraints):
    """Nonlinear expressions whose symbols are not all pinned by bare occurrences: sympy's
    generic solver may be slow or give up, so only few of them are generated."""
    pinned = {e.args[0] for e, _ in constraints if e.op == "sym"}
    return sum(1 for e, _ in constraints if e.lin() is None and e.vars() - pinned)


def perturb(rng, shp):
    s = list(shp)
    if not s:
        return tuple(s)
    i = rng.randrange(len(s))
    s[i] = max(1, s[i] + rng.choice([1, 1, -1, 2, 5])) if rng.random() < 0.9 else 0
    return tuple(s)
