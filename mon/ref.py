"""Reference models.  Independent of asta: plain Python over plain data.

Shape patterns are lists whose elements are
    int >= 0          a literal size
    -1                any one positive size
    ELL               any number of positive sizes
    E                 a polynomial expression over named symbols
"""
from fractions import Fraction
import itertools

ELL = Ellipsis


# -- polynomial expressions ------------------------------------------------------
class E:
    """A polynomial expression tree over named symbols."""

    def __init__(self, op, *args):
        self.op, self.args = op, args

    def __repr__(self):
        if self.op == "sym":
            return self.args[0]
        if self.op == "int":
            return str(self.args[0])
        a, b = self.args
        return f"({a!r}{self.op}{b!r})"

    def __add__(self, other):
        return E("+", self, other if isinstance(other, E) else E("int", other))

    def __sub__(self, other):
        return E("-", self, other if isinstance(other, E) else E("int", other))

    def __mul__(self, other):
        return E("*", self, other if isinstance(other, E) else E("int", other))

    def vars(self):
        if self.op == "sym":
            return {self.args[0]}
        if self.op == "int":
            return set()
        return self.args[0].vars() | self.args[1].vars()

    def ev(self, env):
        if self.op == "sym":
            return env[self.args[0]]
        if self.op == "int":
            return self.args[0]
        a, b = (x.ev(env) for x in self.args)
        if self.op == "+":
            return a + b
        if self.op == "-":
            return a - b
        if self.op == "*":
            return a * b
        if self.op == "**":
            return a ** b
        if self.op == "/":
            return Fraction(a) / b
        raise AssertionError(self.op)

    def build(self, lookup):
        """The object a user would write; ``lookup`` maps a name to its placeholder."""
        if self.op == "sym":
            return lookup(self.args[0])
        if self.op == "int":
            return self.args[0]
        a, b = (x.build(lookup) for x in self.args)
        if self.op == "+":
            return a + b
        if self.op == "-":
            return a - b
        if self.op == "*":
            return a * b
        if self.op == "**":
            return a ** b
        if self.op == "/":
            return a / b
        raise AssertionError(self.op)

    def lin(self):
        """(coefficients, constant) if linear, else None."""
        if self.op == "sym":
            return {self.args[0]: Fraction(1)}, Fraction(0)
        if self.op == "int":
            return {}, Fraction(self.args[0])
        la, lb = (x.lin() for x in self.args)
        if la is None or lb is None:
            return None
        (ca, ka), (cb, kb) = la, lb
        if self.op in "+-":
            s = 1 if self.op == "+" else -1
            c = dict(ca)
            for v, x in cb.items():
                c[v] = c.get(v, 0) + s * x
            return {v: x for v, x in c.items() if x}, ka + s * kb
        if self.op == "*":
            if not ca:
                return {v: x * ka for v, x in cb.items() if x * ka}, ka * kb
            if not cb:
                return {v: x * kb for v, x in ca.items() if x * kb}, ka * kb
            return None
        if self.op == "**" and not ca and not cb:
            return {}, ka ** int(kb)
        if self.op == "**" and not cb and kb == 1:
            return la
        return None

    def substitute(self, env):
        if self.op == "sym":
            return E("int", env[self.args[0]]) if self.args[0] in env else self
        if self.op == "int":
            return self
        return E(self.op, *(x.substitute(env) for x in self.args))


def sym(name):
    return E("sym", name)


def num(n):
    return E("int", n)


# -- literal patterns ----------------------------------------------------------------
def elem_matches(p, size):
    if p == -1:
        return size > 0
    return p == size


def match(pattern, shape):
    """Whether ``shape`` is obtained from a pattern without expressions (or None)."""
    if pattern is None:
        return True
    pattern, shape = list(pattern), list(shape)
    # ok[j]: the pattern so far can produce shape[:j]
    ok = [True] + [False] * len(shape)
    for p in pattern:
        new = [False] * (len(shape) + 1)
        if p is ELL:
            for j in range(len(shape) + 1):
                new[j] = ok[j] or (j > 0 and new[j - 1] and shape[j - 1] > 0)
        else:
            for j in range(1, len(shape) + 1):
                new[j] = ok[j - 1] and elem_matches(p, shape[j - 1])
        ok = new
    return ok[len(shape)]


def alignments(pattern, shape):
    """All constraint lists [(E, size)] for which the rest of the pattern fits."""
    pattern, shape = list(pattern), list(shape)
    if not pattern:
        if not shape:
            yield []
        return
    head, rest = pattern[0], pattern[1:]
    if head is ELL:
        for n in range(len(shape) + 1):
            if n and shape[n - 1] == 0:
                break
            yield from alignments(rest, shape[n:])
    elif shape:
        if isinstance(head, E):
            for tail in alignments(rest, shape[1:]):
                yield [(head, shape[0])] + tail
        elif elem_matches(head, shape[0]):
            yield from alignments(rest, shape[1:])


# -- systems of equations ---------------------------------------------------------------
def solve_linear(rows, names):
    """Row-reduce; returns None if inconsistent, else (pivots, free) with pivots
    {name: (coeffs over free, const)}."""
    mat = [[Fraction(c.get(v, 0)) for v in names] + [Fraction(k)] for c, k in rows]
    pivots = []
    r = 0
    for col in range(len(names)):
        piv = next((i for i in range(r, len(mat)) if mat[i][col] != 0), None)
        if piv is None:
            continue
        mat[r], mat[piv] = mat[piv], mat[r]
        mat[r] = [x / mat[r][col] for x in mat[r]]
        for i in range(len(mat)):
            if i != r and mat[i][col] != 0:
                f = mat[i][col]
                mat[i] = [x - f * y for x, y in zip(mat[i], mat[r])]
        pivots.append(col)
        r += 1
    if any(all(x == 0 for x in row[:-1]) and row[-1] != 0 for row in mat):
        return None
    free = [names[c] for c in range(len(names)) if c not in pivots]
    sol = {}
    for i, col in enumerate(pivots):
        coeffs = {names[c]: -mat[i][c] for c in range(len(names)) if c not in pivots and mat[i][c]}
        sol[names[col]] = (coeffs, mat[i][-1])
    return sol, free


def decide(constraints, rng=None, bound=40):
    """True: a positive-integer assignment exists.  False: no assignment of numbers at all
    exists.  None: neither established (left open by the properties)."""
    env = {}
    for e, size in constraints:
        if e.op == "sym":
            if env.setdefault(e.args[0], size) != size:
                return False
    rest = []
    for e, size in constraints:
        e = e.substitute(env)
        if not e.vars():
            if e.ev({}) != size:
                return False
        else:
            rest.append((e, size))
    positive = all(v > 0 for v in env.values())
    if not rest:
        return True if positive else None
    names = sorted(set().union(*(e.vars() for e, _ in rest)))
    rows, nonlinear = [], []
    for e, size in rest:
        lin = e.lin()
        if lin is None:
            nonlinear.append((e, size))
        else:
            rows.append((lin[0], size - lin[1]))
    sol = solve_linear(rows, names)
    if sol is None:
        return False
    pivots, free = sol

    def complete(values):
        full = dict(values)
        for v, (coeffs, const) in pivots.items():
            full[v] = const + sum(c * values[f] for f, c in coeffs.items())
        return full

    # A nonlinear expression that is constant on the solutions of the linear part.
    import random as _random

    rng = rng or _random.Random(0)
    points = [complete({f: Fraction(rng.randint(-10**6, 10**6)) for f in free})
              for _ in range(8)]
    for e, size in nonlinear:
        values = {e.ev(p) for p in points}
        if len(values) == 1 and values != {Fraction(size)}:
            return False
    if not positive:
        return None
    # Search for a positive-integer assignment.
    if len(free) > 3:
        return None
    limit = bound if len(free) <= 2 else 20
    for values in itertools.product(range(1, limit + 1), repeat=len(free)):
        full = complete({f: Fraction(v) for f, v in zip(free, values)})
        if any(x.denominator != 1 or x <= 0 for x in full.values()):
            continue
        if all(e.ev(full) == size for e, size in nonlinear):
            return True
    return None


def match_expr(pattern, shape, rng=None):
    """Three-valued isinstance model for patterns with expressions."""
    if pattern is None:
        return True
    verdicts = [decide(a, rng) for a in alignments(pattern, shape)]
    if any(v is True for v in verdicts):
        return True
    if all(v is False for v in verdicts):
        return False
    return None


def has_expr(pattern):
    return pattern is not None and any(isinstance(p, E) for p in pattern)


def render(pattern):
    if pattern is None:
        return "any"
    return "(" + ",".join("..." if p is ELL else repr(p) for p in pattern) + ")"
