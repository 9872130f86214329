"""Workload generators: shapes, patterns, subscripts, values."""
import numpy as np

from ref import ELL, E, sym, num

SMALL = [1, 1, 2, 2, 3, 3, 4, 5]
BIG = [7, 16, 31, 32, 33, 64, 100, 127, 128, 255, 256, 257, 258, 300, 512, 768, 1000, 1024,
       4096, 65535, 65536, 100003]


def size(rng, zero=0.08, big=0.15):
    r = rng.random()
    if r < zero:
        return 0
    if r < zero + big:
        return rng.choice(BIG)
    return rng.choice(SMALL)


def shape(rng, maxrank=6, zero=0.08, big=0.15, minrank=0):
    rank = rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 8, 10, 12])
    rank = max(minrank, min(rank, maxrank))
    palette = None
    if rng.random() < 0.5:  # few distinct sizes: ambiguous alignments
        palette = [size(rng, zero, big) for _ in range(rng.choice([1, 2, 2, 3]))]
    return tuple(rng.choice(palette) if palette else size(rng, zero, big) for _ in range(rank))


def pattern_from(rng, shp, ell=0.3, wild=0.25, max_ell=4):
    """A pattern derived from a shape: usually matches it."""
    pat, i, n, ells = [], 0, len(shp), 0
    while i < n or (ells < max_ell and rng.random() < 0.15):
        if rng.random() < ell and ells < max_ell and (not pat or pat[-1] is not ELL):
            take = min(n - i, rng.choice([0, 0, 1, 1, 2, 3]))
            pat.append(ELL)
            ells += 1
            i += take
        elif i < n:
            pat.append(-1 if rng.random() < wild else shp[i])
            i += 1
        else:
            break
    return pat


def mutate_pattern(rng, pat, pool=()):
    """Change a pattern in one place (keeping '...' non-adjacent)."""
    for _ in range(20):
        p = list(pat)
        op = rng.choice(["set", "ins", "del", "swap", "ell", "unell"])
        if op == "set" and p:
            i = rng.randrange(len(p))
            p[i] = rng.choice([-1, size(rng), size(rng)] + list(pool))
            if rng.random() < 0.06:  # an integer like any other, although no size equals it
                p[i] = rng.choice([-2, -3, -256])
        elif op == "ins":
            p.insert(rng.randint(0, len(p)), rng.choice([-1, size(rng)] + list(pool)))
        elif op == "del" and p:
            del p[rng.randrange(len(p))]
        elif op == "swap" and len(p) > 1:
            i, j = rng.sample(range(len(p)), 2)
            p[i], p[j] = p[j], p[i]
        elif op == "ell":
            p.insert(rng.randint(0, len(p)), ELL)
        elif op == "unell" and ELL in p:
            p.remove(ELL)
        else:
            continue
        if legal(p):
            return p
    return list(pat)


def legal(p):
    return not any(a is ELL and b is ELL for a, b in zip(p, p[1:]))


def mutate_shape(rng, shp):
    s = list(shp)
    op = rng.choice(["set", "set", "ins", "del", "swap", "dup", "rev"])
    if op == "set" and s:
        i = rng.randrange(len(s))
        s[i] = rng.choice([s[i] + 1, max(0, s[i] - 1), 0, 1, size(rng), s[i] * 2])
    elif op == "ins":
        s.insert(rng.randint(0, len(s)), size(rng))
    elif op == "del" and s:
        del s[rng.randrange(len(s))]
    elif op == "swap" and len(s) > 1:
        i, j = rng.sample(range(len(s)), 2)
        s[i], s[j] = s[j], s[i]
    elif op == "dup" and s:
        i = rng.randrange(len(s))
        s.insert(i, s[i])
    elif op == "rev":
        s.reverse()
    return tuple(s)


# -- arrays -------------------------------------------------------------------------------
class Sub(np.ndarray):
    """A user subclass of ndarray."""


def array(rng, shp, dtype=np.float64, subclass=True):
    """An ndarray of the given shape that uses little memory, in varied layouts."""
    shp = tuple(shp)
    total = 1
    for s in shp:
        total *= s
    if total > 5000:
        return np.broadcast_to(np.zeros((), dtype=dtype), shp)
    how = rng.randrange(7)
    arr = np.zeros(shp, dtype=dtype)
    if how == 1:
        arr = np.asfortranarray(arr) if arr.ndim else arr
    elif how == 2 and arr.ndim:
        arr = np.zeros(tuple(2 * s for s in shp), dtype=dtype)[tuple(slice(0, 2 * s, 2) for s in shp)]
    elif how == 3:
        arr.flags.writeable = False
    elif how == 4:
        arr = np.zeros(tuple(reversed(shp)), dtype=dtype).T
    elif how == 5 and subclass:
        arr = arr.view(Sub)
    elif how == 6 and subclass and arr.dtype.kind in "iufcb":
        arr = np.ma.masked_array(arr)
    return arr


# -- subscripts ----------------------------------------------------------------------------
def dims_of(pat, lookup=None):
    return tuple(p.build(lookup) if isinstance(p, E) else p for p in pat)


def spell_shape(rng, pat, lookup=None):
    """The items of a subscript that spell a shape (None: no shape)."""
    if pat is None:
        return []
    items = dims_of(pat, lookup)
    if not items:
        return [()]
    if rng.random() < 0.4:
        return [items]
    return list(items)


def subscript(rng, T, pat=None, dtype=None, attrs=None, lookup=None):
    """Spell an annotation in one subscript."""
    items = []
    if dtype is not None:
        items.append(dtype)
    items += spell_shape(rng, pat, lookup)
    if attrs is not None:
        items.append(attrs)
    if not items:
        return T
    if len(items) == 1:
        if items[0] == () and isinstance(items[0], tuple):
            return T[()]
        if rng.random() < 0.7:
            return T[items[0]]
    return T[tuple(items)]


# -- expressions -----------------------------------------------------------------------------
def expr(rng, names, depth=2, maxpow=3):
    """A random polynomial expression that mentions at least one of ``names``."""
    r = rng.random()
    if depth == 0 or r < 0.35:
        return sym(rng.choice(names))
    a = expr(rng, names, depth - 1, maxpow)
    if r < 0.55:
        c = num(rng.choice([1, 1, 2, 3, 5]))
        op = rng.choice(["+", "+", "*", "-"])
        if op in "+*" and rng.random() < 0.3:
            return E(op, c, a)
        return E(op, a, c)
    if r < 0.9:
        b = expr(rng, names, depth - 1, maxpow)
        return E(rng.choice(["+", "+", "*", "*", "-"]), a, b)
    return E("**", a, num(rng.randint(2, maxpow)))
