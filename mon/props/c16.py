"""C16: the on switch and ASTA_TYPECHECK turn checking fully on or off."""
import os
import random
import shutil

from props import forked

IMPORTS_ASTA_ITSELF = True
VALUES = [None, None, "1", "1", "0", "0", "", "2", "no", "yes", "true", "01", " 1"]


def setenv(value):
    if value is None:
        os.environ.pop("ASTA_TYPECHECK", None)
    else:
        os.environ["ASTA_TYPECHECK"] = value


def make(rng, kind, Array, log):
    """An undecorated object, and ways to use it with good and bad arguments."""
    import numpy as np

    n = rng.randint(1, 4)
    good, bad = np.zeros(n), np.zeros(n + 1)
    T = Array[n]
    if kind == "function":
        def f(x: T) -> T:
            log.append(x)
            return x
        return f, lambda d: [lambda v: d(v), lambda v: d(x=v)], good, bad
    if kind == "return":
        def r(v):
            log.append(v)
            return v
        r.__annotations__ = {"v": object, "return": T}
        return r, lambda d: [lambda v: d(v)], good, bad
    if kind == "unannotated":
        def u(x):
            log.append(x)
            return x
        return u, lambda d: [lambda v: d(v)], good, None
    if kind in ("classmethod", "staticmethod"):
        def cm(cls, x: T):
            log.append(x)
            return x

        def sm(x: T):
            log.append(x)
            return x
        if kind == "classmethod":
            obj = classmethod(cm)
        else:
            obj = staticmethod(sm)
        return obj, lambda d: [lambda v: type("Holder", (), {"m": d}).m(v)], good, bad
    if kind == "class":
        class C:
            attr = [1]

            def m(self, x: T):
                log.append(x)
                return x

            @classmethod
            def c(cls, x: T):
                log.append(x)
                return x

            @staticmethod
            def s(x: T):
                log.append(x)
                return x

            class Nested:
                def m(self, x: T):
                    log.append(x)
                    return x

            @property
            def p(self):
                return 5
        return C, lambda d: [lambda v: d().m(v), lambda v: d.c(v), lambda v: d.s(v),
                             lambda v: d.Nested().m(v)], good, bad
    raise AssertionError(kind)


KINDS = ["function", "function", "return", "unannotated", "classmethod", "staticmethod", "class"]


def history(seed, on, at_import):
    rng = random.Random(seed)
    setenv(at_import)
    _, exc, _text = forked.capture(__import__, "asta")
    if exc:
        return {"crash": repr(exc)}
    from asta import Array, typechecked

    problems, stats, alive = [], {}, []

    def note(cond, what, **kw):
        stats["checks"] = stats.get("checks", 0) + 1
        if not cond:
            problems.append([what, {k: str(v)[:200] for k, v in kw.items()}])

    def use(entry):
        kind, obj, dec, users, good, bad, log, checked, env_then = entry
        for user in users(dec):
            now = rng.choice(VALUES)
            if rng.random() < 0.3:
                setenv(now)
            for value in (good, bad):
                if value is None:
                    continue
                log.clear()
                got, exc, text = forked.capture(user, value)
                info = dict(kind=kind, checked=checked, decorated_under=env_then,
                            used_under=os.environ.get("ASTA_TYPECHECK"), exc=repr(exc))
                if kind == "unannotated" and checked:
                    note(isinstance(exc, TypeError), "an unannotated parameter was accepted", **info)
                elif value is good or not checked:
                    note(exc is None and got is value and len(log) == 1, "a call was refused", **info)
                    if not checked:
                        note(text == "", "printed with checking off", text=text, **info)
                else:
                    note(isinstance(exc, TypeError), "a mismatch was accepted", **info)
                stats["uses"] = stats.get("uses", 0) + 1

    for _ in range(rng.randint(4, 9)):
        if rng.random() < 0.6:
            setenv(rng.choice(VALUES))
        env_then = os.environ.get("ASTA_TYPECHECK")
        checked = on and env_then in (None, "1")
        kind = rng.choice(KINDS)
        log = []
        obj, users, good, bad = make(rng, kind, Array, log)
        before = dict(vars(obj)) if kind in ("class", "function", "return") else None
        nested = dict(vars(obj.Nested)) if kind == "class" else None
        dec, exc, text = forked.capture(typechecked, obj)
        info = dict(kind=kind, on=on, env=env_then, at_import=at_import)
        note(exc is None and text == "", "decorating failed or printed", exc=repr(exc), text=text, **info)
        if exc is not None:
            continue
        if checked:
            stats["on"] = stats.get("on", 0) + 1
            note((dec is obj) == (kind == "class"), "checked: the decorated object", **info)
        else:
            stats["off"] = stats.get("off", 0) + 1
            note(dec is obj, "off: another object was returned", **info)
            if before is not None:
                now = dict(vars(obj))
                note(set(now) == set(before) and all(now[k] is before[k] for k in now),
                     "off: the object was changed", **info)
            if nested is not None:
                now = dict(vars(obj.Nested))
                note(all(now[k] is nested[k] for k in nested), "off: a nested class was changed", **info)
        alive.append((kind, obj, dec, users, good, bad, log, checked, env_then))
        stats[f"{kind}-{'on' if checked else 'off'}"] = stats.get(f"{kind}-{'on' if checked else 'off'}", 0) + 1
        for entry in rng.sample(alive, min(len(alive), 2)):
            use(entry)
    for entry in alive:
        use(entry)
    return {"problems": problems, "stats": stats}


def run(ctx):
    ctx.CASE_LIMIT = 0  # the children have a time limit
    forked.preload()
    top = os.path.abspath("histories")
    for rng in ctx.cases(4000 if ctx.tier == "quick" else 50000, "history"):
        here = os.path.join(top, str(ctx.case["index"]))
        os.makedirs(here)
        conf = rng.choice(["yes", "yes", "yes", "no", None])
        with open(os.path.join(here, ".astarc"), "w") as fh:
            fh.write("[MASTER]\n" + (f"on={conf}\n" if conf else ""))
            for option in ("print-passes", "check-non-asta-types", "check-all-sequence-elements"):
                if rng.random() < 0.5:
                    fh.write(f"{option}={rng.choice(['yes', 'no'])}\n")
            if conf == "no" and rng.random() < 0.5:
                fh.write("raise-errors=no\n")
        at_import = rng.choice(VALUES)
        seed = rng.random()
        on = conf != "no"
        got = forked.child(lambda: history(seed, on, at_import), here)
        if ctx.check("crash" not in got, "asta could not be imported or used", got=got, on=conf,
                     at_import=at_import):
            for what, info in got["problems"][:2]:
                ctx.check(False, what, on=conf, at_import=at_import, **{f"_{k}": v for k, v in info.items()})
            ctx.evaluations += got["stats"].get("checks", 0)
            for k, v in got["stats"].items():
                ctx.event(k, v)
            ctx.seen(conf, at_import, tuple(sorted(got["stats"].items())))
            ctx.sample(f"on={conf} at import: {at_import!r}: {got['stats']}")
        shutil.rmtree(here, ignore_errors=True)
