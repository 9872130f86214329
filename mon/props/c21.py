"""C21: concurrent calls are checked independently.

Jobs (isinstance checks and decorated calls, several per function) are answered once alone and
judged by the reference; then several threads answer them again and again at the same time, with
a short switch interval, yields injected at random lines of the code under test, and bodies which
wait or call other jobs.  Every answer must be the one given alone.
"""
import random
import sys
import threading
import time

from props.common import *
from props import calls, model

SYMS = ["X", "Y", "n"]
PHS = ["B", "D"]


class Local(threading.local):
    stack = None


class Job:
    """Something to ask: a check or a call with given arguments."""

    def __init__(self, label, ask, want=None, hard=False):
        self.label, self.ask, self.want, self.hard = label, ask, want, hard
        self.key = None


class SharedRecorder(calls.Recorder):
    """Bodies of one function running in several threads."""

    def __init__(self, local):
        super().__init__()
        self.local = local

    def body(self, seen):
        frame = self.local.stack[-1]
        frame["runs"] += 1
        frame["same"] = frame["same"] and calls.identical(seen, frame["bound"])
        frame["inside"]()
        if frame["exc"] is not None:
            raise frame["exc"]
        return frame["ret"]


class Overlap:
    """How calls in different threads overlapped, from the order of their starts and ends."""

    def __init__(self):
        self.lock = threading.Lock()
        self.open = {}
        self.overlapping = 0
        self.log = []

    def start(self, me):
        with self.lock:
            self.open[me] = self.open.get(me, 0) + 1
            if len(self.open) > 1:
                self.overlapping += 1
            self.log.append(me)

    def end(self, me):
        with self.lock:
            self.open[me] -= 1
            if not self.open[me]:
                del self.open[me]
            self.log.append(-me)


class Yields:
    """Give up the processor at random lines of asta, or stop at a few lines of it every time."""

    TOOL = 3

    def __init__(self, seed, rate, stops=0):
        self.rng, self.rate, self.count, self.stops = random.Random(seed), rate, 0, stops

    def __enter__(self):
        self.ok = hasattr(sys, "monitoring") and (self.rate > 0 or self.stops > 0)
        if not self.ok:
            return self
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "asta-yields")
        import asta

        root = asta.__path__[0]
        known, lines = {}, {}

        def on_line(code, line):
            inside = known.get(code)
            if inside is None:
                inside = known[code] = code.co_filename.startswith(root)
            if not inside:
                return mon.DISABLE
            if self.stops:
                chosen = lines.get((code, line))
                if chosen is None:
                    # Several lines of few functions.
                    odds = lines.setdefault(code, self.stops if self.rng.random() < 0.3 else 0)
                    chosen = lines[code, line] = self.rng.random() < odds
                if not chosen:
                    return mon.DISABLE
                self.count += 1
                time.sleep(0.0003)
                return None
            if self.rng.random() < self.rate:
                self.count += 1
                time.sleep(0 if self.rng.random() < 0.9 else 0.0002)

        mon.register_callback(self.TOOL, mon.events.LINE, on_line)
        mon.set_events(self.TOOL, mon.events.LINE)
        return self

    def __exit__(self, *exc):
        if self.ok:
            mon = sys.monitoring
            mon.set_events(self.TOOL, 0)
            mon.register_callback(self.TOOL, mon.events.LINE, None)
            mon.free_tool_id(self.TOOL)
            mon.restart_events()


def answer(got, frame=None, ret=None):
    if frame is None:
        return [got.value if got.ok else type(got.exc).__name__]
    out = ["result" if got.ok and got.value is ret else "other result" if got.ok
           else "raised the body's" if got.exc is frame["exc"] else type(got.exc).__name__]
    return out + [frame["runs"], frame["same"]]


def isinstance_jobs(rng, env, values):
    node = model.leaf(rng, env, names=SYMS, values=values, expr=0.2, attrs=0.1)
    kept = node.build(env, rng)
    out = []
    for _ in range(3):
        vals = {k: rng.choice([1, 2, 3, 4]) for k in values}
        v = node.value(rng, env, vals)
        if rng.random() < 0.4:
            v = model.mutate(rng, v, env)
        seed = rng.random()
        fresh = rng.random() < 0.5

        def ask(local, inside, v=v, seed=seed, fresh=fresh):
            T = node.build(env, random.Random(seed)) if fresh else kept
            return answer(core.quiet_run(isinstance, v, T))

        out.append(Job(f"isinstance({model.describe(v)}, {node!r})", ask, None,
                       model.hard([node.alts(v, env)])))
    return out


def call_jobs(rng, env, values, local, typechecked, n):
    names, attrs = (SYMS + PHS, 0.0) if rng.random() < 0.6 else (SYMS, 0.4)

    def node(r):
        return model.tree(r, env, depth=r.choice([0, 0, 0, 1, 1, 2]), names=names, values=values,
                          expr=0.15, attrs=attrs, unions=r.random() < 0.4)

    for _ in range(20):
        f = calls.random_function(rng, env, node, ret=0.7, defaults=0.2)
        if f.params and core.run(f.namespace, env, rng).ok:
            break
    else:
        return []
    f.rec = SharedRecorder(local)
    f.make(env, rng, lambda x: x)
    calls.with_defaults(f, rng, env, values, bad=0.0)
    f.make(env, random.Random(rng.random()), typechecked)
    out = []
    for _ in range(n):
        # Sizes of its own for every job; the placeholders keep theirs.
        mine = {**values, **{k: rng.choice([1, 2, 3, 4, 5]) for k in SYMS}}
        args, kwargs = calls.arguments(f, rng, env, mine, bad=0.25, misfit=0.03)
        ret = calls.result(f, rng, env, mine, bad=0.2)
        exc = ValueError("body") if rng.random() < 0.08 else None
        bound = f.bind(args, kwargs)
        again = rng.random() < 0.2
        want = f.verdict(args, kwargs, ret, env, raises=exc is not None,
                         known={k: values[k] for k in PHS})

        def ask(local, inside, args=args, kwargs=kwargs, ret=ret, exc=exc, bound=bound, again=again):
            frame = {"runs": 0, "same": True, "bound": bound, "ret": ret, "exc": exc, "inside": inside}
            if local.stack is None:
                local.stack = []
            local.stack.append(frame)
            fn = typechecked(f.original) if again else f.decorated
            got = core.quiet_run(fn, *args, **kwargs)
            local.stack.pop()
            return answer(got, frame, ret)

        job = Job(f"{f!r} args={[model.describe(a) for a in args]} "
                  f"kwargs={ {k: model.describe(v) for k, v in kwargs.items()} } "
                  f"ret={model.describe(ret)} raises={exc!r}", ask, want, want == "hard")
        out.append(job)
    return out


EXPECT = {"ok": ("result", 1), "raise": ("raised the body's", 1), "ret": ("TypeError", 1),
          "args": ("TypeError", 0), "sig": ("TypeError", 0)}


def nothing():
    pass


def run(ctx):
    from asta import dims, symbols, typechecked

    (fw,) = frameworks(ctx)
    env = make_env(ctx, fw)
    soft = ctx.world.get("config", {}).get("raise-errors") == "no"
    before = sys.getswitchinterval()
    for name, v in zip(PHS, (2, 3)):
        setattr(dims, name, v)
    for rng in ctx.cases(scale(ctx, 4 if has_tf(ctx) else 16 * ctx.nshards), "concurrent"):
        local = Local()
        values = {**{k: rng.choice([1, 2, 3]) for k in SYMS}, "B": 2, "D": 3}
        jobs = []
        for _ in range(rng.choice([1, 2, 3])):
            jobs += call_jobs(rng, env, values, local, typechecked, rng.choice([3, 5]))
        for _ in range(rng.choice([0, 1, 2])):
            jobs += isinstance_jobs(rng, env, {k: values[k] for k in SYMS})
        jobs = [j for j in jobs if not j.hard]
        if not jobs:
            continue
        out = core.run(lambda: concurrently(ctx, rng, jobs, local, soft))
        sys.setswitchinterval(before)
        if not out.ok:
            raise out.exc


def concurrently(ctx, rng, jobs, local, soft):
    started = time.monotonic()
    for j in jobs:
        j.alone = j.ask(local, nothing)
        j.seconds = time.monotonic() - started
        if j.want in EXPECT and not soft:
            ctx.check(j.alone[:2] == list(EXPECT[j.want]), "the answer alone is not the expected one",
                      job=j.label, got=j.alone, want=j.want)
    budget = max(1, min(40, int(0.35 / max(1e-4, (time.monotonic() - started) / len(jobs)))))
    nthreads = rng.choice([2, 3, 4, 8])
    rounds = max(2, budget // nthreads)
    same = rng.random() < 0.5  # all threads in the same order, or each in its own
    seeds = [rng.random()] * nthreads if same else [rng.random() for _ in range(nthreads)]
    pause = rng.choice([0, 0, 0.0003])
    nest = rng.choice([0, 0.2])
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, 5e-5]))
    overlap, wrong, stop = Overlap(), [], threading.Event()
    counts = {"asked": 0, "nested": 0}
    gate = threading.Barrier(nthreads)

    def work(me):
        r = random.Random(f"{seeds[me - 1]}")
        gate.wait(20)

        def ask(j, depth):
            def inside():
                if pause:
                    time.sleep(pause)
                if depth < 1 and r.random() < nest:
                    counts["nested"] += 1
                    ask(r.choice(jobs), depth + 1)

            overlap.start(me)
            got = j.ask(local, inside)
            overlap.end(me)
            counts["asked"] += 1
            if got != j.alone:
                wrong.append((j, got, me))
                stop.set()

        for _ in range(rounds):
            if stop.is_set():
                return
            ask(r.choice(jobs), 0)

    threads = [threading.Thread(target=guard, args=(work, i + 1, wrong), daemon=True) for i in range(nthreads)]
    rate = rng.choice([0, 0.02, 0.1, -1, -1, -1])
    with Yields(rng.random(), max(rate, 0), 0.25 if rate < 0 else 0) as yields:
        try:
            for t in threads:
                t.start()
            for t in threads:
                t.join()
        finally:
            stop.set()
    for j, got, me in wrong[:1]:
        ctx.check(False, "an answer given while other threads were asking differs from the one alone",
                  job=getattr(j, "label", j), alone=getattr(j, "alone", None), got=got, thread=me)
    ctx.evaluations += counts["asked"]
    ctx.event("asked", counts["asked"])
    ctx.event("nested", counts["nested"])
    ctx.event("injected-yields", yields.count)
    ctx.event("calls-started-while-others-ran", overlap.overlapping)
    ctx.event("thread-switches", sum(abs(a) != abs(b) for a, b in zip(overlap.log, overlap.log[1:])))
    ctx.seen("interleaving", tuple(overlap.log))
    for j in jobs:
        ctx.event("answer-" + str(j.alone[0]))
    ctx.sample(f"{nthreads} threads, {len(jobs)} jobs, {counts}")


def guard(work, me, wrong):
    try:
        work(me)
    except BaseException as err:  # pylint: disable=broad-except
        wrong.append(("harness", repr(err), me))
