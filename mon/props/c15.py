"""C15: the configuration comes from the documented file and defaults."""
import os
import shutil
import sys

from props import forked

IMPORTS_ASTA_ITSELF = True

DEFAULTS = {"on": True, "raise_errors": True, "print_passes": True, "check_non_asta_types": False,
            "check_all_sequence_elements": True}


def random_options(rng):
    keys = rng.sample(sorted(DEFAULTS), rng.choice([0, 1, 2, 3, 5]))
    if rng.random() < 0.5 and keys:  # make the file observable
        keys = sorted(DEFAULTS)
    return {k: rng.random() < 0.5 for k in keys}


NOISE = ["on=no\nraise-errors=no\n", "print-passes=no\n", "check-non-asta-types=yes\non=no\n", "x=1\n"]


def ini(rng, opts, section):
    lines = []
    if rng.random() < 0.3:
        lines.append(f"[other]\n{rng.choice(NOISE)}")
    body = f"[{section}]\n"
    if rng.random() < 0.4:
        body += "\n# a comment\n"
    items = list(opts.items())
    rng.shuffle(items)
    for k, v in items:
        k = k.replace("_", "-")
        if rng.random() < 0.1:
            k = k.upper()
        body += rng.choice(["{k}={v}\n", "{k} = {v}\n", "{k}: {v}\n"]).format(k=k, v="yes" if v else "no")
    lines.append(body)
    if rng.random() < 0.3:
        lines.append(f"[{rng.choice(['extra', 'MASTERS', 'master2', 'asta'])}]\n{rng.choice(NOISE)}")
    return "\n".join(lines)


def toml(rng, opts, section):
    boolean = rng.random() < 0.4
    out = ""
    if rng.random() < 0.4:
        out += '[tool.black]\nline-length = 88\non = "no"\n\n'
    out += f"[tool.asta.{section}]\n"
    for k, v in opts.items():
        val = ("true" if v else "false") if boolean else ('"yes"' if v else '"no"')
        out += f"{k.replace('_', '-')} = {val}\n"
    if rng.random() < 0.3:
        out += '\n[tool.asta.other]\non = "no"\nraise-errors = "no"\n'
    if rng.random() < 0.3:
        out += '\n[build-system]\nrequires = ["setuptools"]\n'
    return out


def irrelevant(rng, name):
    if name == "pyproject.toml":
        return rng.choice(['[tool.black]\non = "no"\n', '[build-system]\nrequires = []\n', "",
                           '[tool.other.MASTER]\non = "no"\n', '[tool.astaroth.MASTER]\non = "no"\n',
                           '[asta.MASTER]\non = "no"\nraise-errors = "no"\n', '[project]\nname = "asta"\n',
                           '[tool.poetry]\nname = "tool.asta.MASTER"\n', "# [tool.asta.MASTER]\n"])
    return rng.choice(["[metadata]\nname = x\n", "[tool:pytest]\non=no\n", "[MASTER]\non=no\nraise-errors=no\n",
                       "[flake8]\nmax-line-length=88\n", "",
                       "[astaroth]\non=no\n", "[asta]\non=no\nraise-errors=no\n", "[astaMASTER]\non=no\n",
                       "[tool:asta.MASTER]\non=no\nraise-errors=no\n", "[other.asta.MASTER]\nx=1\n"])


def write(path, text, rng):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    data = text.encode()
    if rng.random() < 0.08 and not path.endswith((".toml", ".cfg")):
        data = b"\xef\xbb\xbf" + data
    with open(path, "wb") as fh:
        fh.write(data)


def section(rng):
    return rng.choice(["MASTER", "MASTER", "master", "Master"])


def layout(rng, top):
    """A directory tree; returns (cwd, env, name of the file in effect, its options)."""
    cwd = os.path.join(top, "a", "b", "c")[: None]
    os.makedirs(cwd)
    home = os.path.join(top, "home")
    os.makedirs(home)
    chosen = [None, {}]

    def effective(name, opts):
        if chosen[0] is None:
            chosen[0], chosen[1] = name, opts

    p = rng.choice([0.04, 0.12, 0.3, 0.6])
    for name in ("astarc", ".astarc"):
        if rng.random() < p:
            o = random_options(rng)
            write(os.path.join(cwd, name), ini(rng, o, section(rng)), rng)
            effective(name, o)
        elif rng.random() < 0.05:
            os.makedirs(os.path.join(cwd, name))
    for name in ("pyproject.toml", "setup.cfg"):
        r = rng.random()
        if r < p:
            o = random_options(rng)
            text = toml(rng, o, section(rng)) if name.endswith("toml") else ini(rng, o, "asta." + section(rng))
            write(os.path.join(cwd, name), text, rng)
            effective(name, o)
        elif r < p + 0.25:
            write(os.path.join(cwd, name), irrelevant(rng, name), rng)
    # Parent packages: a/b/c with __init__.py in c, b, a.
    depth = rng.choice([0, 0, 1, 2, 3])
    dirs = [cwd, os.path.dirname(cwd), os.path.dirname(os.path.dirname(cwd))]
    for d in dirs[:depth]:
        write(os.path.join(d, "__init__.py"), "", rng)
    for i, d in enumerate(dirs[1:]):
        for name in ("astarc", ".astarc"):
            if rng.random() < p * 0.7:
                o = random_options(rng)
                inside = i + 1 < depth  # d is itself a package
                if inside or i + 1 > depth:
                    write(os.path.join(d, name), ini(rng, o, section(rng)), rng)
                    if inside:
                        effective(f"parent {i + 1} {name}", o)
    env, unset = {"HOME": home}, ["ASTARC"]
    if rng.random() < 0.35:
        o = random_options(rng)
        path = os.path.join(top, "elsewhere", rng.choice(["my.cfgfile", "astarc", "conf.ini"]))
        write(path, ini(rng, o, section(rng)), rng)
        env["ASTARC"], unset = path, []
        effective("ASTARC", o)
    for name in (".astarc", ".config/astarc"):
        if rng.random() < p:
            o = random_options(rng)
            write(os.path.join(home, name), ini(rng, o, section(rng)), rng)
            if "ASTARC" not in env:
                effective("home " + name, o)
    return cwd, env, unset, chosen[0], chosen[1]


def run(ctx):
    ctx.CASE_LIMIT = 0  # the children have a time limit
    forked.preload()
    top = os.path.abspath("layouts")
    n = 4000 if ctx.tier == "quick" else 30000
    for rng in ctx.cases(n, "layout"):
        here = os.path.join(top, str(ctx.case["index"]))
        cwd, env, unset, name, opts = layout(rng, here)
        want = {**DEFAULTS, **opts}

        def work():
            return forked.behaviour()

        got = forked.child(work, cwd, env, unset + ["ASTA_TYPECHECK"])
        info = dict(file=name, file_options=opts, layout=sorted(
            os.path.relpath(os.path.join(d, f), here) for d, _, fs in os.walk(here) for f in fs))
        if ctx.check("crash" not in got, "asta could not be imported or used", got=got, **info):
            ctx.equal(got["options"], want, "the options in effect", **info)
            ctx.equal(got["observed"], forked.expected(want), "the behaviour under the options", **info)
        ctx.event("file-" + str(name))
        ctx.seen(name, tuple(sorted(opts.items())))
        ctx.sample(f"{name}: {opts}")
        shutil.rmtree(here, ignore_errors=True)
