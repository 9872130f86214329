#!/opt/venv/bin/python
"""Sanity check of the sandbox before any check: nothing has to be built."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import plan  # noqa: E402

for name in ("numpy", "sympy", "oxentiel", "toml"):
    importlib.import_module(name)
for pid in plan.PLAN:
    path = os.path.join(HERE, "props", pid.lower() + ".py")
    compile(open(path).read(), path, "exec")
os.makedirs(os.path.join(os.path.dirname(HERE), "evidence"), exist_ok=True)
print("ready:", " ".join(plan.PLAN))
