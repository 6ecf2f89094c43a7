"""dev tool: define planted bugs. mk(id, prop, [(file, old, new)], needs, breaks, demo_py)"""
import json, os, subprocess, shutil, sys
S = "/verif/seeded"

HEAD = '''import os, sys
import numpy as onp
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
import feax as fe
'''


def mk(id, prop, edits, needs, breaks, demo):
    d = f"{S}/{id}"
    os.makedirs(d, exist_ok=True)
    W = f"/tmp/mkbug/{id}"
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    subprocess.check_call(["git", "clone", "-q", "/repo", W + "/r"])
    for f, old, new in edits:
        p = f"{W}/r/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", W + "/r", "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(HEAD + demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(W)
    print(id, len(diff))
