#!/usr/bin/env python3
"""Runs the check of each planted change's property on a copy of /repo with
the change: hunt.py [-a] [ID...]   (-a: also say which other checks catch it)"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a != "-a"]
every = "-a" in sys.argv
def one(bid):
    d = os.path.join(V, "seeded", bid)
    if not os.path.exists(d): d = os.path.join("/tmp/nb", bid)
    prop = json.load(open(d + "/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="hunt-")
    try:
        subprocess.run(["cp", "-a", "/repo", tmp + "/repo"], check=True)
        r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=tmp + "/repo", capture_output=True, text=True)
        if r.returncode: return "%s PATCH %s" % (bid, r.stderr[:200])
        env = dict(os.environ, VERIF_DEV_REPO=tmp + "/repo", VERIF_DEV_OUT=tmp + "/out", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        out = []
        props = [prop] if not every else ["C%02d" % i for i in range(1, 24)]
        for p in props:
            r = subprocess.run([sys.executable, V + "/run/check.py", p], env=env, capture_output=True, text=True)
            what = [l for l in r.stdout.splitlines() if l.startswith("-- ")]
            if p == prop or r.returncode != 0:
                out.append("%s rc %d%s %s" % (p, r.returncode, "" if r.returncode else " MISSED", what[0][:60] if what else r.stdout.strip()[-150:]))
        return "%s: %s" % (bid, "; ".join(out))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
ids = args or sorted(os.listdir(os.path.join(V, "seeded")))
with ThreadPoolExecutor(2) as ex:
    for l in ex.map(one, ids): print(l, flush=True)
