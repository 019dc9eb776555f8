#!/usr/bin/env python3
"""trybugs.py [id...]: run the property's quick check against each planted bug, in a scratch copy given by BUZZ_REPO."""
import sys, os, subprocess, json, shutil, concurrent.futures as cf
V = "/verif"
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
def one(i):
    d = "/tmp/try.%s" % i
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run("git -C /repo archive HEAD | tar -x -C %s" % d, shell=True)
    r = subprocess.run(["git", "apply", "--directory", "", "%s/seeded/%s/patch.diff" % (V, i)], cwd=d, capture_output=True, text=True)
    if r.returncode: return i, "does not apply " + r.stderr
    p = json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
    r = subprocess.run([V + "/check", p], cwd=V, capture_output=True, text=True, env=dict(os.environ, BUZZ_REPO=d, BZ_EVIDENCE=d + "/ev"))
    shutil.rmtree(d, ignore_errors=True)
    return i, "%s %s %s" % (p, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + p in r.stdout else "missed rc=%d" % r.returncode, r.stdout[-300:].replace("\n", " | ") if r.returncode != 1 else r.stdout[:350].replace("\n", " | "))
with cf.ThreadPoolExecutor(2) as ex:
    for i, t in ex.map(one, ids): print(i, t, flush=True)
