#!/usr/bin/env python3
"""seed.py SPECFILE...: make /verif/seeded/<id>/ from a spec and confirm it in a scratch copy.
A spec file is Python defining: id, property, needs, breaks, edits=[(file, old, new)], bzz (or None), c; optional sh."""
import sys, os, subprocess, shutil, json
V = "/verif"; L = V + "/tools/seedlib"; W = "/tmp/seedwork"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = json.load(open("/opt/vp/BASELINE.json"))
base = base.get("passed") or base.get("stable") or base
def prepare():
    shutil.rmtree(W, ignore_errors=True)
    sh("git -C /repo worktree prune; mkdir -p %s && git -C /repo archive HEAD | tar -x -C %s" % (W, W))
    sh("cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x" % W)
    for f in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + f).read().replace("/repo", W).replace("/opt/vp/build.sh", W + ".build.sh")
        open(W + "." + f, "w").write(s)
    r = sh("bash %s.build.sh" % W)
    if r.returncode: print(r.stdout[-2000:], r.stderr[-2000:]); sys.exit(1)
def one(fn):
    g = {}; exec(open(fn).read(), g)
    d = "%s/seeded/%s" % (V, g["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh("git -C %s checkout -- ." % W); sh("bash %s.build.sh" % W)
    for f, a, b in g["edits"]:
        p = "%s/src/%s" % (W, f if "/" in f else "buzz/" + f)
        s = open(p).read()
        if s.count(a) != 1: print(g["id"], "edit matches", s.count(a), "times:", a[:70]); return False
    if "sh" in g: open(d + "/demo.sh", "w").write(g["sh"])
    else:
        shutil.copy(L + "/demo.sh", d); shutil.copy(L + "/mini.h", d)
        open(d + "/demo.c", "w").write(g["c"])
    if g.get("bzz"): open(d + "/demo.bzz", "w").write(g["bzz"])
    for f, t in g.get("files", {}).items(): open(d + "/" + f, "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": g["property"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    clean = sh("bash %s/demo.sh" % d, cwd=W)
    for f, a, b in g["edits"]:
        p = "%s/src/%s" % (W, f if "/" in f else "buzz/" + f)
        s = open(p).read(); open(p, "w").write(s.replace(a, b))
    open(d + "/patch.diff", "w").write(sh("git -C %s diff" % W).stdout)
    t = sh("bash %s.test.sh /tmp/seed.out.json" % W)
    o = json.load(open("/tmp/seed.out.json"))
    miss = [x for x in base if x not in o["passed"]]
    bug = sh("bash %s/demo.sh" % d, cwd=W)
    ok = clean.returncode == 0 and bug.returncode != 0 and not miss
    print(g["id"], "OK" if ok else "BAD", "clean", clean.returncode, clean.stdout[-300:] + clean.stderr[-300:] if clean.returncode else "", "bug", bug.returncode, "missing", miss[:3], (bug.stdout or bug.stderr)[:160].replace("\n", " | "))
    sh("git -C %s checkout -- ." % W)
    return ok
prepare()
for f in sys.argv[1:]: one(f)
