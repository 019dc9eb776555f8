"""Runs one property's check: evidence, replay files, verdicts."""
import os, sys, json, time, random, traceback, hashlib
from bz import *
import bz

EVID = os.environ.get("BZ_EVIDENCE") or os.path.join(VERIF, "evidence")
LEVELS = {}      # property -> level
CHECKS = {}      # property -> function(ctx)
def prop(pid, level="model_checking"):
    def deco(f):
        CHECKS[pid] = f; LEVELS[pid] = level
        return f
    return deco

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.cov, self.samples, self.viol, self.notes = {}, [], [], []
        self.findings = load_findings()
        self.assumptions = []
        self._no = 0
    def rng(self, *k):
        return random.Random(int(hashlib.sha256(("%s/%d/" % (self.pid, self.seed) + "/".join(map(str, k))).encode()).hexdigest()[:15], 16))
    def n(self, q, t):
        """a bound: q in the quick tier, t in the thorough one; counts of scenarios (not depths) are doubled"""
        return (q if q < 15 else 2 * q) if self.quick else t
    def left(self):
        return (780 if self.quick else 5400) - (time.time() - self.t0)
    def count(self, k, n=1): self.cov[k] = self.cov.get(k, 0) + n
    def sample(self, x):
        if len(self.samples) < 4: self.samples.append(x)
    # -------- verdicts
    def violation(self, what, data):
        self._no += 1
        d = os.path.join(EVID, "replay"); os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, "%s-%d.json" % (self.pid, self._no))
        with open(fn, "w") as f: json.dump({"property": self.pid, "what": what, "data": data}, f, indent=1)
        self.viol.append((what, fn))
        print("VIOLATION property=%s replay=%s" % (self.pid, fn))
        print("  " + what.replace("\n", "\n  ")[:3000])
        sys.stdout.flush()
    def known(self, key):
        """is this finding listed? prints it when it is"""
        f = self.findings.get((self.pid, key))
        if f is None: return False
        print("KNOWN-FINDING: property=%s %s" % (self.pid, f))
        self.notes.append("known finding " + key)
        return True
    # -------- closed models
    def model(self, module, cfg, workers=4, timeout=600, heap="4g", args=()):
        rc, out = tlc(module, cfg, workers=workers, timeout=min(timeout, max(30, self.left())), heap=heap, args=args)
        if rc != 0 or "No error has been found" not in out:
            i = out.find("Error:")
            raise CheckError("the model %s/%s does not satisfy its properties (rc %d):\n%s" % (module, cfg, rc, out[max(0, i):i + 4000]))
        g, d = tlc_stats(out)
        self.states += d; self.transitions += g
        self.cov.setdefault("models", {})[cfg] = {"generated": g, "distinct": d}
        return g, d
    # -------- recorded executions against the specification
    def conform(self, scens, module, kind="asan", tmo=30, what="behaviour", jobs=NCPU, pre=None, vjobs=NCPU, maxv=3):
        """scens: objects with .sid, .scenario(), .trace(result), .describe().  Violations are confirmed by a re-run."""
        if not scens: return
        def once(ss):
            rs = run([s.scenario() for s in ss], kind=kind, tmo=tmo, jobs=jobs)
            bad, tr, ix = {}, [], []
            for s in ss:
                if s.sid not in rs: raise CheckError("no result for scenario " + s.sid)
                t, p = s.trace(rs[s.sid])
                if p: bad[s.sid] = (p, rs[s.sid])
                elif t is not None: tr.append(t); ix.append(s)
            rej, st = validate(module, tr, jobs=vjobs, timeout=max(60, self.left())) if tr else ({}, (0, 0))
            for k, (pos, wanted) in rej.items():
                s = ix[k]
                bad[s.sid] = (s.explain(tr[k], pos, wanted), rs[s.sid])
            return bad, len(tr), st, tr
        bad, n, st, tr = once(scens)
        if bz.OPEN[0]: self.cov["partly_open"] = bz.OPEN[0]
        self.traces += n; self.transitions += st[0]; self.states += st[1]
        self.count("scenarios", len(scens))
        if tr: self.sample({"scenario": scens[0].sid, "trace": str(tr[0])[:700]})
        if bad:
            again = [s for s in scens if s.sid in bad][:12]
            bad2, _, _, _ = once(again)
            for s in again:
                if s.sid in bad2 and len(self.viol) < maxv:
                    p, r = bad2[s.sid]
                    self.violation("%s %s: %s" % (what, s.sid, p), {"scenario": s.describe(), "end": r.end, "stderr": r.err})
                elif s.sid not in bad2:
                    self.count("unconfirmed")
    def evidence(self):
        c = dict(self.cov)
        lv = LEVELS[self.pid]
        if lv == "model_checking":
            c.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces)
        else:
            c.setdefault("evaluations", self.traces)
        c["samples"] = self.samples or ["none"]
        e = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": lv, "coverage": c,
             "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        if self.notes: e["coverage"]["notes"] = self.notes
        d = EVID; os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, self.pid + ".json")
        with open(fn + ".tmp", "w") as f: json.dump(e, f, indent=1)
        os.replace(fn + ".tmp", fn)

def load_findings():
    """known_findings.txt: 'known: property=<id> key=<key> <text>' and 'fixed: ...' lines"""
    out = {}
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m: out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out

def main(argv):
    import checks      # registers
    if len(argv) < 2 or argv[1] not in CHECKS:
        print("usage: check <property>; known: " + " ".join(sorted(CHECKS))); return 2
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 2: tier = argv[2]
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    ctx = Ctx(pid, tier, seed)
    try:
        CHECKS[pid](ctx)
    except CheckError as e:
        if ctx.viol:
            ctx.notes.append("check incomplete: " + str(e)[:300]); ctx.evidence(); return 1
        print("CHECK-ERROR property=%s %s" % (pid, e)); ctx.notes.append("error"); ctx.evidence(); return 3
    except Exception as e:
        traceback.print_exc()
        ctx.notes.append("check failed: %r" % e); ctx.evidence()
        return 1 if ctx.viol else 3
    ctx.evidence()
    print("%s %s: %s in %.1f s (states %d, traces %d)" % (pid, tier, "VIOLATED" if ctx.viol else "held", time.time() - ctx.t0, ctx.states, ctx.traces))
    return 1 if ctx.viol else 0
