"""Histories of the containers and of the string manager (Cont.tla)."""
from bz import *
from urllib.parse import quote

class ContScen:
    def __init__(self, sid, kind, dtor=True, **new):
        self.sid, self.kind = sid, kind
        self.lines, self.ops = [], []
        self.dtor = dtor
        self.u = 0
    def add(self, c, op, line, **f):
        self.lines.append("%s %d %s%s" % (self.kind, c, op, (" " + line) if line else ""))
        self.ops.append(dict(f, kind=self.kind, c=c, op=op, dtor=self.dtor))
    def uid(self): self.u += 1; return self.u
    def scenario(self): return (self.sid, self.lines)
    def describe(self): return self.lines
    def trace(self, res):
        if res.end != "ok": return None, "the container crashed: %s %s\n%s" % (res.end, res.err, "\n".join(self.lines[:60]))
        if len(res.out) != len(self.lines): return None, "incomplete"
        return {"ops": [dict(op, obs=o) for op, o in zip(self.ops, res.out)]}, None
    def explain(self, tr, pos, wanted):
        o = tr["ops"][pos - 1]["obs"]
        return "history\n%s\nobserved %s\nthe specification says %s" % ("\n".join(self.lines[:pos][-40:]), json.dumps(o)[:900], wanted[:900])

def q(k): return quote(k.encode("latin1"), safe="") if k else "%00"

# ---- alphabets: (op, fields); "u": 0 marks operations that put an element in
DA = [("push", dict(u=0)), ("ins", dict(pos=0, u=0)), ("ins", dict(pos=1, u=0)), ("rem", dict(pos=0)), ("rem", dict(pos=1)), ("pop", {}), ("clear", dict(cap=1)), ("set", dict(pos=0, u=0))]
DI = [("set", dict(k=k, u=0)) for k in "123"] + [("rem", dict(k=k)) for k in "123"]
SE = [("ins", dict(k=k, u=0)) for k in "12345"] + [("rem", dict(k=k)) for k in "12345"]
def apply(S, c, op, f):
    f = dict(f)
    if "u" in f and op != "find": f["u"] = S.uid()
    if S.kind == "da":
        line = {"push": "%(u)s", "ins": "%(pos)s %(u)s", "slot": "%(pos)s %(u)s", "rem": "%(pos)s", "pop": "", "clear": "%(cap)s", "set": "%(pos)s %(u)s",
                "find": "%(u)s", "sort": "", "clone": "%(to)s", "free": ""}[op] % f
    else: line = " ".join(([q(f["k"])] if "k" in f else []) + ([str(f["u"])] if "u" in f else []))
    S.add(c, op, line, **f)

def new(S, c=0, **kw):
    if S.kind == "da": S.add(c, "new", "%d %d %d" % (kw.get("cap", 1), kw.get("es", 4), S.dtor))
    elif S.kind == "di": S.add(c, "new", "%s %d %d" % (kw.get("key", "i32"), kw.get("buckets", 1), S.dtor))
    else: S.add(c, "new", "%d" % S.dtor)

def model(ctx, name, kind, alpha, depth, limit, mk, module="ContGen", tail=()):
    conf = {"kind": kind, "alphabet": [dict(f, op=op) for op, f in alpha], "depth": depth}
    fn = workfile("gen-%s.json" % name, json.dumps(conf))
    rc, out = tlc(module, module + ".cfg", env={"GEN": fn}, workers=1, timeout=600, heap="6g")
    if rc != 0 or "No error has been found" not in out: raise CheckError("model %s: rc %d\n%s" % (name, rc, out[-3000:]))
    g, d = tlc_stats(out); ctx.states += d; ctx.transitions += g
    hs = sorted({tuple(int(x) for x in m.group(1).split(", ")) for m in re.finditer(r'<<\s*"H",\s*"<<([\d,\s]*)>>"\s*>>', out)})
    tot = len(hs)
    if len(hs) > limit: hs = ctx.rng("model", name).sample(hs, limit)
    ctx.cov.setdefault("models", {})[name] = {"generated": g, "distinct": d, "depth": depth, "histories": tot, "replayed": len(hs)}
    return [mk("%s.%d" % (name, j), [alpha[i - 1] for i in h]) for j, h in enumerate(hs)]

def mk_cont(kind, **kw):
    def f(sid, ops):
        S = ContScen(sid, kind)
        new(S, **kw)
        for op, fl in ops:
            # uids follow the position in the history, as in the model
            apply(S, 0, op, fl)
        S.add(0, "free", "")
        return S
    return f

def gen_da(sid, R, n=40):
    S = ContScen(sid, "da", dtor=R.random() < 0.8)
    es = R.choice([1, 2, 3, 4, 4, 8, 12, 24])
    size = {}
    if R.random() < 0.25:
        us = [S.uid() for _ in range(R.randint(0, 9))]
        S.add(0, "buf", "%d %d %s" % (es, S.dtor, " ".join(map(str, us))), us=us); size[0] = len(us)
    else: new(S, 0, cap=R.choice([1, 1, 2, 3, 10]), es=es); size[0] = 0
    grow = R.choice([0.3, 0.5, 0.8])
    for _ in range(n):
        c = R.choice(sorted(size)); m = size[c]
        if S.u > 240: break
        x = R.random()
        if R.random() < grow:
            op = R.choice(["push", "push", "ins", "ins", "slot"])
            pos = R.choice([0, m // 2, max(0, m - 1), m, m + R.randint(1, 3) if R.random() < 0.3 else m])
            apply(S, c, op, dict(pos=pos, u=0)); size[c] += 1
        elif x < 0.45:
            pos = R.choice([0, m // 2, max(0, m - 1), m, m + 4])
            apply(S, c, "rem", dict(pos=pos)); size[c] -= pos < m
        elif x < 0.6: apply(S, c, "pop", {}); size[c] -= m > 0
        elif x < 0.7 and m: apply(S, c, "set", dict(pos=R.choice([0, m - 1, m // 2]), u=0))
        elif x < 0.8: apply(S, c, "find", dict(u=R.randint(0, S.u + 1)))
        elif x < 0.86: apply(S, c, "sort", {})
        elif x < 0.92 and len(size) < 3:
            to = max(size) + 1
            apply(S, c, "clone", dict(to=to)); size[to] = m
        elif x < 0.95: apply(S, c, "clear", dict(cap=R.choice([1, 2, 10]))); size[c] = 0
    for c in sorted(size): S.add(c, "free", "")
    return S

KEYS_I = [0, 1, 2, 9, 10, 11, 20, 21, -1, -2, -10, -11, 100, 32767, -32768, 32766, -32767]
def gen_di(sid, R, n=45):
    S = ContScen(sid, "di", dtor=R.random() < 0.8)
    kind = R.choice(["i32", "u32", "i16", "u16", "str", "i32=", "u32+", "str="])
    new(S, 0, key=kind, buckets=R.choice([1, 1, 2, 3, 10, 10]))
    if kind.startswith("str"): ks = ["", "a", "b", "ab", "ba", "aa", "AA", "aaa", "ab\x01", "\xe9t\xe9", "long" * 12, "long" * 12 + "x", "p" * 70 + "a", "p" * 70 + "b", "q" * 300 + "a", "q" * 300 + "b", "Az", "BY", "1", "01"]
    else:
        ks = list(KEYS_I)
        if "32" in kind: ks += [2147483647, -2147483648, 65536, 65537, -65536]
        if "u16" in kind: ks = [k & 0xFFFF for k in ks]
        if "u32" in kind: ks = [k & 0xFFFFFFFF for k in ks]
        if kind == "u32": ks += [4294967295, 2147483648]
        ks = [str(k) for k in sorted(set(ks))]
    if R.random() < 0.25:
        # long chains
        n = 110
        ks = sorted(set(ks) | ({"k%d" % j for j in range(35)} if kind.startswith("str") else {str(j) for j in range(0, 400, 10)}))
        for k in R.sample(ks, len(ks)): apply(S, 0, "set", dict(k=k, u=0))
    else: ks = R.sample(ks, min(len(ks), R.randint(2, 14)))
    for _ in range(n):
        x = R.random()
        k = R.choice(ks)
        if x < 0.5 and S.u < 240: apply(S, 0, "set", dict(k=k, u=0))
        elif x < 0.78: apply(S, 0, "rem", dict(k=k))
        else: apply(S, 0, "get", dict(k=k))
    S.add(0, "free", "")
    return S

def gen_se(sid, R, n=50):
    S = ContScen(sid, "se", dtor=R.random() < 0.8)
    new(S)
    ks = [str(k) for k in R.sample(range(-40, 40), R.randint(2, 24))]
    if R.random() < 0.2: ks.sort(key=int)
    p = R.choice([0.4, 0.55, 0.7])
    for k in ks[:R.randint(0, len(ks))]: apply(S, 0, "ins", dict(k=k, u=0))
    for _ in range(n):
        k = R.choice(ks)
        x = R.random()
        if x < 0.15: apply(S, 0, "get", dict(k=k))
        elif R.random() < p: apply(S, 0, "ins", dict(k=k, u=0))
        else: apply(S, 0, "rem", dict(k=k))
    S.add(0, "free", "")
    return S

# ---------------------------------------------------------------- strings
def sm_apply(S, op, f):
    t = f.get("t")
    qt = q(t) if t is not None else ""
    if op == "reg": S.add(0, "reg", "%s %d" % (qt, f["protect"]), t=t, protect=bool(f["protect"]))
    elif op in ("mark", "get"): S.add(0, op, qt, t=t)
    elif op == "getid": S.add(0, "get", "#%d" % f["id"])
    elif op == "burn": S.add(0, "burn", "%d %d %s" % (f["rounds"], f["n"], ",".join(q(m) for m in f["marks"]) or "%01"), marks=f["marks"])
    else: S.add(0, op, "")
SM = [("reg", dict(t=t, protect=p)) for t in ("a", "b") for p in (False, True)] + [("reg", dict(t="c", protect=False))] + \
     [("clear", dict(t="")), ("prune", dict(t=""))] + [("mark", dict(t=t)) for t in "abc"]
def mk_sm(sid, ops):
    S = ContScen(sid, "sm")
    S.add(0, "new", "")
    for op, f in ops: sm_apply(S, op, f)
    for t in "abc": sm_apply(S, "reg", dict(t=t, protect=False))
    S.add(0, "free", "")
    return S
def gen_sm(sid, R, n=50, wrap=False):
    S = ContScen(sid, "sm")
    S.add(0, "new", "")
    ts = ["", "a", "b", "ab", "ba", "A", "a b", "x" * 40, "\xe9", "1", "01", "s%d", "~burn", "aa", "aB", "p" * 70 + "a", "p" * 70 + "b", "p" * 70, "q" * 300 + "a", "q" * 300 + "b"] + ["t%d" % i for i in range(30)]
    ts = R.sample(ts, R.randint(4, len(ts)))
    if R.random() < 0.5: sm_apply(S, "reg", dict(t=ts[0], protect=True))
    for _ in range(n):
        x = R.random(); t = R.choice(ts)
        if x < 0.5: sm_apply(S, "reg", dict(t=t, protect=R.random() < 0.12))
        elif x < 0.58: sm_apply(S, "get", dict(t=t))
        elif x < 0.60: sm_apply(S, "getid", dict(id=R.choice([0, 1, 5, 40, 32767, 32768, 65535])))
        elif x < 0.66: sm_apply(S, "clear", {})
        elif x < 0.72: sm_apply(S, "mark", dict(t=t))
        elif x < 0.76: sm_apply(S, "prune", {})
        elif x < 0.94:                           # a collection as the machine does it
            sm_apply(S, "clear", {})
            for m in R.sample(ts, R.randint(0, len(ts))): sm_apply(S, "mark", dict(t=m))
            sm_apply(S, "prune", {})
        elif x < 0.97 or not wrap: sm_apply(S, "burn", dict(rounds=R.randint(1, 3), n=R.randint(1, 60), marks=R.sample(ts, R.randint(0, len(ts)))))
        else: sm_apply(S, "burn", dict(rounds=R.randint(120, 150), n=R.randint(400, 600), marks=R.sample(ts, R.randint(0, len(ts)))))
    if wrap:
        sm_apply(S, "burn", dict(rounds=R.randint(120, 140), n=R.randint(440, 560), marks=R.sample(ts, len(ts) // 2)))
        for t in ts: sm_apply(S, "reg", dict(t=t, protect=False))
        sm_apply(S, "burn", dict(rounds=R.randint(1, 140), n=R.randint(1, 500), marks=ts))
        for t in ts: sm_apply(S, "reg", dict(t=t, protect=False))
    S.add(0, "free", "")
    return S
