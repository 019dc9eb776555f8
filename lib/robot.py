"""Scenarios for one or several robots, and their conversion into traces of RobotTrace.tla."""
import random
from bz import *

MANAGERS = {
    "local": "return l", "remote": "return r",
    "low": "if(l.robot < r.robot) { return l } return r",
    "own": "return {.robot=id,.data=\"mine\"}",
    "third": "return {.robot=99,.data=\"third\"}",
    "lmix": "l.data = r.data return l",
    "nil": "return {.robot=r.robot}",
    "bad": "return 3", "norobot": "return {.data=1}",
    "err": "return 1+nil",
}
LOST = {"rec": "", "put": "v%d.put(k, \"again\")", "err": "var x = 1+nil"}
LISTENERS = {
    "rec": "", "ign": "neighbors.ignore(t)", "echo": "neighbors.broadcast(\"echo\", v)",
    "swap": "neighbors.listen(t, function(t,v,r) { rec(\"ls\",\"rec\",t,v,r) })",
    "put": "if(v1 != nil) { v1.put(t, v) }", "err": "var x = 1+nil",
}

class Scen:
    """Records spec operations and the harness lines that perform them."""
    def __init__(self, sid, robots):
        self.sid, self.robots = sid, robots
        self.norm = False               # keys 3 and 3.0 are one: take whole floats for integers throughout
        self.funs, self.lines, self.ops = [], [], []
        self.base = "p" + sid
        self.nslot = 0
        self.lines.append("compile %s.bzz %s" % (self.base, self.base)); self.ops.append(None)
        for r in robots:
            self.lines.append("vm %d %s" % (r, self.base)); self.ops.append(None)
            self.script(r, {"op": "nop"}, "")
    def script(self, r, op, text):
        """a script-level operation: text is the body of the function called"""
        if text in self.funs: i = self.funs.index(text)
        else: i = len(self.funs); self.funs.append(text)
        self.lines.append("call %d o%d" % (r, i))
        self.ops.append(dict(op, r=r))
    def host(self, line, op): self.lines.append(line); self.ops.append(op)
    # --- script ops
    def create(self, r, i): self.script(r, {"op": "create", "id": i}, "v%d = stigmergy.create(%d)" % (i, i))
    def put(self, r, i, k, v):
        self.script(r, {"op": "put", "id": i, "k": tok(k), "v": tok(v)}, "v%d.put(%s, %s)" % (i, lit(k), lit(v)))
    def get(self, r, i, k): self.script(r, {"op": "get", "id": i, "k": tok(k)}, "rec(v%d.get(%s))" % (i, lit(k)))
    def size(self, r, i): self.script(r, {"op": "size", "id": i}, "rec(v%d.size())" % i)
    def all(self, r, i): self.script(r, {"op": "all", "id": i}, "v%d.foreach(function(k,v,r) { rec(k,v,r) })" % i)
    def onconflict(self, r, i, kind):
        self.script(r, {"op": "onconflict", "id": i, "kind": kind},
                    "v%d.onconflict(function(k,l,r) { rec(\"oc\",k,l.robot,l.data,l.timestamp,r.robot,r.data,r.timestamp) %s })"
                    % (i, MANAGERS[kind]))
    def onlost(self, r, i, kind):
        body = LOST[kind]
        if "%d" in body: body = body % i
        self.script(r, {"op": "onlost", "id": i, "kind": kind},
                    "v%d.onconflictlost(function(k,l) { rec(\"ol\",k,l.robot,l.data,l.timestamp) %s })" % (i, body))
    def screate(self, r, i): self.script(r, {"op": "screate", "id": i}, "s%d = swarm.create(%d)" % (i, i))
    def sjoin(self, r, i): self.script(r, {"op": "sjoin", "id": i}, "s%d.join()" % i)
    def sleave(self, r, i): self.script(r, {"op": "sleave", "id": i}, "s%d.leave()" % i)
    def sselect(self, r, i, n): self.script(r, {"op": "sselect", "id": i, "b": n != 0}, "s%d.select(%s)" % (i, lit(["i", n])))
    def sin(self, r, i): self.script(r, {"op": "sin", "id": i}, "rec(s%d.in())" % i)
    def sothers(self, r, i, n): self.script(r, {"op": "sothers", "id": i, "new": n}, "s%d = s%d.others(%d)" % (n, i, n))
    def setop(self, r, kind, n, a, b):
        f = {"sunion": "union", "sinter": "intersection", "sdiff": "difference"}[kind]
        self.script(r, {"op": kind, "new": n, "a": a, "b": b}, "s%d = swarm.%s(%d, s%d, s%d)" % (n, f, n, a, b))
    def exec(self, r, stack, body, x=0, ret=False):
        """nested executes; every level reports the enclosing swarms on entry and on exit"""
        t = {"id": 'rec("in", swarm.id(), swarm.id(1), swarm.id(2), swarm.id(9))',
             "kin": 'neighbors.kin().foreach(function(rid,d) { rec("kin",rid) }) neighbors.nonkin().foreach(function(rid,d) { rec("nonkin",rid) })',
             "kinof": 'neighbors.kin().kin().foreach(function(rid,d) { rec("kin",rid) }) neighbors.nonkin().nonkin().foreach(function(rid,d) { rec("nonkin",rid) }) neighbors.kin().nonkin().foreach(function(rid,d) { rec("both",rid) }) neighbors.nonkin().kin().foreach(function(rid,d) { rec("both",rid) })',
             "leave": "s%d.leave()" % stack[-1], "join": "s%d.join()" % x, "err": "var x = 1+nil"}[body]
        for s in reversed(stack):
            t = 's%d.exec(function() { rec("on", swarm.id()) %s rec("off", swarm.id(), swarm.id(2)) %s })' % (s, t, "return 5" if ret else "")
        self.script(r, {"op": "exec", "stack": stack, "body": body, "x": x}, t + ' rec("end")')
    def sid_(self, r): self.script(r, {"op": "sid"}, "rec(swarm.id())")
    def kin0(self, r):
        self.script(r, {"op": "kin0"},
                    'neighbors.kin().foreach(function(rid,d) { rec("kin",rid) }) neighbors.nonkin().foreach(function(rid,d) { rec("nonkin",rid) })')
    def listen(self, r, topic, kind):
        self.script(r, {"op": "listen", "topic": "s:" + topic, "kind": kind},
                    'neighbors.listen("%s", function(t,v,r) { rec("ls","%s",t,v,r) %s })' % (topic, kind, LISTENERS[kind]))
    def ignore(self, r, topic): self.script(r, {"op": "ignore", "topic": "s:" + topic}, 'neighbors.ignore("%s")' % topic)
    def bcast(self, r, topic, v):
        self.script(r, {"op": "bcast", "topic": "s:" + topic, "v": tok(v)}, 'neighbors.broadcast("%s", %s)' % (topic, lit(v)))
    # --- host ops
    def keep(self, r):
        self.nslot += 1
        self.host("keep %d %d" % (r, self.nslot), {"op": "keep", "r": r, "slot": self.nslot})
        return self.nslot
    def give(self, slot, to): self.host("give %d %d" % (slot, to), {"op": "give", "slot": slot, "to": to})
    def peek(self, r): self.host("peek %d" % r, {"op": "peek", "r": r})
    def qsize(self, r): self.host("qsize %d" % r, {"op": "qsize", "r": r})
    def procin(self, r): self.host("procin %d" % r, {"op": "procin", "r": r})
    def procout(self, r): self.host("procout %d" % r, {"op": "procout", "r": r})
    def feed(self, to, frm, m, raw=None):
        """m: message with JSON values in key/val/topic"""
        am = dict(m)
        for f in ("key", "val", "topic"):
            if f in am: am[f] = tok(am[f])
        if am["t"] == "L": am["ids"] = sorted(am["ids"])
        h = (raw if raw is not None else encmsg(m)).hex()
        self.host("feed %d %d %s" % (to, frm, h), {"op": "feed", "to": to, "from": frm, "m": am})
    def nbrs(self, r, ids):
        self.lines.append("nbrreset %d" % r); self.ops.append(None)
        for i in ids[:-1]: self.lines.append("nbradd %d %d 64 0 0" % (r, i)); self.ops.append(None)
        if ids: self.host("nbradd %d %d 64 0 0" % (r, ids[-1]), {"op": "nbrs", "r": r, "ids": ids})
        else: self.ops[-1] = {"op": "nbrs", "r": r, "ids": []}
    def members(self, r, robots, swarms):
        self.host("members %d %s %s" % (r, ",".join(map(str, robots)), ",".join(map(str, swarms))),
                  {"op": "members", "r": r, "robots": robots, "swarms": swarms})
    def settle(self, topo, rounds=40):
        self.host("settle %d %s" % (rounds, " ".join("%d:%s" % (a, ",".join(map(str, bs))) for a, bs in topo.items())),
                  {"op": "settle", "topo": topo})
    def list(self, r):
        """advance to and queue a swarm list: a full period of rounds"""
        for _ in range(10): self.procout(r)
    def drain(self, r, n):
        for _ in range(n): self.keep(r)
    def source(self):
        ids = sorted({0} | {int(x) for f in self.funs for x in re.findall(r"\b[vs](\d+)\b", f)})
        t = "".join("v%d = nil\ns%d = nil\n" % (i, i) for i in ids)
        for i, f in enumerate(self.funs): t += "function o%d() { %s }\n" % (i, f)
        return t
    def scenario(self):
        fn = workfile(self.base + ".bzz", self.source())
        ls = list(self.lines)
        ls[0] = "compile %s %s" % (fn, os.path.join(tmp(), "files", self.base))
        ls = [l.replace(" " + self.base, " " + os.path.join(tmp(), "files", self.base), 1) if l.startswith("vm ") else l for l in ls]
        return (self.sid, ls)

    # --- recorded output -> trace
    def trace(self, res):
        """returns (trace or None, problem or None)"""
        if res.end != "ok": return None, "the robot program crashed: %s %s" % (res.end, res.err)
        if len(res.out) != len(self.lines): return None, "harness output incomplete"
        ops = []
        slot = [100000]
        def st(o): return "error:%d" % o["err"] if o["st"] == 3 else "ready"
        def lg(l): return [[tok(v) for v in e] for e in l]
        for line, op, o in zip(self.lines, self.ops, res.out):
            if op is None:
                if o.get("op") == "compile" and o["rc"] != 0: return None, "script refused: rc %s" % o["rc"]
                if o.get("op") == "vm" and o["st"] != 2: return None, "script failed at start: %s" % o.get("msg")
                continue
            k = op["op"]
            if k == "settle":
                for e in o["ev"]:
                    if e[0] == "k":
                        slot[0] += 1
                        ops.append({"op": "keep", "r": e[1], "slot": slot[0], "obs": {"m": decmsg(e[2]), "q": e[3]}})
                        for t in op["topo"][e[1]]:
                            ops.append({"op": "give", "slot": slot[0], "to": t, "obs": {"ok": True}})
                    else:
                        ops.append({"op": "procin", "r": e[1], "obs": {"st": "error:%d" % e[3] if e[2] == 3 else "ready", "log": lg(e[4])}})
                        if e[2] != 3 and e[5] != 0: return None, "message processing left %d values on the stack" % e[5]
                if not o["quiet"]: return None, "the exchange of messages does not end"
                continue
            op = dict(op)
            if k in ("keep",): op["obs"] = {"m": decmsg(o["m"]), "q": o["q"]}
            elif k == "peek": op["obs"] = {"m": decmsg(o["m"])}
            elif k in ("give", "feed", "nbrs", "agree"): op["obs"] = {"ok": True}
            elif k in ("procout", "qsize"): op["obs"] = {"q": o["q"]}
            elif k == "members": op["obs"] = {"in": o["in"]}
            elif k == "procin":
                op["obs"] = {"st": st(o), "log": lg(o["log"])}
                if o["st"] != 3 and o["grow"] != 0: return None, "message processing left %d values on the stack" % o["grow"]
                if o["st"] != 3 and o["left"] != 0: return None, "message processing left %d messages unhandled" % o["left"]
            else:
                op["obs"] = {"st": st(o), "log": lg(o["log"])}
                if o["st"] != 3 and o["grow"] != 1: return None, "a call from the host left %d values instead of one" % o["grow"]
            ops.append(op)
        if self.norm:
            def walk(x):
                if isinstance(x, dict): return {k: walk(v) for k, v in x.items()}
                if isinstance(x, list): return [walk(v) for v in x]
                if isinstance(x, str) and x.startswith("f:"):
                    f = bitsf(int(x[2:]))
                    if f == int(f): return "i:%d" % f
                return x
            ops = walk(ops)
        return {"robots": self.robots, "ops": ops}, None

# ------------------------------------------------------------------ values
def rnd_val(R, depth=2, nil=True):
    x = R.random()
    if x < 0.35: return ["i", R.choice([0, 1, -1, 5, 7, 42, 255, 256, 65535, 65536, -65536, 2147483647, -2147483648, R.randint(-10**6, 10**6)])]
    if x < 0.55: return ["s", R.choice(["", "a", "b", "foo", "hello world", "x" * R.randint(1, 40), "k%d" % R.randint(0, 9)])]
    if x < 0.70: return ["f", fbits(R.choice([0.5, -0.5, 1.5, 0.25, 3.75, -1000.125, 65536.5, 0.0009765625, R.randint(-10**6, 10**6) / 64.0]))]
    if x < 0.78 and nil: return ["n"]
    if depth == 0: return ["i", R.randint(0, 9)]
    es, seen = [], set()
    for _ in range(R.randint(0, 4)):
        k = R.choice([["i", R.randint(0, 9)], ["s", R.choice("abcdef")]])
        if tok(k) in seen: continue
        seen.add(tok(k))
        es.append([k, rnd_val(R, depth - 1, nil=False)])
    return ["t", es, len(es)]

KEYS = [["i", 1], ["s", "a"], ["s", "1"], ["i", -3], ["f", fbits(2.5)], ["s", "key two"], ["i", 100]]
def rnd_small(R): return ["i", R.randint(1, 9)]

# ------------------------------------------------------------------ random scenarios
def age_up(S, R, robots, ids, keys, often=0.25):
    """entries that have been written very often: every later message of the scenario carries a version on from there"""
    if R.random() >= often: return 0
    base = R.choice([125, 126, 253, 254, 510, 32764, 32766, 32767, 65000, 65400])
    for r in robots:
        for i in ids:
            for k in keys:
                if R.random() < 0.8: S.feed(r, 4, {"t": "P", "id": i, "key": k, "val": rnd_small(R), "ts": base, "rob": R.choice([2, 4, 300])})
        S.procin(r)
        if R.random() < 0.7: S.drain(r, 20)
    return base
def gen_vstig(sid, R, n=30, managers=None, recreate=True, nil=0.12, env=True, nids=2, nkeys=3, single=False):
    robots = [R.choice([1, 300])] if single else R.sample([1, 2, 3, 5] if R.random() < 0.7 else [1, 255, 256, 300, 65535], R.randint(2, 3))
    S = Scen(sid, robots)
    ids = R.sample([1, 2, 3, 7] if R.random() < 0.6 else [0, 1, 255, 256, 257, 512, 65535], nids)
    keys = R.sample(KEYS, nkeys)
    if R.random() < 0.1: S.norm = True; keys = R.sample([["i", -3], ["f", fbits(-3.0)], ["i", 2], ["f", fbits(2.0)], ["s", "2"], ["f", fbits(-2.5)]], 4)
    for r in robots:
        for i in ids:
            if R.random() < 0.9: S.create(r, i)
    have = {(o["r"], o["id"]) for o in S.ops if o and o["op"] == "create"}
    if not have:
        S.create(robots[0], ids[0]); have.add((robots[0], ids[0]))
    slots, pend = [], {r: set() for r in robots}
    if managers:
        for (r, i) in sorted(have):
            if R.random() < 0.8: S.onconflict(r, i, R.choice(managers))
            if R.random() < 0.7: S.onlost(r, i, R.choice(["rec", "rec", "put"]))
    base = age_up(S, R, robots, ids, keys) if env else 0
    for _ in range(n):
        x = R.random()
        r, i = R.choice(sorted(have))
        k = R.choice(keys)
        if x < 0.22: S.put(r, i, k, ["n"] if R.random() < nil else (rnd_val(R) if R.random() < 0.4 else rnd_small(R)))
        elif x < 0.32: S.get(r, i, k)
        elif x < 0.36: S.size(r, i)
        elif x < 0.41: S.all(r, i)
        elif x < 0.42 and recreate: S.create(r, i)
        elif x < 0.44 and managers:
            S.onconflict(r, i, R.choice(managers))
        elif x < 0.62 and len(robots) > 1:
            a = R.choice(robots)
            s = S.keep(a); slots.append((s, a))
            for b in robots:
                if b != a and R.random() < 0.7: S.give(s, b); pend[b].add(a)
        elif x < 0.68 and slots:          # duplicate or late delivery
            s, a = R.choice(slots)
            b = R.choice(robots)
            S.give(s, b); pend[b].add(a)
        elif x < 0.80 and env:
            to = R.choice(robots)
            f = R.choice([a for a in (4, 6, 8, 9)])
            m = {"t": R.choice("PPPQQ"), "id": R.choice(ids + [55]), "key": k,
                 "val": ["n"] if R.random() < 0.15 else (rnd_val(R) if R.random() < 0.3 else rnd_small(R)),
                 "ts": base + R.choice([0, 1, 1, 2, 2, 3, 4, 130]) if R.random() < 0.9 else R.choice([0, 1, 3]), "rob": R.choice([1, 2, 3, 4, 6, 9, 500])}
            S.feed(to, f, m); pend[to].add(f)
        elif x < 0.84: S.qsize(r)
        elif x < 0.87: S.drain(R.choice(robots), 2)
        else:
            b = R.choice(robots)
            S.procin(b); pend[b].clear()
    for r in robots:
        S.procin(r)
    for (r, i) in sorted(have): S.all(r, i); S.size(r, i)
    for (r, i) in sorted(have):
        for k in keys: S.get(r, i, k)
    for r in robots: S.drain(r, 9); S.qsize(r)
    return S

ALLMAN = ["local", "remote", "low", "own", "third", "lmix", "nil", "bad", "norobot"]

def gen_conflict(sid, R):
    """one or two robots, prepared conflicts on both message kinds, every kind of manager"""
    me = R.choice([1, 5, 9, 300])
    S = Scen(sid, [me])
    ids = [1, 2] if R.random() < 0.7 else [256, 0]
    keys = R.sample(KEYS, 2)
    for i in ids: S.create(me, i)
    for i in ids:
        if R.random() < 0.75: S.onconflict(me, i, R.choice(ALLMAN))
        if R.random() < 0.75: S.onlost(me, i, R.choice(["rec", "rec", "put", "err"]))
    base = age_up(S, R, [me], ids, keys)
    for _ in range(R.randint(3, 8)):
        i, k = R.choice(ids), R.choice(keys)
        x = R.random()
        if x < 0.35: S.put(me, i, k, rnd_val(R))
        elif x < 0.5:
            S.feed(me, 4, {"t": "P", "id": i, "key": k, "val": rnd_val(R), "ts": base + R.choice([1, 2, 3]), "rob": R.choice([1, 4, 5, 9, 12])}); S.procin(me)
        ts = base + R.choice([0, 1, 1, 1, 2, 2, 3])
        for _ in range(R.choice([1, 1, 2])):
            S.feed(me, R.choice([4, 4, 6]), {"t": R.choice("PQ"), "id": i, "key": k, "val": rnd_val(R), "ts": ts, "rob": R.choice([1, 2, 4, 5, 9, 12, 44, 300, 65535])})
        S.procin(me)
        if R.random() < 0.3: S.drain(me, R.randint(1, 3))
        if R.random() < 0.3: S.all(me, i)
        if R.random() < 0.12: S.onconflict(me, i, R.choice(ALLMAN + ["err"]))
        if R.random() < 0.1: S.onlost(me, i, R.choice(["rec", "put", "err"]))
        if R.random() < 0.05: S.create(me, i)
    for i in ids: S.all(me, i)
    S.drain(me, 8)
    for i in ids:
        for k in keys: S.get(me, i, k)
    S.drain(me, 5)
    return S

def gen_swarm(sid, R, n=30):
    me = R.choice([1, 2, 300])
    S = Scen(sid, [me])
    ids = R.sample([0, 1, 2, 3, 4, 5], 4) if R.random() < 0.5 else R.sample([0, 1, 44, 255, 256, 257, 300, 1000, 32768, 65535], 4)
    if R.random() < 0.2: ids = R.sample([0, 1, 2, 3, 4, 5, 6, 7, 255, 256, 300, 65535], R.randint(6, 10))
    have = []
    others = [11, 12, 13] if R.random() < 0.6 else [3, 259, 65535]
    if R.random() < 0.6: S.nbrs(me, R.sample(others, R.randint(0, 3)))
    if R.random() < 0.2:
        for _ in range(R.choice([3, 9, 10, 11, 14])): S.procout(me)
        S.peek(me)
    for i in ids[:2]: S.screate(me, i); have.append(i)
    for _ in range(n):
        x = R.random()
        i = R.choice(have)
        if x < 0.08:
            j = R.choice(ids); S.screate(me, j)
            if j not in have: have.append(j)
        elif x < 0.20: S.sjoin(me, i)
        elif x < 0.27: S.sleave(me, i)
        elif x < 0.34: S.sselect(me, i, R.choice([0, 1, 1, 2, 256, -1, 65536, 512]))
        elif x < 0.40: S.sin(me, i)
        elif x < 0.45:
            j = R.choice(ids); S.sothers(me, i, j)
            if j not in have: have.append(j)
        elif x < 0.56:
            j = R.choice(ids); S.setop(me, R.choice(["sunion", "sinter", "sdiff"]), j, i, R.choice(have))
            if j not in have: have.append(j)
        elif x < 0.68:
            st = [R.choice(have) for _ in range(R.choice([1, 1, 2, 3, 3, 6]))]
            b = R.choice(["id", "id", "kin", "kin", "kinof", "leave", "join"])
            S.exec(me, st, b, R.choice(have), R.random() < 0.4)
        elif x < 0.71: S.sid_(me)
        elif x < 0.84:
            for _ in range(R.randint(1, 3)):
                f = R.choice(others)
                t = R.choice("LJJV")
                m = {"t": "L", "ids": R.sample(ids, R.randint(0, len(ids)))} if t == "L" else {"t": t, "id": R.choice(ids)}
                S.feed(me, f, m)
            S.procin(me)
            S.members(me, others, ids)
        elif x < 0.88: S.procout(me); S.peek(me)
        elif x < 0.91:
            for _ in range(R.randint(1, 11)): S.procout(me)
        elif x < 0.95: S.drain(me, R.randint(1, 3))
        elif x < 0.97: S.kin0(me)
        else: S.nbrs(me, R.sample(others, R.randint(0, 3)))
    for i in have: S.sin(me, i)
    S.members(me, others, ids)
    S.drain(me, 7)
    S.qsize(me)
    return S

def gen_age(sid, R):
    """long silences: a neighbour is forgotten after more than 50 rounds"""
    me = 1
    S = Scen(sid, [me])
    others, ids = [11, 12], [1, 2]
    S.nbrs(me, others)
    S.screate(me, 1); S.sjoin(me, 1)
    for f in others:
        S.feed(me, f, {"t": R.choice("LJ"), "ids": [1, 2], "id": 1} if False else ({"t": "L", "ids": R.sample(ids, R.randint(1, 2))} if R.random() < 0.5 else {"t": "J", "id": R.choice(ids)}))
    S.procin(me)
    left = R.choice([46, 48, 49, 50, 51])
    for _ in range(R.randint(1, 3)):
        for _ in range(left): S.procin(me)
        S.members(me, others, ids)
        f = R.choice(others)
        t = R.choice("LJVN")
        if t == "L": S.feed(me, f, {"t": "L", "ids": R.sample(ids, R.randint(0, 2))})
        elif t in "JV": S.feed(me, f, {"t": t, "id": R.choice(ids)})
        for _ in range(R.randint(1, 3)):
            S.procin(me)
            S.members(me, others, ids)
        S.exec(me, [1], "kin")
        left = R.choice([1, 2, 3, 45, 47, 49, 50])
    for _ in range(52): S.procin(me)
    S.members(me, others, ids)
    return S

def gen_queue(sid, R, n=30):
    """every kind of outgoing message, interleaved with reading the queue"""
    me = R.choice([1, 7])
    S = Scen(sid, [me])
    sws, vids, keys = [1, 2, 3], [1, 2], R.sample(KEYS, 3)
    for i in vids: S.create(me, i)
    base = age_up(S, R, [me], vids, keys)
    late = R.random() < 0.25
    if late:
        for _ in range(R.choice([5, 9, 10, 12])): S.procout(me)
        S.qsize(me); S.peek(me)
    for i in sws: S.screate(me, i)
    for _ in range(n):
        x = R.random()
        if x < 0.16: S.bcast(me, R.choice("abc"), rnd_val(R))
        elif x < 0.30: S.put(me, R.choice(vids), R.choice(keys), ["n"] if R.random() < 0.2 else rnd_val(R))
        elif x < 0.40: S.get(me, R.choice(vids), R.choice(keys))
        elif x < 0.55: R.choice([S.sjoin, S.sleave])(me, R.choice(sws))
        elif x < 0.60: S.procout(me); S.peek(me)
        elif x < 0.66:
            for _ in range(R.randint(2, 10)): S.procout(me)
        elif x < 0.74:
            S.feed(me, R.choice([4, 6]), {"t": R.choice("PQ"), "id": R.choice(vids + [9]), "key": R.choice(keys), "val": ["n"] if R.random() < 0.2 else rnd_small(R),
                               "ts": base + R.choice([0, 1, 2, 3]), "rob": R.choice([1, 4, 9])}); S.procin(me)
        elif x < 0.80: S.peek(me); S.qsize(me)
        else: S.drain(me, R.randint(1, 4))
    S.qsize(me)
    S.drain(me, 25)
    return S

def gen_listen(sid, R, n=26):
    me = 1
    S = Scen(sid, [me])
    if R.random() < 0.5: S.create(me, 1)
    topics = ["a", "b", "echo", "topic four", ""]
    senders = R.sample([2, 12, 22, 32, 3, 65535], 3)
    fed = 0
    for _ in range(n):
        x = R.random()
        t = R.choice(topics)
        if x < 0.25: S.listen(me, t, R.choice(["rec", "rec", "ign", "echo", "swap", "put", "rec"] + (["err"] if R.random() < 0.1 else [])))
        elif x < 0.31: S.ignore(me, t)
        elif x < 0.36: S.bcast(me, t, rnd_val(R))
        elif x < 0.80:
            for _ in range(R.randint(1, 3)):
                if fed >= 6: break
                fed += 1
                y = R.random()
                if y < 0.75: m = {"t": "B", "topic": ["s", R.choice(topics + ["never"])], "val": rnd_val(R)}
                elif y < 0.9: m = {"t": R.choice("PQ"), "id": R.choice([1, 5]), "key": ["s", t], "val": rnd_small(R), "ts": R.randint(1, 3), "rob": 8}
                else: m = {"t": "J", "id": 3}
                S.feed(me, R.choice(senders), m)
        elif x < 0.84: S.drain(me, 2)
        else: S.procin(me); fed = 0
    S.procin(me)
    S.procin(me)
    S.members(me, senders, [3])
    S.drain(me, 12)
    return S

def gen_fifo(sid, R):
    """many messages of few senders: order and completeness"""
    me = 1
    S = Scen(sid, [me])
    S.listen(me, "a", "rec")
    S.create(me, 1)
    n = 0
    for _ in range(R.randint(1, 4)):
        senders = R.sample([2, 12, 22, 3, 7, 65535], R.choice([1, 1, 2]))
        for _ in range(R.randint(1, 9) if len(senders) == 1 else R.randint(1, 7)):
            n += 1
            if R.random() < 0.8: S.feed(me, R.choice(senders), {"t": "B", "topic": ["s", "a"], "val": ["i", n]})
            else: S.feed(me, R.choice(senders), {"t": "P", "id": 1, "key": ["s", "k"], "val": ["i", n], "ts": R.randint(1, 3), "rob": R.choice([4, 5])})
        S.procin(me)
        S.all(me, 1)
    if R.random() < 0.1:
        f = R.choice([2, 300])
        for x in range(R.choice([33, 70, 140])): S.feed(me, f, {"t": "B", "topic": ["s", "a"], "val": ["i", x]})
        S.procin(me)
    S.drain(me, 3)
    return S

def gen_wide(sid, R, what=None):
    """many keys, swarms, topics, senders: growth and collisions in every table of the robot"""
    me = R.choice([1, 10, 300])
    S = Scen(sid, [me])
    what = what or R.choice(["keys", "ids", "swarms", "members", "topics", "queue"])
    n = R.randint(12, 45)
    if what == "keys":
        S.create(me, 1)
        keys = [["i", 10 * x] for x in range(n)] + [["s", "k%d" % x] for x in range(n // 2)] + [["f", fbits(x + 0.5)] for x in range(5)]
        R.shuffle(keys)
        for k in keys: S.put(me, 1, k, rnd_small(R))
        S.size(me, 1)
        for k in R.sample(keys, 12):
            S.put(me, 1, k, R.choice([["n"], ["i", 77]]))
            S.get(me, 1, R.choice(keys))
        for k in R.sample(keys, 8):
            S.feed(me, 4, {"t": R.choice("PQ"), "id": 1, "key": k, "val": ["i", 5], "ts": R.choice([1, 2, 3]), "rob": 9}); S.procin(me)
        S.all(me, 1); S.size(me, 1)
        for k in keys[:10]: S.get(me, 1, k)
        S.drain(me, len(keys) + 5)
    elif what == "ids":
        ids = R.sample(range(0, 60), 14) + [256, 65535, 300]
        for i in ids: S.create(me, i); S.put(me, i, KEYS[0], ["i", i])
        for i in ids: S.get(me, i, KEYS[0])
        for i in ids[:6]:
            S.feed(me, 4, {"t": R.choice("PQ"), "id": i, "key": KEYS[0], "val": ["i", i + 1], "ts": 2, "rob": 9}); S.procin(me)
        for i in ids: S.all(me, i)
        S.drain(me, 40)
    elif what == "swarms":
        ids = R.sample(range(0, 60), 14) + [256, 65535, 300]
        lots = R.random() < 0.4
        if lots: ids += R.sample(range(60, 300), R.choice([5, 20]))
        for i in ids: S.screate(me, i)
        if lots:
            for i in R.sample(ids, len(ids)): S.sjoin(me, i)
            if R.random() < 0.7: S.list(me)
        for _ in range(30):
            R.choice([S.sjoin, S.sleave])(me, R.choice(ids))
            if R.random() < 0.1: S.list(me)
            if R.random() < 0.1: S.drain(me, 3)
        for i in ids: S.sin(me, i)
        S.list(me)
        S.drain(me, 40)
    elif what == "members":
        rs = R.sample(range(2, 80), 20) + [256, 65535]
        sw = [1, 2, 11, 256]
        S.nbrs(me, rs)
        S.screate(me, sw[0]); S.sjoin(me, sw[0])
        for _ in range(50):
            f = R.choice(rs)
            t = R.choice("LJJV")
            S.feed(me, f, {"t": "L", "ids": R.sample(sw, R.randint(0, 4))} if t == "L" else {"t": t, "id": R.choice(sw)})
            S.procin(me)
            if R.random() < 0.1: S.members(me, rs, sw)
        S.members(me, rs, sw)
        S.exec(me, [sw[0]], "kin")
        S.exec(me, [sw[0]], "kinof")
        for _ in range(R.choice([10, 30, 49])): S.procin(me)
        S.members(me, rs, sw)
    elif what == "topics":
        ts = ["t%d" % x for x in range(n)]
        for t in ts: S.listen(me, t, R.choice(["rec", "rec", "swap", "ign"]))
        for _ in range(25):
            x = R.random()
            if x < 0.15: S.ignore(me, R.choice(ts))
            elif x < 0.2: S.listen(me, R.choice(ts), "rec")
            S.feed(me, R.choice([2, 12, 22, 300]), {"t": "B", "topic": ["s", R.choice(ts + ["zz"])], "val": rnd_small(R)})
            S.procin(me)
    else:
        S.create(me, 1)
        if R.random() < 0.2: n = R.choice([70, 135])
        for x in range(n):
            S.bcast(me, "t", ["i", x])
            S.put(me, 1, ["i", x], ["i", x])
            if R.random() < 0.3: S.get(me, 1, ["i", R.randint(0, n)])
            if R.random() < 0.2: S.drain(me, 2)
        S.qsize(me)
        S.drain(me, 2 * n + 5)
    return S

TOPOS = {
    2: [{1: [2], 2: [1]}],
    3: [{1: [2], 2: [1, 3], 3: [2]}, {1: [2, 3], 2: [1, 3], 3: [1, 2]}],
    4: [{1: [2], 2: [1, 3], 3: [2, 4], 4: [3]}, {1: [2, 3, 4], 2: [1], 3: [1], 4: [1]},
        {1: [2, 4], 2: [1, 3], 3: [2, 4], 4: [3, 1]}, {a: [b for b in (1, 2, 3, 4) if b != a] for a in (1, 2, 3, 4)}],
}
def gen_net(sid, R, agree=True):
    """writes everywhere, partial delivery, loss, duplication; then a complete exchange"""
    nr = R.choice([2, 3, 3, 4])
    names = R.sample([1, 2, 3, 4, 7, 30], nr)
    topo = R.choice(TOPOS[nr])
    topo = {names[a - 1]: [names[b - 1] for b in bs] for a, bs in topo.items()}
    S = Scen(sid, names)
    keys = R.sample(KEYS, 2)
    ids = [1, 2] if R.random() < 0.4 else [1]
    kind = "none" if R.random() < 0.6 else "low"
    for r in names:
        for i in ids:
            S.create(r, i)
            if kind != "none": S.onconflict(r, i, kind)
            if R.random() < 0.3: S.onlost(r, i, "rec")
    written, slots = set(), []
    loss = R.choice([0, 0, 0.3, 0.6])
    lossy = False
    if R.random() < 0.2:
        base = R.choice([126, 254, 32766, 65300])
        for i in ids:
            for k in keys: S.feed(names[0], 99, {"t": "P", "id": i, "key": k, "val": rnd_small(R), "ts": base, "rob": 99}); written.add((i, tok(k)))
        S.settle(topo)
    for _ in range(R.randint(5, 22)):
        x = R.random()
        r = R.choice(names); i = R.choice(ids); k = R.choice(keys)
        if x < 0.40: S.put(r, i, k, rnd_val(R, nil=False) if R.random() < 0.3 else rnd_small(R)); written.add((i, tok(k)))
        elif x < 0.47 and (i, tok(k)) in written: S.get(r, i, k)
        elif x < 0.72:
            for _ in range(R.randint(1, 3)):
                s = S.keep(r); slots.append((s, r))
                for b in topo[r]:
                    if R.random() >= loss: S.give(s, b)
                    else: lossy = True
        elif x < 0.78 and slots:
            s, a = R.choice(slots); S.give(s, R.choice(topo[a]))
        else: S.procin(r)
    S.settle(topo)
    if R.random() < 0.5:
        # writes after a complete exchange, some of them lost on some links
        for _ in range(R.randint(1, 4)):
            r = R.choice(names); i = R.choice(ids); k = R.choice(keys)
            S.put(r, i, k, rnd_small(R)); written.add((i, tok(k)))
            for _ in range(2):
                s = S.keep(r)
                for b in topo[r]:
                    if R.random() < 0.5: S.give(s, b)
                    else: lossy = True
            for b in topo[r]:
                if R.random() < 0.7:
                    S.procin(b)
                    if R.random() < 0.6: S.drain(b, 2); lossy = True
    if lossy:
        # robots read what they might have missed, one after the other or all at once, and the answers are delivered
        once = R.random() < 0.5
        for i in ids:
            for k in keys:
                if (i, tok(k)) in written:
                    for r in R.sample(names, len(names)):
                        S.get(r, i, k)
                        if once: S.settle(topo)
    S.settle(topo)
    for i in ids:
        for r in names: S.all(r, i)
    for i in ids: S.host("qsize %d" % names[0], {"op": "agree", "id": i, "robots": names})
    return S

# ------------------------------------------------------------------ reports
def _explain(self, tr, pos, wanted):
    op = dict(tr["ops"][pos - 1]); obs = op.pop("obs")
    return "step %d %s showed %s; the specification allows only %s" % (pos, op, obs, wanted[:900])
def _describe(self):
    return {"source": self.source(), "lines": self.lines}
Scen.explain = _explain
Scen.describe = _describe

# ------------------------------------------------------------------ behaviours of the closed model
def _apply(S, call):
    """perform one alphabet entry on a scenario; returns the specification operation(s)"""
    name, args = call[0], call[1:]
    if name == "xfer":
        r, to = args
        s = S.keep(r)
        for t in to: S.give(s, t)
        return {"op": "xfer", "r": r, "to": list(to)}
    if name == "list":
        S.list(*args)
        return {"op": "list", "r": args[0]}
    getattr(S, name)(*args)
    return S.ops[-1]

def model_scens(ctx, name, robots, prefix, alphabet, depth, probes, lossless=False, limit=None, cfg="RobotGen.cfg", timeout=500):
    """TLC explores the model; every transition becomes (part of) a scenario.
    alphabet: list of (max, call)."""
    D = Scen("d", robots)
    conf = {"robots": robots, "prefix": [_apply(D, c) for c in prefix], "depth": depth,
            "alphabet": [dict(_apply(D, c), max=m) for m, c in alphabet]}
    for r in robots: conf["prefix"].insert(0, {"op": "nop", "r": r})
    if lossless: conf["lossless"] = True
    fn = workfile("gen-%s.json" % name, json.dumps(conf))
    rc, out = tlc("RobotGen", cfg, env={"GEN": fn}, workers=1, timeout=timeout, heap="6g")
    if rc != 0 or "No error has been found" not in out:
        i = out.find("Error:")
        raise CheckError("model %s: rc %d\n%s" % (name, rc, out[max(0, i):i + 3000]))
    g, d = tlc_stats(out)
    ctx.states += d; ctx.transitions += g
    ctx.cov.setdefault("models", {})[name] = {"generated": g, "distinct": d, "depth": depth}
    hs = {tuple(int(x) for x in m.group(1).split(", ")) for m in re.finditer(r'<<\s*"H",\s*"<<([\d,\s]*)>>"\s*>>', out)}
    pre = {h[:i] for h in hs for i in range(len(h))}
    hs = sorted(h for h in hs if h not in pre)
    ctx.cov["models"][name]["maximal_histories"] = len(hs)
    if limit and len(hs) > limit: hs = ctx.rng("model", name).sample(hs, limit)
    ctx.cov["models"][name]["replayed"] = len(hs)
    scs = []
    for j, h in enumerate(hs):
        S = Scen("%s.%d" % (name, j), robots)
        for c in prefix: _apply(S, c)
        for i in h: _apply(S, alphabet[i - 1][1])
        for c in probes: _apply(S, c)
        scs.append(S)
    return scs
