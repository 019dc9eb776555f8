"""Values and messages on the wire: what robots send, what they make of arbitrary bytes."""
from bz import *
from robot import Scen, rnd_val, rnd_small, KEYS, LISTENERS
import struct, math

def b4(n): return list(struct.pack(">I", n & 0xffffffff))
def tree(v):
    """JSON value (harness) -> value of Codec.tla"""
    t = v[0]
    if t == "n": return ["n"]
    if t in "if": return [t, b4(0 if t == "f" and v[1] == 0x80000000 else v[1])]
    if t == "s": return ["s", [ord(c) & 255 for c in v[1]]]
    if t == "t": return ["t", [[tree(k), tree(x)] for k, x in v[1]]]
    if t == "c": return ["c", v[1], b4(v[2] if len(v) > 2 else 0)]
    return ["?"]
def pct(s): return "".join(c if c.isascii() and c.isalnum() else "%%%02x" % ord(c) for c in s)
def hv(v): return "n" if v[0] == "n" else "s:" + pct(v[1]) if v[0] == "s" else "%s:%d" % (v[0], v[1])

FLOATS = [0, 1, 0x007fffff, 0x00800000, 0x00800001, 0x3f800000, 0xbf800000, 0x3f7fffff, 0x3f800001, 0x7f7fffff, 0xff7fffff,
          0x3f000000, 0x33800000, 0x80000001, 0x40490fdb, 0x4b7fffff, 0x4b800000, 0x3dcccccd, 0xc2f6e979, 0x00000100, 0x00400000]
INTS = [0, 1, -1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 16777215, 16777216, -16777217, 2147483647, -2147483648, -2147483647, 305419896]
def rstr(R):
    x = R.random()
    if x < 0.15: return ""
    if x < 0.5: return "".join(chr(R.choice([65, 97, 48, 32, 10, 9, 34, 92, 127, 128, 255, 1, 37])) for _ in range(R.randint(1, 6)))
    if x < 0.9: return "".join(R.choice("abcdefgh01") for _ in range(R.randint(1, 12)))
    return "".join(R.choice("abcd") for _ in range(R.choice([254, 255, 256, 257, 300, 1000])))
def scalar(R, nil=True):
    x = R.random()
    if x < 0.1 and nil: return ["n"]
    if x < 0.45: return ["i", R.choice(INTS) if R.random() < 0.7 else R.randint(-2**31, 2**31 - 1)]
    if x < 0.75:
        while True:
            b = R.choice(FLOATS) if R.random() < 0.6 else R.getrandbits(32)
            if (b >> 23) & 255 != 255 and b != 0x80000000: return ["f", b]
    return ["s", rstr(R)]
def nkey(k):
    return ("s", k[1]) if k[0] == "s" else ("n", k[1] if k[0] == "i" else bitsf(k[1]))
def value(R, depth=3, big=False):
    if depth == 0 or R.random() < 0.55: return scalar(R, nil=False)
    es, seen = [], set()
    n = R.choice([0, 1, 2, 3, 4, 7]) if not big else R.choice([40, 200, 255])
    while len(es) < n:
        k = ["i", R.randint(-5, 400)] if R.random() < 0.5 else scalar(R, nil=False) if R.random() < 0.5 else ["s", rstr(R)]
        if k[0] == "f" and abs(bitsf(k[1])) > 2e9: continue
        if nkey(k) in seen: continue
        seen.add(nkey(k))
        es.append([k, value(R, depth - 1) if not big else scalar(R, nil=False)])
    return ["t", es, len(es)]

class WireScen:
    """one value, sent in every way a script can send it"""
    def __init__(self, sid, R, v=None, big=False):
        self.sid = sid
        self.v = v if v is not None else (scalar(R) if R.random() < 0.2 else value(R, R.choice([1, 2, 3, 5]), big))
        self.topic = ["s", rstr(R) or "t"]
        self.key = scalar(R, nil=False)
        while self.key[0] == "f" and abs(bitsf(self.key[1])) > 2e9: self.key = scalar(R, nil=False)
        self.id = R.choice([0, 1, 255, 256, 4660, 65535])
        self.me, self.to = R.sample([1, 2, 255, 256, 300, 65535], 2)
        self.ts, self.rob = R.choice([1, 2, 255, 256, 513, 65534]), R.choice([3, 255, 256, 65535])
        self.sw = R.sample([0, 1, 255, 256, 513, 65535], 3)
        self.xs, self.tn = [], 0
        self.gen()
    def x(self, v):
        self.xs.append(v); return "x%d" % (len(self.xs) - 1)
    def mk(self, v):
        if v[0] != "t": return "", self.x(v)
        self.tn += 1
        n = "t%d" % self.tn
        s = "%s = {}\n" % n
        for k, y in v[1]:
            a, e = self.mk(y)
            s += a + "%s[%s] = %s\n" % (n, self.x(k), e)
        return s, n
    def gen(self):
        body, e = self.mk(self.v)
        mut = "".join('t%d["mut"] = 1\n' % i for i in range(1, self.tn + 1))
        # change an existing entry of every table as well
        self.src = ("V = nil T = nil K = nil GOT = nil v = nil\n" + "".join("x%d = nil\n" % i for i in range(len(self.xs))) +
            "".join("t%d = nil\n" % i for i in range(1, self.tn + 1)) +
            "function nop() {}\nfunction mk() {\n%sV = %s\n}\nfunction mut() {\n%s}\n" % (body, e, mut) +
            "function bc() { neighbors.broadcast(T, V) }\n"
            "function ls() { neighbors.listen(T, function(t, v, r) { rec(t, v, r) GOT = v }) }\n"
            "function mutg() { GOT.mut = 2 }\nfunction again() { neighbors.broadcast(T, GOT) }\n"
            "function vc() { v = stigmergy.create(%d) }\nfunction vput() { v.put(K, V) }\nfunction vget() { rec(v.get(K)) }\n" % self.id +
            "function vmut() { v.get(K).mut = 3 }\n"
            "function sw() { " + "".join("swarm.create(%d).join() " % s for s in self.sw) + "}\n")
        L, S = [], []       # lines, spec steps: (kind, ...)
        a, b = self.me, self.to
        def do(line, step=None): L.append(line); S.append(step)
        do("compile @SRC @BASE")
        for r in (a, b): do("vm %d @BASE" % r); do("call %d nop" % r)
        for r in (a, b):
            do("set %d T %s" % (r, hv(self.topic))); do("set %d K %s" % (r, hv(self.key)))
            for i, x in enumerate(self.xs): do("set %d x%d %s" % (r, i, hv(x)))
            do("call %d mk" % r)
        tab = self.v[0] == "t"
        mB = {"t": "B", "topic": self.topic, "val": self.v}
        do("call %d ls" % b)
        do("call %d bc" % a)
        if tab: do("call %d mut" % a)
        do("keep %d 1" % a, ("wire", mB))
        do("give 1 %d" % b)
        do("procin %d" % b, ("got", self.v))
        # the receiver sends on what it got, then changes it
        do("call %d again" % b)
        if tab: do("call %d mutg" % b)
        do("keep %d 2" % b, ("wire", mB))
        if tab: do("call %d mk" % a)
        # shared memory
        do("call %d vc" % a); do("call %d vc" % b)
        nonil = self.v[0] != "n"
        do("call %d vput" % a)
        if tab: do("call %d mut" % a)
        mP = {"t": "P", "id": self.id, "key": self.key, "val": self.v, "ts": 1, "rob": a}
        if nonil:
            do("keep %d 3" % a, ("wire", mP))
            do("give 3 %d" % b); do("procin %d" % b)
            do("call %d vget" % b, ("val", self.v))
            if tab: do("call %d vmut" % b)
            do("keep %d 4" % b, ("wire", mP))         # the relayed update, unaffected
        # an update made up by somebody else goes through unchanged
        mF = {"t": "P", "id": self.id, "key": self.key, "val": self.v, "ts": self.ts + 1, "rob": self.rob}
        do("feed %d 9 %s" % (a, encmsg(mF).hex())); do("procin %d" % a)
        do("keep %d 5" % a, ("wire", mF))
        do("give 5 %d" % b); do("procin %d" % b)
        do("call %d vget" % b, ("val", self.v))
        do("keep %d 6" % b, ("wire", mF))
        do("call %d vget" % b, ("val", self.v))
        do("keep %d 7" % b, ("wire", dict(mF, t="Q")))
        # swarm messages
        do("call %d sw" % a)
        for i, s in enumerate(self.sw): do("keep %d %d" % (a, 10 + i), ("wire", {"t": "J", "id": s}))
        for _ in range(10): do("procout %d" % a)
        do("keep %d 20" % a, ("wire", {"t": "L", "ids": sorted(self.sw)}))
        self.lines, self.steps = L, S
    def scenario(self):
        base = os.path.join(tmp(), "files", "w" + re.sub(r"\W", "_", self.sid))
        fn = workfile(os.path.basename(base) + ".bzz", self.src)
        return (self.sid, [l.replace("@SRC", fn).replace("@BASE", base) for l in self.lines])
    def trace(self, res):
        if res.end != "ok": return None, "crashed: %s %s" % (res.end, res.err)
        ops, last = [], None
        for l, s, o in zip(self.lines, self.steps, res.out):
            if o.get("rc"): return None, "the script was refused"
            if o.get("st") == 3: return None, "%s failed: %s" % (l[:60], o.get("msg"))
            if s is None: continue
            if s[0] == "wire":
                m = {f: tree(x) if f in ("topic", "val", "key") else x for f, x in s[1].items()}
                ops.append({"op": "wire", "m": m, "bytes": list(bytes.fromhex(o["m"])), "line": l})
            elif s[0] == "got":
                if len(o["log"]) != 1: return None, "the listener ran %d times" % len(o["log"])
                t, v, r = o["log"][0]
                ops.append({"op": "got", "topic": tree(t), "val": tree(v), "from": r[1], "m": {"t": "G", "topic": tree(self.topic), "val": tree(s[1])}, "sender": self.me})
            else:
                if len(o["log"]) != 1: return None, "no answer from get"
                ops.append({"op": "val", "val": tree(o["log"][0][0]), "m": {"t": "G", "val": tree(s[1])}})
        return {"ops": ops}, None
    def explain(self, tr, pos, wanted):
        return "step %d of %s: %s" % (pos, self.describe()["value"], str(tr["ops"][pos - 1])[:600] + " / " + wanted[:800])
    def describe(self): return {"value": str(self.v)[:400], "source": self.src[:3000], "lines": self.lines}

# ------------------------------------------------------------------ malformed messages
class Skip(Exception): pass
def rdec(b, p, key=False):
    """as dec, with everything the specification leaves open excluded"""
    if p >= len(b): raise Bad("short")
    t = b[p]
    if t == 2:
        if p + 9 > len(b): raise Bad("short")
        m, e = struct.unpack(">ii", b[p + 1:p + 9])
        if m and (m == -2**31 or abs(m) % 256 != 1 or not -125 <= e <= 128): raise Skip()
        v, p = dec(b, p)
        return v, p
    if t == 3:
        v, p = dec(b, p)
        return ["s", v[1].split("\0")[0]], p
    if t == 4:
        if p + 1 >= len(b): raise Bad("short")
        n = b[p + 1]; p += 2
        es = {}
        for _ in range(n):
            k, p = rdec(b, p)
            if k[0] not in "ifs": raise Bad("key")
            if k[0] == "f" and abs(bitsf(k[1])) > 2e9: raise Skip()
            v, p = rdec(b, p)
            if nkey(k) in es and es[nkey(k)][0][0] != k[0]: raise Skip()
            es[nkey(k)] = [k, v]
        return ["t", list(es.values()), len(es)], p
    return dec(b, p)
def rmsg(b):
    """the message a conforming robot takes the bytes for; raises Bad / Skip"""
    if not b: raise Bad("empty")
    def u16(p):
        if p + 2 > len(b): raise Bad("short")
        return b[p] * 256 + b[p + 1]
    if b[0] == 0:
        t, p = rdec(b, 1)
        if t[0] != "s": raise Bad("topic")
        v, p = rdec(b, p)
        return {"t": "B", "topic": t, "val": v}
    if b[0] in (2, 3):
        i = u16(1)
        k, p = rdec(b, 3); v, p = rdec(b, p)
        if k[0] in "tc": raise Skip()
        if k[0] == "f" and abs(bitsf(k[1])) > 2e9: raise Skip()
        return {"t": "P" if b[0] == 2 else "Q", "id": i, "key": k, "val": v, "ts": u16(p), "rob": u16(p + 2)}
    if b[0] == 1:
        n = u16(1)
        ids = [u16(3 + 2 * j) for j in range(n)]
        return {"t": "L", "ids": ids}
    if b[0] in (4, 5): return {"t": "J" if b[0] == 4 else "V", "id": u16(1)}
    raise Bad("kind")

def good_msg(R):
    t = R.choice("BBPPPQQLJV")
    if t == "B": return {"t": "B", "topic": ["s", R.choice(["a", "bb", ""])], "val": rnd_val(R)}
    if t in "PQ": return {"t": t, "id": R.choice([1, 1, 2, 7]), "key": R.choice(KEYS[:4]), "val": rnd_val(R), "ts": R.choice([1, 2, 3, 300]), "rob": R.choice([1, 4, 9])}
    if t == "L": return {"t": "L", "ids": R.sample([1, 2, 3, 256], R.randint(0, 4))}
    return {"t": t, "id": R.choice([1, 2, 256])}

def badkey(R):
    """a table whose entries are whole but one of whose keys cannot be a key"""
    k = R.choice([b"\0", b"\4\0", b"\4\1" + enc(["i", 1]) + enc(["i", 2]), b"\5\0\0\0\0\5", b"\5\1\0\0\0\5", b"\6", b"\7"])
    es = [enc(["i", j]) + enc(["i", j]) for j in range(R.randint(0, 3))]
    es.insert(R.randint(0, len(es)), k + enc(["i", 7]))
    t = b"\4" + bytes([len(es)]) + b"".join(es)
    if R.random() < 0.3: t = b"\4\1" + enc(["s", "in"]) + t
    if R.random() < 0.5: return b"\0" + enc(["s", R.choice(["a", "bb"])]) + t
    return bytes([R.choice([2, 3]), 0, 1]) + enc(R.choice(KEYS[:4])) + t + bytes([0, R.choice([2, 9]), 0, 4])
def badtopic(R):
    """a broadcast, whole in every respect, on a topic that is not a string"""
    t = R.choice([b"\0", b"\4\0", b"\5" + bytes([R.randint(0, 1), 0, 0, 0, R.randint(0, 255)]), enc(["f", 0x3f800000]), enc(["i", R.randint(0, 300)])])
    return b"\0" + t + enc(["i", 6])
def damage(R, b):
    if R.random() < 0.06: return badkey(R)
    if R.random() < 0.04: return badtopic(R)
    x = R.random()
    b = bytearray(b)
    if x < 0.45: return bytes(b[:R.randint(0, max(0, len(b) - 1))])
    if x < 0.75:
        for _ in range(R.choice([1, 1, 2])):
            b[R.randrange(len(b))] = R.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 127, 128, 255, R.randint(0, 255)])
        return bytes(b)
    if x < 0.82:
        i = R.randrange(len(b)); del b[i]; return bytes(b)
    if x < 0.88:
        b.insert(R.randrange(len(b) + 1), R.randint(0, 255)); return bytes(b)
    if x < 0.93: return bytes(b) + bytes(R.randint(0, 255) for _ in range(R.randint(1, 4)))
    if x < 0.96: return bytes(R.randint(0, 255) for _ in range(R.randint(1, 12)))
    if x < 0.98: return bytes([R.randint(0, 9)]) + bytes(R.choice([0, 1, 2, 3, 4, 255]) for _ in range(R.randint(0, 9)))
    return bytes([R.choice([4, 5, 0, 2, 3]), 4, 255] * R.randint(1, 4))

def gen_junk(sid, R, reads, cuts=None):
    """bad messages among good ones; reads collects (bytes, meaning) for Codec.tla"""
    me = R.choice([1, 5])
    S = Scen(sid, [me])
    S.create(me, 1); S.create(me, 2); S.screate(me, 1)
    if R.random() < 0.5: S.onconflict(me, 1, R.choice(["low", "remote"]))
    S.onlost(me, 1, "rec")
    for t in ("a", "bb", ""):
        if R.random() < 0.8: S.listen(me, t, "rec")
    for k in R.sample(KEYS[:4], 2): S.put(me, 1, k, rnd_small(R))
    if R.random() < 0.5: S.drain(me, 2)
    def put(raw, frm):
        try: m = rmsg(raw)
        except Bad: m = None
        reads.append((raw, m))
        S.feed(me, frm, m or {"t": "junk"}, raw)
    if cuts is not None:       # every truncation of one message
        for i, c in enumerate(cuts):
            put(c, 4)
            if i % 3 == 2: S.procin(me)
    else:
        for _ in range(R.randint(4, 12)):
            x = R.random()
            if x < 0.3: put(encmsg(good_msg(R)), R.choice([4, 6]))
            else:
                for _ in range(20):
                    raw = damage(R, encmsg(good_msg(R)))
                    try: rmsg(raw)
                    except Skip: continue
                    except Bad: pass
                    put(raw, R.choice([4, 6])); break
            if R.random() < 0.5: S.procin(me)
    S.procin(me)
    m = {"t": "B", "topic": ["s", "a"], "val": ["i", 5]}
    S.listen(me, "a", "rec"); S.feed(me, 4, m); S.procin(me)
    S.all(me, 1); S.all(me, 2); S.size(me, 1)
    S.members(me, [4, 6], [1, 2, 3, 256])
    S.drain(me, 8); S.qsize(me)
    return S

class FnScen:
    """functions sent to a robot that runs the same script: calling what arrived is calling the function"""
    FNS = ["function f%d(x) { return x + 1 }", "function f%d(x) { return string.concat(\"a\", string.tostring(x)) }", "function f%d(x) { if(x < 2) return 1  return x * f%d(x - 1) }",
           "function f%d(x) { var y = x * 2  rec(\"in\", y)  return {.a = y, .b = G} }", "function f%d(x) { var g = function(z) { return z + x } return g(10) }", "function f%d(x) { G = x }",
           "f%d = math.abs", "f%d = string.tostring", "f%d = isint", "f%d = function(x) { return x - G }"]
    def __init__(self, sid, R):
        self.sid = sid
        fs = R.sample(self.FNS, R.randint(2, 6))
        n = len(fs)
        self.src = "G = %d\nGOT = nil v = nil\n" % R.randint(0, 9) + "\n".join(f.replace("%d", str(i)) for i, f in enumerate(fs)) + "\nfunction nop() {}\n"
        self.src += "function ls() { neighbors.listen(\"t\", function(t, v, r) { GOT = v }) v = stigmergy.create(3) }\n"
        for i in range(n):
            self.src += "function s%d() { neighbors.broadcast(\"t\", f%d) }\nfunction m%d() { v.put(\"k\", f%d) }\nfunction w%d(x) { G = 5 rec(f%d(x), G) }\n" % ((i,) * 6)
        tab = ", ".join(".k%d = f%d" % (i, i) for i in range(n))
        self.src += "function st() { neighbors.broadcast(\"t\", {.sub = {%s}, .n = 1}) }\nfunction mt() { v.put(\"k\", {%s}) }\n" % (tab, tab)
        self.src += "function go(x) { G = 5 rec(GOT(x), G) }\nfunction gv(x) { var h = v.get(\"k\") G = 5 rec(h(x), G) }\n"
        for i in range(n): self.src += "function gt%d(x) { var h = GOT.sub.k%d G = 5 rec(h(x), G) }\nfunction gu%d(x) { var u = v.get(\"k\") var h = u.k%d G = 5 rec(h(x), G) }\n" % ((i,) * 4)
        self.lines, self.steps = ["compile @SRC @BASE"], [None]
        def do(l, s=None): self.lines.append(l); self.steps.append(s)
        a, b = R.sample([1, 2, 300], 2)
        for r in (a, b): do("vm %d @BASE" % r); do("call %d nop" % r); do("call %d ls" % r)
        def hop(k):
            do("keep %d %d" % (a, k)); do("give %d %d" % (k, b)); do("procin %d" % b)
        k = 0
        for _ in range(R.randint(2, 4)):
            i, x = R.randrange(n), R.choice([0, 3, 4, -2])
            ways = R.sample(["s", "m", "st", "mt"], R.randint(1, 3))
            for w in ways:
                k += 1
                do("call %d %s" % (a, w + ("" if w[-1] == "t" else str(i)))); hop(k)
                do("callargs %d w%d i:%d" % (a, i, x), "here")
                do("callargs %d %s i:%d" % (b, {"s": "go", "m": "gv", "st": "gt%d" % i, "mt": "gu%d" % i}[w], x), "there")
                do("procout %d" % b)
    scenario = WireScen.scenario
    def trace(self, res):
        if res.end != "ok": return None, "crashed: %s %s" % (res.end, res.err)
        ops, here = [], None
        for l, s, o in zip(self.lines, self.steps, res.out):
            if o.get("rc"): return None, "the script was refused"
            if o.get("st") == 3: return None, "%s failed: %s" % (l[:60], o.get("msg"))
            if s == "here": here = o["log"]
            elif s == "there":
                if len(here) != len(o["log"]): return None, "%s: %s instead of %s" % (l, o["log"], here)
                for x, y in zip(here, o["log"]):
                    if len(x) != len(y): return None, "%s: %s instead of %s" % (l, y, x)
                    for u, w in zip(x, y): ops.append({"op": "val", "val": tree(w), "m": {"t": "G", "val": tree(u)}, "line": l})
        return {"ops": ops}, None
    def explain(self, tr, pos, wanted): return "%s gives %s, the function itself %s" % (tr["ops"][pos - 1]["line"], tr["ops"][pos - 1]["val"], wanted[:300])
    def describe(self): return {"source": self.src, "lines": self.lines}

class WildScen:
    """a listener that calls the function it was sent: whatever the message says, the host survives"""
    def __init__(self, sid, R):
        self.sid = sid
        me = 1
        refs = [0, 1, 5, 2000, 65535, 2**31 - 1, -1, -2**31, 100000, -5]
        self.src = "function nop() {}\nfunction ls() { neighbors.listen(\"a\", function(t, v, r) { rec(r) v(t, r) rec(2) }) }\n"
        self.lines = ["compile @SRC @BASE", "vm 1 @BASE", "call 1 nop", "call 1 ls"]
        c = b"\x05" + bytes([R.choice([0, 1, 2, 255])]) + struct.pack(">i", R.choice(refs[3:]))
        self.lines += ["feed 1 4 " + (b"\0" + enc(["s", "a"]) + c).hex(), "procin 1", "call 1 nop", "procin 1"]
    scenario = WireScen.scenario
    def trace(self, res):
        if res.end != "ok": return None, "the host crashed: %s %s" % (res.end, res.err)
        return None, None
    def explain(self, *a): return ""
    def describe(self): return {"source": self.src, "lines": self.lines}
