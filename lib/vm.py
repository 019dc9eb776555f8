"""Programs for the machine (BuzzVM.tla): bytecode built here, run step by step, checked step by step."""
from bz import *
import math
from urllib.parse import quote
OPS = """nop done pushnil dup pop ret0 ret1 add sub mul div mod pow unm land lor lnot band bor bnot lshift rshift eq neq gt gte lt lte
gload gstore pusht tput tget callc calls pushf pushi pushs pushcn pushcc pushl lload lstore lremove jump jumpz jumpnz""".split()
CODE = {o: i for i, o in enumerate(OPS)}
ARGED = set(OPS[CODE["pushf"]:])
HOOKS = ["rec", "cid", "cargs", "cself"]

def dyad(bits):
    s, e, f = bits >> 31, (bits >> 23) & 255, bits & 0x7fffff
    if e == 255: return ["f", 3 if f else (-1 if s else 1), 999]
    m, x = (f, -149) if e == 0 else (f | 0x800000, e - 150)
    if m == 0: return ["f", 0, 0]
    while m % 2 == 0: m //= 2; x += 1
    return ["f", -m if s else m, x]
def val(v):
    if v[0] == "f": return dyad(v[1])
    return v
def lval(v):
    if v[0] in "tc": return [v[0], 0]
    return val(v)

class Asm:
    """bytecode with labels; strings become the program's strings"""
    def __init__(self, strs=()):
        self.strs = list(strs); self.code = []
    def s(self, t):
        if t not in self.strs: self.strs.append(t)
        return self.strs.index(t)
    def emit(self, op, arg=None): self.code.append((op, arg))
    def label(self, l): self.code.append((":", l))
    def bytes(self):
        head = struct.pack("<H", len(self.strs)) + b"".join(t.encode("latin1") + b"\0" for t in self.strs)
        pos, lab = len(head), {}
        for op, a in self.code:
            if op == ":": lab[a] = pos
            elif op == "raw": pos += 1
            else: pos += 5 if op in ARGED else 1
        out = bytearray(head)
        for op, a in self.code:
            if op == ":": continue
            if op == "raw": out.append(a); continue
            out.append(CODE[op])
            if op in ARGED:
                if isinstance(a, str): a = lab[a]
                out += struct.pack("<I", a & 0xFFFFFFFF)
        return bytes(out)
    def value(self, v):
        t = v[0]
        if t == "n": self.emit("pushnil")
        elif t == "i": self.emit("pushi", v[1])
        elif t == "f": self.emit("pushf", v[1])
        elif t == "s": self.emit("pushs", self.s(v[1]))
        elif t == "t": self.emit("pusht")
        elif t == "c": self.emit("pushcn", v[1])
        elif t == "cc": self.emit("pushcc", 200000)
        elif t == "l": self.emit("pushl", v[1])
        elif t == "g": self.emit("pushs", self.s(v[1])); self.emit("gload")

class VmScen:
    def __init__(self, sid, code, strs, events=(), steps=60, src=None):
        """code: bytes, or None when src (Buzz source) is given; events: ("call"|"clos"|"push", ...)"""
        self.sid, self.code, self.strs, self.events, self.steps, self.src = sid, code, list(strs), list(events), steps, src
    def scenario(self):
        ls = []
        names = [n for n in dict.fromkeys(self.strs + HOOKS) if n]
        self.names = names
        qn = " ".join(quote(n.encode("latin1"), safe="") for n in names)
        if self.src is not None:
            fn = workfile(self.sid + ".bzz", self.src)
            base = fn[:-4]
            ls.append("compile %s %s" % (fn, base))
            ls.append("vload 1 @%s.bo %s" % (base, qn))
        else: ls.append("vload 1 %s %s" % (self.code.hex(), qn))
        ls.append("vstep 1 %d" % self.steps)
        def v(x): return {"n": "n", "i": "i:%s", "f": "f:%s", "s": "s:%s"}[x[0]] % ((quote(x[1], safe="") if x[0] == "s" else x[1],) if len(x) > 1 else ())
        for e in self.events:
            if e[0] == "push": ls.append("vpush 1 " + " ".join(map(v, e[1])))
            elif e[0] == "step": ls.append("vstep 1 %d" % e[1])
            elif e[0] == "bp": ls.append("vbp 1 %s %d" % e[1:])
            elif e[0] == "cont": ls.append("vcont 1")
            else: ls.append("v%s 1 %s %s" % (e[0], e[1], " ".join(map(v, e[2]))))
        return (self.sid, ls)
    def describe(self): return {"ops": self.scenario()[1], "source": self.src, "code": deasm(self.code, self.strs) if self.code else None}
    def state(self, d):
        d = dict(d)
        d["ss"] = [[val(x) for x in q] for q in d["ss"]]
        d["ls"] = [[l[0], [val(x) for x in l[1]]] for l in d["ls"]]
        d["g"] = [val(x) for x in d["g"]]
        d["o"] = [["t", [[val(k), val(x)] for k, x in o[1]], o[2]] if o[0] == "t" else o[:4] + [[val(x) for x in o[4]]] for o in d["o"]]
        d["l"] = [[lval(x) for x in a] for a in d["l"]]
        return d
    def trace(self, res):
        if res.end != "ok": return None, "the machine ended with %s %s on\n%s" % (res.end, res.err, self.text())
        out = list(res.out)
        if self.src is not None:
            c = out.pop(0)
            if c["rc"] != 0: return None, "does not compile (%d):\n%s" % (c["rc"], self.src)
        ev = []
        load = out.pop(0)
        code = self.code if self.code is not None else bytes.fromhex(load["bc"])
        strs = self.strs
        if self.src is not None:
            n = struct.unpack("<H", code[:2])[0]
            strs = [t.decode("latin1") for t in code[2:].split(b"\0")[:n]]
            if not set(strs) - {""} <= set(self.names): raise CheckError("strings of %s not watched: %s" % (self.sid, set(strs) - set(self.names)))
        ev.append({"e": "load", "prologue": True, "s": self.state(load["s"]), "r": 1})
        evs = [("step", self.steps)] + self.events
        for e, o in zip(evs, out):
            if e[0] == "step":
                for x in o["ss"]: ev.append({"e": "step", "s": self.state(x["s"]), "r": x["r"]})
            elif e[0] == "bp": ev.append({"e": "bp", "what": e[1], "n": e[2], "bps": o["bps"], "has": o["has"], "s": self.state(o["s"]), "r": 1})
            elif e[0] == "cont": ev.append({"e": "cont", "s": self.state(o["s"]), "r": o["r"]})
            elif e[0] == "push": ev.append({"e": "push", "args": [val(x) for x in e[1]], "s": self.state(o["s"]), "r": 1})
            else: ev.append({"e": e[0], "name": e[1], "args": [val(x) for x in e[2]], "s": self.state(o["s"]), "r": o["r"]})
        self.lastcode, self.laststrs = code, strs
        return {"c": {"code": list(code), "strs": strs, "names": self.names, "nf": load["nf"]}, "ev": ev}, None
    def text(self): return self.src if self.src is not None else deasm(self.code, self.strs)
    def explain(self, tr, pos, wanted):
        e = tr["ev"][pos - 1]; p = tr["ev"][pos - 2]["s"] if pos > 1 else None
        ins = ""
        if e["e"] == "step" and p:
            ins = " at %s" % deasm_at(bytes(tr["c"]["code"]), p["pc"], tr["c"]["strs"])
        return "%s%s\nbefore   %s\nobserved %s\nthe specification says %s\nprogram\n%s" % (e["e"], ins, json.dumps(p)[:900], json.dumps(e["s"])[:900], wanted[:900], self.text()[:1500])

def deasm_at(code, p, strs):
    if p >= len(code): return "%d end" % p
    b = code[p]
    if b >= len(OPS): return "%d ?%d" % (p, b)
    if OPS[b] in ARGED and p + 5 <= len(code):
        a = struct.unpack("<i", code[p + 1:p + 5])[0]
        x = str(a)
        if OPS[b] == "pushf": x = repr(bitsf(a & 0xFFFFFFFF))
        if OPS[b] == "pushs" and 0 <= a < len(strs): x += " '%s'" % strs[a]
        return "%d %s %s" % (p, OPS[b], x)
    return "%d %s" % (p, OPS[b])
def deasm(code, strs):
    p = 2 + sum(len(t.encode("latin1")) + 1 for t in strs)
    out = []
    while p < len(code):
        out.append(deasm_at(code, p, strs))
        p += 5 if code[p] < len(OPS) and OPS[code[p]] in ARGED else 1
    return "\n".join(out)

# ---------------------------------------------------------------- values
F = lambda x: ["f", fbits(x)]
INTS = [0, 1, -1, 2, 3, -3, 7, -7, 8, 10, 255, 256, 65535, 65536, -65536, 46341, 16777216, 16777217, -16777219, 2147483647, -2147483648, -2147483647, 1 << 30]
FLTS = [F(x) for x in (0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 2.5, -2.5, 3.0, -7.25, 0.1, 100.0, 1e6, 16777216.0, 3.140625, 1e10, 1e30, 1e-30, -1e30)] + \
       [["f", b] for b in (0x80000000, 1, 0x7f7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0x00800000, 0x3f800001)]
STRS = [["s", t] for t in ("", "a", "b", "ab", "B", "10", "2", "1.000000", "2.500000", "0", "-1", "a ", "~")]
SAMPLES = {"n": [["n"]], "i": [["i", x] for x in INTS], "f": FLTS, "s": STRS, "t": [["t"]], "c": [["c", 5]], "cc": [["cc"]]}
BIN = "add sub mul div mod pow land lor band bor lshift rshift eq neq gt gte lt lte".split()
UN = "unm lnot bnot".split()

def finish(sid, A, **kw):
    A.emit("done"); A.emit("nop"); A.emit("nop")
    return VmScen(sid, A.bytes(), A.strs, **kw)
def start(*strs):
    A = Asm(strs); A.emit("nop"); return A

def grid(ctx, per=10):
    """every operator on every pair of types, and on grids of numbers and strings"""
    scs = []
    R = ctx.rng("grid")
    k = 0
    cls = {"num": SAMPLES["i"] + SAMPLES["f"]}
    for op in BIN:
        types = list(SAMPLES)
        for x in types:
            for y in types:
                for rep in range(1 if x not in "ifs" or y not in "ifs" else 2):
                    A = start()
                    if R.random() < .5: A.value(["i", 77])
                    A.value(R.choice(SAMPLES[x])); A.value(R.choice(SAMPLES[y])); A.emit(op)
                    scs.append(finish("mix-%s-%s-%s-%d" % (op, x, y, rep), A, steps=12))
        pairs = [(a, b) for a in cls["num"] for b in cls["num"] + (STRS if op in BIN[-6:] else [])]
        if op in BIN[-6:]: pairs += [(a, b) for a in STRS for b in STRS + cls["num"]]
        if op in ("band", "bor", "lshift", "rshift"): pairs = [(a, b) for a in SAMPLES["i"] for b in SAMPLES["i"] + [["i", n] for n in (4, 15, 30, 31)]]
        if op in ("div", "mod"): pairs = [(a, b) for a, b in pairs if not (a[0] == b[0] == "i" and b[1] == 0)]
        if op in ("land", "lor"): pairs = [(a, b) for a in (["n"], ["i", 0], ["i", 5], F(0.0), F(1.0), ["s", ""], ["t"], ["cc"]) for b in (["n"], ["i", 0], ["i", -1], F(0.0), ["s", "x"], ["t"])]
        lim = ctx.n(110, 2000)
        # small numbers are where exact results are; keep all of those first
        R.shuffle(pairs)
        small = [p for p in pairs if all(v[0] != "i" or abs(v[1]) < 300 for v in p) and all(v[0] != "f" or abs(bitsf(v[1])) < 200 for v in p)]
        rest = [p for p in pairs if p not in small]
        ints = [p for p in small if all(v[0] == "i" and abs(v[1]) <= 10 for v in p)]
        pairs = ints + [p for p in small if p not in ints][:lim] + rest[:lim]
        if op == "pow":
            num = lambda t: F(float(t)) if "." in t else ["i", int(t)]
            pairs += [(num(b + d), num(e)) for b in ("2", "3", "0.5", "10", "2.5", "100", "9", "4", "7", "0.25") for d in (["", ".0"] if "." not in b else [""])
                      for e in ("0.5", "1.5", "-0.5", "2.5", "0.25", "-1.5", "-2", "-1", "-3", "0.75", "3.5", "-2.0")]
        for i in range(0, len(pairs), per):
            A = start()
            for a, b in pairs[i:i + per]: A.value(a); A.value(b); A.emit(op)
            scs.append(finish("grid-%s-%d" % (op, i), A, steps=3 * per + 6))
    for op in UN:
        for t in SAMPLES:
            if t in ("i", "f") and not (t == "f" and op == "bnot"):
                A = start()
                for v in SAMPLES[t]: A.value(v); A.emit(op)
                scs.append(finish("un-%s-%s" % (op, t), A, steps=70))
            else:
                for v in SAMPLES[t][:3]:
                    A = start(); A.value(v); A.emit(op)
                    scs.append(finish("un-%s-%s-%d" % (op, t, k), A, steps=8)); k += 1
    # conditional jumps on every kind of value
    for op in ("jumpz", "jumpnz"):
        for t in SAMPLES:
            for v in SAMPLES[t][:3]:
                A = start(); A.value(["i", 9]); A.value(v); A.emit(op, "L"); A.value(["i", 1]); A.emit("jump", "E"); A.label("L"); A.value(["i", 2]); A.label("E")
                scs.append(finish("j-%s-%s-%d" % (op, t, k), A, steps=10)); k += 1
    # too little on the stack, for every instruction
    for op in OPS:
        for d in range(4):
            for inner in (0, 1):
                A = start()
                if inner:                      # the same inside a call
                    A.emit("pushnil"); A.emit("pushcn", "F"); A.emit("pushi", 0); A.emit("callc"); A.emit("done"); A.label("F")
                for _ in range(d): A.value(R.choice([["i", R.choice([0, 1, 2, -1, 100])], ["s", "x"], ["t"], ["n"], ["c", 5]]))
                A.emit(op, R.choice([0, 1, 2, 3, 70000, 0xFFFFFFFF]) if op in ARGED else None)
                if op == "pushcc": A.code[-1] = (op, 200000)
                if op == "calls": continue
                scs.append(finish("few-%s-%d-%d" % (op, d, inner), A, steps=12)); k += 1
    # calls of native functions by number, up to and past the last one there is
    for n in list(range(60, 150)) + [1000, 65535, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF]:
        A = start()
        A.emit("pushnil"); A.emit("pushcc", n); A.emit("pushi", 0); A.emit("callc")
        scs.append(finish("native-%d" % n, A, steps=8))
    # truncated code: the last instruction is cut
    for op in OPS:
        if op in ("calls", "pushcc"): continue
        for cut in range(0, 5 if op in ARGED else 2):
            A = start("x")
            for _ in range(3): A.value(["i", 1])
            A.emit(op, 0)
            b = A.bytes()
            if op in ARGED: b = b[:len(b) - cut]
            else: b = b + b"\0" * cut
            scs.append(VmScen("cut-%s-%d" % (op, cut), b, A.strs, steps=8))
    return scs

# ---------------------------------------------------------------- random structured programs
class Gen:
    """random programs that mostly run well: tables, closures, calls, loops, early errors now and then"""
    def __init__(self, R, bad=0.01, size=30, fns=0):
        self.R, self.bad = R, bad
        self.A = Asm(("x", "y", "z", "k"))
        self.pending = []; self.n = 0; self.left = size
        self.globs = ["x", "y", "z"]
        self.fns = ["f%d" % i for i in range(fns)]
        for i, f in enumerate(self.fns):         # the prologue, as the compiler writes it
            self.minfn = i + 1                   # no recursion
            self.A.value(["s", f]); self.fun(3, 1, lam=False); self.A.emit("gstore")
        self.minfn = 0
        self.A.emit("nop")
    def lab(self): self.n += 1; return "L%d" % self.n
    def num(self):
        R = self.R
        return ["i", R.choice([0, 1, 2, 3, -1, -4, 7, 10, 100])] if R.random() < .7 else F(R.choice([0.5, 1.0, -2.25, 3.0, 8.0]))
    def key(self): return self.R.choice([["i", 0], ["i", 1], ["i", 2], F(1.0), F(2.0), F(0.5), ["s", "k"], ["s", "x"], ["s", "1"], ["i", 11], ["i", -1]])
    def oops(self):
        R = self.R
        if R.random() < self.bad:
            op = R.choice(OPS)
            if op in ("calls", "pushcc"): op = "pop"
            self.A.emit(op, R.choice([0, 1, 2, 5, 200000, 0xFFFFFFFF]) if op in ARGED else None)
    def tab(self, d, nl):
        """a table value"""
        A, R = self.A, self.R
        A.emit("pusht")
        for _ in range(R.randint(0, 2)):
            A.emit("dup"); A.value(self.key()); self.expr(d - 1, nl); A.emit("tput")
    def fun(self, d, nl, lam=None):
        """a function value; its body is emitted later"""
        l = self.lab()
        lam = self.R.random() < .5 if lam is None else lam
        self.A.emit("pushl" if lam else "pushcn", l)
        self.pending.append((l, d, nl if lam else 1, self.minfn))
    def call(self, d, nl):
        A, R = self.A, self.R
        x = R.random()
        k = R.randint(0, 3)
        if x < .3:                              # method call on a fresh table
            self.tab(d, nl); A.emit("dup"); A.value(["s", "m"])
            if R.random() < .3: A.value(["g", R.choice(HOOKS)])
            else: self.fun(d, nl)
            A.emit("tput"); A.emit("dup"); A.value(["s", "m"]); A.emit("tget")
        elif x < .45 and self.fns[self.minfn:]: A.emit("pushnil"); A.value(["g", self.R.choice(self.fns[self.minfn:])])
        elif x < .55:
            A.emit("pushnil"); A.value(["g", R.choice(HOOKS)])
            if A.code[-2][1] == A.s("cid"): k = 1 if R.random() < .9 else k
        else: A.emit("pushnil"); self.fun(d, nl)
        for _ in range(k): self.expr(d - 2, nl)
        A.emit("pushi", k if R.random() > self.bad else R.choice([k + 1, -1, 50]))
        A.emit("callc")
    def expr(self, d, nl):
        A, R = self.A, self.R
        self.left -= 1
        self.oops()
        x = R.random()
        if d <= 0 or self.left < 0 or x < .25:
            y = R.random()
            if y < .4: A.value(self.num())
            elif y < .5: A.value(R.choice(STRS))
            elif y < .55: A.emit("pushnil")
            elif y < .75: A.emit("lload", R.randint(0, nl - 1) if nl > 0 and R.random() > self.bad else nl)
            else: A.value(["g", R.choice(self.globs + ["nowhere"])])
        elif x < .45:
            A.value(self.num()); A.value(self.num()); A.emit(R.choice([o for o in BIN if o not in ("div", "mod", "lshift", "rshift", "band", "bor")]))
        elif x < .5: A.value(["i", R.choice([0, 1, 5, 6, -8])]); A.value(["i", R.choice([1, 2, 3, 5])]); A.emit(R.choice(["band", "bor", "lshift", "rshift", "div", "mod"]))
        elif x < .6: self.expr(d - 1, nl); self.expr(d - 1, nl); A.emit(R.choice(["eq", "neq", "land", "lor", "lt", "gte"]))
        elif x < .65: self.expr(d - 1, nl); A.emit("lnot")
        elif x < .75: self.tab(d - 1, nl)
        elif x < .8: self.tab(d - 1, nl); A.value(self.key()); A.emit("tget")
        elif x < .85: self.fun(d - 1, nl)
        else: self.call(d - 1, nl)
    def stat(self, d, nl):
        """returns the number of locals afterwards"""
        A, R = self.A, self.R
        x = R.random()
        if x < .2: A.value(["s", R.choice(self.globs)]); self.expr(d, nl); A.emit("gstore")
        elif x < .35: self.expr(d, nl); A.emit("lstore", nl); return nl + 1
        elif x < .45 and nl > 1: self.expr(d, nl); A.emit("lstore", R.randint(0, nl - 1))
        elif x < .5 and nl > 2: A.emit("lremove", 1); return nl - 1
        elif x < .65:
            e, f = self.lab(), self.lab()
            self.expr(d, nl); A.emit(R.choice(["jumpz", "jumpnz"]), e); self.stat2(d, nl); A.emit("jump", f); A.label(e); self.stat2(d, nl); A.label(f)
        elif x < .72:                            # bounded loop over a fresh local
            t, e = self.lab(), self.lab()
            A.emit("pushi", R.randint(1, 3)); A.emit("lstore", nl); A.label(t); A.emit("lload", nl); A.emit("jumpz", e)
            self.stat2(d - 1, nl + 1)
            A.emit("lload", nl); A.emit("pushi", 1); A.emit("sub"); A.emit("lstore", nl); A.emit("jump", t); A.label(e)
            return nl + 1
        elif x < .9: self.call(d, nl); A.emit("pop")
        else: self.expr(d, nl)                   # leave it pending
        return nl
    def stat2(self, d, nl):
        A, R = self.A, self.R
        if R.random() < .5: A.value(["s", R.choice(self.globs)]); self.expr(d - 1, nl); A.emit("gstore")
        else: self.call(d - 1, nl); A.emit("pop")
    def build(self, sid, **kw):
        A, R = self.A, self.R
        nl = 1
        for _ in range(R.randint(2, 6)): nl = self.stat(3, nl)
        A.emit("done")
        while self.pending:
            l, d, nl, self.minfn = self.pending.pop(0)
            A.label(l)
            nl += R.choice([0, 0, 1])
            for _ in range(R.randint(0, 2)): nl = self.stat(d - 1, nl)
            if R.random() < .7: self.expr(d - 2, nl); A.emit("ret1")
            else: A.emit("ret0")
        A.emit("nop")
        return VmScen(sid, A.bytes(), A.strs, **kw)

def gen_prog(sid, R, steps=70, bad=0.01):
    return Gen(R, bad=bad, size=R.choice([15, 30, 60])).build(sid, steps=steps)
def gen_garbage(sid, R):
    """damaged and random code"""
    if R.random() < .4:
        A = start("x", "y")
        for _ in range(R.randint(1, 30)):
            if R.random() < .5: A.value(R.choice([["i", R.choice([0, 1, 2, 3])], ["n"], ["t"], ["s", "x"], F(1.5)]))
            A.code.append(("raw", R.choice([R.randrange(256), R.randrange(47), R.randrange(47)])))
        return VmScen(sid, A.bytes(), A.strs, steps=40)
    S = Gen(R, bad=0, size=20).build(sid, steps=60)
    b = bytearray(S.code)
    h = 2 + sum(len(t) + 1 for t in S.strs) + 1
    for _ in range(R.randint(1, 3)):
        i = R.randrange(h, len(b))
        x = R.random()
        if x < .4: b[i] = R.randrange(256)
        elif x < .7: b[i] = R.randrange(48)
        elif x < .85: del b[i:i + R.randint(1, 3)]
        else: b[i:i] = bytes(R.randrange(50) for _ in range(R.randint(1, 4)))
        if len(b) <= h + 2: break
    S.code = bytes(b)
    return S

def gen_calls(sid, R):
    """script and host calls mixed: functions called by name and as values, at rest and half way through the script"""
    G = Gen(R, bad=R.choice([0, 0, 0.005]), size=R.choice([15, 30, 45]), fns=R.randint(1, 3))
    ev = []
    def args(): return [R.choice([G.num(), ["n"], ["s", "q"]]) for _ in range(R.randint(0, 4))]
    for _ in range(R.randint(1, 5)):
        x = R.random()
        if x < .55: ev.append(("call", R.choice(G.fns + ["cid", "cargs", "rec", "cself"] + (["x"] if R.random() < .15 else [])), args()))
        elif x < .8: ev.append(("clos", R.choice(G.fns + ["cid", "cargs", "rec", "cself"]), args()))
        elif x < .9: ev.append(("push", args() or [["i", 5]]))
        else: ev.append(("step", R.randint(1, 20)))
    ev.append(("step", 3))
    return G.build(sid, events=ev, steps=R.choice([0, 3, 10, 25, 60]))

# ---------------------------------------------------------------- under the debugger
def offsets(code, strs):
    p = 2 + sum(len(t.encode("latin1")) + 1 for t in strs)
    out = []
    while p < len(code):
        out.append(p)
        p += 5 if code[p] < len(OPS) and OPS[code[p]] in ARGED else 1
    return out
def gen_debug(sid, R):
    """breakpoints set and removed while a script runs, is stopped, is continued, and is called by the host"""
    G = Gen(R, bad=R.choice([0, 0, 0.01]), size=R.choice([15, 30, 45]), fns=R.randint(1, 3))
    S = G.build(sid, steps=R.choice([0, 0, 0, 2, 6]))
    offs = offsets(S.code, S.strs)
    ev = []
    def args(): return [R.choice([G.num(), ["n"], ["s", "q"]]) for _ in range(R.randint(0, 3))]
    def bp():
        x = R.random()
        if x < .78: ev.append(("bp", "set", R.choice(offs) if R.random() < .9 else R.choice([0, 3, 100000, -1])))
        elif x < .93: ev.append(("bp", "rm", R.randint(0, 3)))
        else: ev.append(("bp", "clr", 0))
    for _ in range(R.randint(0, 8)): bp()
    for _ in range(R.randint(2, 12)):
        x = R.random()
        if x < .55: ev.append(("cont",))
        elif x < .7: bp()
        elif x < .9: ev.append(("dcall", R.choice(G.fns + G.fns + ["cid", "cargs", "rec"] + (["x"] if R.random() < .15 else [])), args()))
        else: ev.append(("step", R.randint(1, 4)))
    ev += [("cont",)] * 3
    S.events = ev
    return S
def model_debug(ctx, depth, limit):
    """histories of DbgGen over a loop, a call and a program that fails"""
    out = []
    def loop(A):
        A.emit("pushi", 3); A.emit("lstore", 1); A.label("T"); A.emit("lload", 1); A.emit("jumpz", "E")
        A.emit("pushs", 0); A.emit("lload", 1); A.emit("gstore"); A.emit("lload", 1); A.emit("pushi", 1); A.emit("sub"); A.emit("lstore", 1); A.emit("jump", "T"); A.label("E"); A.emit("done"); A.emit("nop")
    def call(A):
        A.emit("pushnil"); A.emit("pushcn", "F"); A.emit("pushi", 4); A.emit("pushi", 1); A.emit("callc")
        A.emit("pushnil"); A.emit("pushcn", "F"); A.emit("pushi", 6); A.emit("pushi", 1); A.emit("callc"); A.emit("add"); A.emit("done")
        A.label("F"); A.emit("lload", 1); A.emit("pushi", 1); A.emit("add"); A.emit("ret1"); A.emit("nop")
    def fail(A):
        A.emit("pushi", 1); A.emit("pushnil"); A.emit("dup"); A.emit("pop"); A.emit("add"); A.emit("done"); A.emit("nop")
    for name, body, pick in (("dloop", loop, (2, 5, 9, 10)), ("dcall", call, (0, 5, 11, 12, 15)), ("dfail", fail, (1, 4, 5))):
        A = start("x"); body(A)
        code = A.bytes()
        offs = offsets(code, A.strs)[1:]
        al = [["cont"]] + [["set", offs[i]] for i in pick] + [["rm", 0], ["rm", 1], ["clr"]]
        conf = {"alphabet": al, "code": list(code), "strs": A.strs, "names": A.strs, "depth": depth}
        fn = workfile("dbggen-%s.json" % name, json.dumps(conf))
        rc, o = tlc("DbgGen", "DbgGen.cfg", env={"GEN": fn}, workers=1, timeout=600, heap="6g")
        if rc != 0 or "No error has been found" not in o:
            i = o.find("Error:")
            raise CheckError("model %s: rc %d\n%s" % (name, rc, o[max(0, i):i + 3000]))
        g, d = tlc_stats(o); ctx.states += d; ctx.transitions += g
        hs = sorted({tuple(int(x) for x in m.group(1).split(", ")) for m in re.finditer(r'<<\s*"H",\s*"<<([\d,\s]*)>>"\s*>>', o)})
        pre = {h[:-1] for h in hs}
        hs = [h for h in hs if h not in pre]
        tot = len(hs)
        if len(hs) > limit: hs = ctx.rng("model", name).sample(hs, limit)
        ctx.cov.setdefault("models", {})[name] = {"generated": g, "distinct": d, "depth": depth, "histories": tot, "replayed": len(hs)}
        for j, h in enumerate(hs):
            ev = []
            for i in h:
                a = al[i - 1]
                ev.append(("cont",) if a[0] == "cont" else ("bp", a[0], a[1] if len(a) > 1 else 0))
            out.append(VmScen("%s.%d" % (name, j), code, A.strs, events=ev + [("cont",)] * 2, steps=0))
    return out

# ---------------------------------------------------------------- histories from the model
def model(ctx, name, items, depth, limit):
    """items: lists of instructions (op, arg) appended one after the other; functions F, G, L of the prologue are at hand"""
    A = Asm(("x", "k", "m", "cid", "cself"))
    A.emit("jump", "M")
    A.label("F"); A.emit("lload", 1); A.emit("ret1")                       # first argument
    A.label("G"); A.emit("pushs", 0); A.emit("lload", 0); A.emit("gstore"); A.emit("ret0")   # x = self
    A.label("H"); A.emit("lload", 1); A.emit("pushi", 1); A.emit("add"); A.emit("lstore", 1); A.emit("lload", 1); A.emit("ret1")
    A.label("M"); A.emit("nop")
    head = A.bytes()
    pos = {}
    for f in "FGH":
        B = Asm(A.strs); B.code = A.code[:]
        q = len(struct.pack("<H", len(A.strs))) + sum(len(t) + 1 for t in A.strs)
        for op, a in A.code:
            if op == ":":
                pos[a] = q
            else: q += 5 if op in ARGED else 1
    def enc(it):
        out = bytearray()
        for op, a in it:
            out.append(CODE[op])
            if op in ARGED: out += struct.pack("<I", (pos[a] if isinstance(a, str) else a) & 0xFFFFFFFF)
        return bytes(out)
    al = [enc(i) for i in items]
    conf = {"alphabet": [list(b) for b in al], "code": list(head), "strs": A.strs, "names": A.strs, "depth": depth}
    fn = workfile("vmgen-%s.json" % name, json.dumps(conf))
    rc, out = tlc("VmGen", "VmGen.cfg", env={"GEN": fn}, workers=1, timeout=600, heap="6g")
    if rc != 0 or "No error has been found" not in out:
        i = out.find("Error:")
        raise CheckError("model %s: rc %d\n%s" % (name, rc, out[max(0, i):i + 3000]))
    g, d = tlc_stats(out); ctx.states += d; ctx.transitions += g
    hs = sorted({tuple(int(x) for x in m.group(1).split(", ")) for m in re.finditer(r'<<\s*"H",\s*"<<([\d,\s]*)>>"\s*>>', out)})
    pre = {h[:-1] for h in hs}
    hs = [h for h in hs if h not in pre]
    tot = len(hs)
    if len(hs) > limit: hs = ctx.rng("model", name).sample(hs, limit)
    ctx.cov.setdefault("models", {})[name] = {"generated": g, "distinct": d, "depth": depth, "histories": tot, "replayed": len(hs)}
    return [VmScen("%s.%d" % (name, j), head + b"".join(al[i - 1] for i in h) + b"\1\0\0", A.strs, steps=60) for j, h in enumerate(hs)]
I_ = lambda n: [("pushi", n)]
CALLS = [I_(0), I_(1), [("pushnil", 0)], [("pushcn", "F")], [("pushcn", "G")], [("pushl", "H")], [("callc", 0)], [("pusht", 0)], [("dup", 0)],
         [("pushs", 2)], [("tput", 0)], [("tget", 0)], [("lstore", 1)], [("lload", 1)], [("pushs", 4), ("gload", 0)], [("pop", 0)]]
DATA = [I_(2), [("pushf", fbits(2.0))], [("pushs", 1)], [("pushnil", 0)], [("pusht", 0)], [("dup", 0)], [("tput", 0)], [("tget", 0)], [("eq", 0)], [("lt", 0)],
        [("add", 0)], [("lnot", 0)], [("pushs", 0), ("gload", 0)], [("pushs", 0), ("pusht", 0), ("gstore", 0)], [("lstore", 1)], [("lload", 1)], [("lremove", 1)]]
