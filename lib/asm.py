"""Assembly text, listings, debug information and compiled positions, checked against Asm.tla."""
from bz import *
from vm import OPS, ARGED, CODE
from urllib.parse import quote
JUMPS = ("jump", "jumpz", "jumpnz")

class AsmScen:
    """a text: assembled, listed, listed instruction by instruction, assembled again"""
    def __init__(self, sid, lines, ones=None): self.sid, self.lines, self.ones = sid, lines, ones
    def dir(self):
        d = os.path.join(tmp(), "asm", self.sid); os.makedirs(d, exist_ok=True); return d
    def scenario(self):
        d = self.dir()
        with open(d + "/a.basm", "w") as f: f.write("\n".join(self.lines) + "\n")
        return (self.sid, ["as %s/a.basm" % d, "ls %s/a.lst" % d, "relab %s/a.lst %s/b.basm" % (d, d), "asx %s/b.basm" % d, "l1all"])
    def describe(self): return {"assembly": self.lines}
    def trace(self, res):
        if res.end != "ok": return None, "ended with %s %s on\n%s" % (res.end, res.err, "\n".join(self.lines))
        o = res.out
        ev = [{"e": "asm", "lines": self.lines, "rc": o[0]["rc"], "bytes": list(bytes.fromhex(o[0].get("bytes", ""))), "dbg": o[0].get("dbg", [])}]
        if o[0]["rc"] == 0:
            ev.append({"e": "list", "rc": o[1]["rc"], "lines": o[1]["lines"]})
            ev.append({"e": "again", "rc": o[3]["rc"], "bytes": list(bytes.fromhex(o[3].get("bytes", "")))})
            for off, t in o[4]["all"][:self.ones] + (o[4]["all"][-self.ones:] if self.ones else []): ev.append({"e": "one", "off": off, "text": t})
        return {"files": {}, "main": "", "ev": ev}, None
    def explain(self, tr, pos, wanted):
        return "%s is not what the text says: %s\n%s" % (wanted, json.dumps(tr["ev"][pos - 1])[:1500], "\n".join(self.lines)[:1500])

TEXTS = ["", "a", "hello", "two words", " lead", "trail ", "a\\nb", "back\\\\slash", "quote'in", "#no comment", "@nolabel", "!3", "tab\there", "x|y,1,2", "\\\\n", "zz"]
INTS = [0, 1, -1, 2, 7, 10, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, -256, -32768, 16777215, 16777216, 2147483647, -2147483648, -2147483647, 123456789]
FLTS = ["0.0", "1.0", "0.5", "-0.25", "3.14", "0.1", "-7.125", "100.001", "0.00000001", "16777216.0", "0.3333333", "1234.5678", "+2.5", "12.", "-0.0", "8388607.5", "0.0009765625"]
def gen_asm(sid, R, n=None, bad=None):
    n = n or R.choice([1, 2, 5, 12, 30, 60, 120])
    strs = [R.choice(TEXTS) for _ in range(R.choice([0, 1, 2, 5]))]
    labs = ["@l%d" % i for i in range(R.choice([0, 1, 3]))]
    body = []
    for i in range(n):
        op = R.choice(OPS) if R.random() < 0.7 else R.choice(sorted(ARGED))
        a = ""
        if op in JUMPS:
            if not labs: continue
            a = " " + R.choice(labs)
        elif op == "pushf": a = " " + R.choice(FLTS + ["%.*f" % (R.choice([1, 3, 6]), R.uniform(-1000, 1000))])
        elif op in ARGED: a = " " + (R.choice(labs) if labs and op in ("pushcn", "pushl", "pushi") and R.random() < 0.4 else str(R.choice(INTS + [R.randrange(-1 << 31, 1 << 31), R.randrange(300)])))
        d = R.choice(["", "", "\t|%d,%d,%s" % (R.choice(LNO) if R.random() < .1 else R.randrange(1, 40), R.choice(LNO) if R.random() < .1 else R.randrange(60), R.choice(["a.bzz", "a.bzz", "b.bzz", "b.bzz", "name with space.bzz", "a|b,c.bzz"]))])
        body.append(R.choice(["\t", "\t", "", "  "]) + op + a + d)
        if R.random() < 0.06: body.append(R.choice(["", "# comment", "   ", "\t# more | 1,2,x"]))
    if not body: body = ["\tnop"]
    for l in labs: body.insert(R.randrange(len(body)), l + R.choice(["", "", "\t|%d,%d,a.bzz" % (R.randrange(1, 40), R.randrange(9))]))
    if body[-1].startswith("@"): body.append("\tdone")
    if bad or (bad is None and R.random() < 0.15):
        k = R.choice(["op", "arg", "lab", "far"])
        if k == "op": body.insert(R.randrange(len(body)), "\t" + R.choice(["pushx 1", "Add", "addd", "push", "jumpzz @l0", "nop2", "tpu"]))
        elif k == "arg": body.insert(R.randrange(len(body)), "\t" + R.choice(sorted(ARGED)))
        elif k == "lab": body.insert(R.randrange(len(body)), "\t%s @nowhere" % R.choice(["jump", "jumpz", "pushcn", "pushl"]))
        else: body += ["\tjump @end", "@end"]
    return AsmScen(sid, ["!%d" % len(strs)] + ["'" + t for t in strs] + [""] * R.randrange(2) + body)
def each_instr():
    """every instruction, with every argument of the grid"""
    out = []
    for op in OPS:
        if op in JUMPS: ls = ["@a", "\tnop", "\t%s @b" % op, "\t%s @a" % op, "@b", "\t%s @b" % op]
        elif op == "pushf": ls = ["\tpushf " + x for x in FLTS]
        elif op in ARGED: ls = ["\t%s %d" % (op, x) for x in INTS]
        else: ls = ["\t" + op, "\tnop", "\t" + op]
        out.append(AsmScen("each-" + op, ["!1", "'x"] + ls))
    return out

LNO = [1, 2, 39, 127, 128, 255, 256, 257, 300, 32767, 32768, 65535, 65536, 65537, 100000]
def big(R):
    """many strings, long ones, many labels, great offsets, great line numbers"""
    out = []
    n = R.randint(257, 300)
    out.append(AsmScen("big-strs", ["!%d" % n] + ["'s%d" % i for i in range(n)] + ["\tpushs %d" % i for i in R.sample(range(n), 20)], ones=5))
    out.append(AsmScen("big-text", ["!4"] + ["'" + "ab c"[i] * k for i, k in enumerate((255, 256, 1023, 5000))] + ["\tpushs 3"], ones=5))
    n = R.randint(110, 160)
    ls = []
    for i in range(n): ls += ["@x%d" % i, "\t%s @x%d" % (R.choice(sorted(JUMPS)), R.randrange(n))]
    out.append(AsmScen("big-labs", ["!0"] + ls + ["\tdone"], ones=5))
    ls = []
    for i in range(30): ls.append("\tnop\t|%d,%d,%s" % (R.choice(LNO), R.choice(LNO), R.choice(["a.bzz", "b" * 250 + ".bzz"])))
    out.append(AsmScen("big-lines", ["!0"] + ls))
    for k, m, n in ((0, 0, 300), (2, 16300, 40), (3, 22000, 30)):
        out.append(AsmScen("big-far-%d" % (k * m), ["!%d" % k] + ["'" + "abc"[i] * m for i in range(k)] + ["\tjump @far", "@near"] + ["\tpushi %d" % i for i in range(n)] + ["\tpushcn @far", "@far", "\tjumpz @near\t|3,4,a.bzz", "\tjumpnz @far", "\tdone"], ones=3))
    return out

class DbgScen:
    """debug information: ("set",off,l,c,f) ("off",o) ("pos",l,c,f) ("file",) ("new",)"""
    def __init__(self, sid, ops): self.sid, self.ops = sid, ops
    def scenario(self):
        d = os.path.join(tmp(), "asm"); os.makedirs(d, exist_ok=True)
        ls = ["dn"]
        for o in self.ops:
            if o[0] == "set": ls.append("ds %d %d %d %s" % (o[1], o[2], o[3], quote(o[4])))
            elif o[0] == "off": ls.append("do %d" % o[1])
            elif o[0] == "pos": ls.append("dp %d %d %s" % (o[1], o[2], quote(o[3])))
            else: ls.append("df %s/%s.bdb" % (d, self.sid))
        return (self.sid, ls)
    def describe(self): return {"ops": self.ops}
    def trace(self, res):
        if res.end != "ok": return None, "ended with %s %s" % (res.end, res.err)
        ev = [{"e": "new"}]
        for o, x in zip(self.ops, res.out[1:]):
            if o[0] == "set": ev.append({"e": "set", "x": list(o[1:])})
            elif o[0] == "off": ev.append({"e": "off", "o": o[1], "r": x["r"]})
            elif o[0] == "pos": ev.append({"e": "pos", "p": list(o[1:]), "r": x["r"]})
            else: ev.append({"e": "file", "w": x["w"], "r": x["r"], "dbg": x["dbg"]})
        return {"files": {}, "main": "", "ev": ev}, None
    def explain(self, tr, pos, wanted): return "debug information: step %d, %s" % (pos, json.dumps(tr["ev"][max(0, pos - 12):pos])[:1500])
def gen_dbg(sid, R, n=40):
    names = ["a.bzz", "b.bzz", "a", "x" * R.choice([100, 511, 512, 513, 2000]), "name with space.bzz"]
    offs = [R.choice([0, 1, 2, 3, 7, 99, 100, 101, 107, 200, 1000, 65536, 100000]) for _ in range(6)]
    places = [(R.choice([1, 2, 3, 10, 100, 300, 70000]), R.choice([0, 1, 2, 21, 100]), R.choice(names)) for _ in range(5)]
    ops = []
    for _ in range(n):
        k = R.random()
        if k < 0.4: ops.append(("set", R.choice(offs)) + R.choice(places))
        elif k < 0.65: ops.append(("off", R.choice(offs)))
        elif k < 0.93: ops.append(("pos",) + R.choice(places))
        else: ops.append(("file",))
    return DbgScen(sid, ops + [("file",)] + [("off", o) for o in offs] + [("pos",) + p for p in places])

class CompScen:
    """a script: its assembly text assembled; every instruction of it placed at one of its tokens"""
    def __init__(self, ls): self.sid, self.files, self.main = ls.sid, ls.files, ls.main
    def scenario(self):
        d = os.path.join(tmp(), "comp", self.sid); os.makedirs(d, exist_ok=True)
        for n, t in self.files.items():
            with open(os.path.join(d, n), "w") as f: f.write(t)
        return (self.sid, ["co %s/%s %s/out" % (d, self.main, d), "ascat %s/out.basm" % d, "ls %s/a.lst" % d, "relab %s/a.lst %s/b.basm" % (d, d), "asx %s/b.basm" % d])
    def describe(self): return {"files": self.files, "main": self.main}
    def trace(self, res):
        if res.end != "ok": return None, "ended with %s %s" % (res.end, res.err)
        o = res.out
        if o[0]["rc"] == 2: return None, None
        base = lambda l: l if l.startswith("'") else re.sub(r",/[^\n]*/", ",", l)
        lines = [base(l) for l in o[1]["lines"]]
        by = list(bytes.fromhex(o[1].get("bytes", "")))
        ev = [{"e": "asm", "lines": lines, "rc": o[1]["rc"], "bytes": by, "dbg": o[1].get("dbg", [])},
              {"e": "list", "rc": o[2]["rc"], "lines": [base(l) for l in o[2]["lines"]]},
              {"e": "again", "rc": o[4]["rc"], "bytes": list(bytes.fromhex(o[4].get("bytes", "")))},
              {"e": "compiled", "bytes": by, "dbg": o[1].get("dbg", [])}]
        return {"files": {n: list(t) for n, t in self.files.items()}, "main": self.main, "ev": ev}, None
    def explain(self, tr, pos, wanted): return "%s: %s\n%s" % (wanted, json.dumps(tr["ev"][pos - 1])[:1500], "\n".join(self.files.values())[:1500])
