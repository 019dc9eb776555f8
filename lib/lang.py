"""Buzz programs: compiled and run, their observable behaviour checked against Lang.tla."""
from bz import *
from vm import dyad
import shutil
from urllib.parse import quote

def lv(v):
    """a value as seen -> as the specification writes it"""
    if v[0] == "f": return dyad(v[1])
    if v[0] == "t": return ["t", [[lv(k), lv(x)] for k, x in v[1]], v[2]]
    return v
def arg(v): return {"n": "n", "i": "i:%s", "f": "f:%s", "s": "s:%s"}[v[0]] % ((quote(v[1], safe="") if v[0] == "s" else v[1],) if len(v) > 1 else ())

class LangScen:
    places = False                       # compare where errors are reported
    """files: {name: text}; events after the load: ("call", name, values) ("nbrreset",) ("nbradd", id, d, az, el in 1/64)"""
    def __init__(self, sid, files, main="main.bzz", events=(), gc=None, data=None, libs=()):
        self.libs = list(libs)           # libraries of src/include that the script includes
        self.data = data                 # {name: text or None}: files the script may use (None: not there)
        self.sid, self.files, self.main, self.events, self.gc = sid, ({main: files} if isinstance(files, str) else files), main, list(events), gc
    def scenario(self):
        d = os.path.join(tmp(), "files", self.sid); os.makedirs(d, exist_ok=True)
        for n, t in self.files.items():
            with open(os.path.join(d, n), "w") as f: f.write(t)
        for n in self.libs: shutil.copy(os.path.join(REPO, "src", "include", n), d)
        ls = self.puts(d)
        ls += ["prog 1 %s/%s %s/out%s" % (d, self.main, d, "" if self.gc is None else " %d %d" % self.gc)]
        for e in self.events:
            if e[0] == "call": ls.append("callargs 1 %s %s" % (e[1], " ".join(map(arg, e[2]))))
            elif e[0] == "nbrreset": ls.append("nbrreset 1")
            elif e[0] == "msg": ls += ["feed 1 %d %s" % (e[1], encmsg({"t": "B", "topic": ["s", e[2]], "val": e[3]}).hex()), "procin 1"]
            elif e[0] == "cat": ls.append("cat %s/%s" % (d, e[1]))
            else: ls.append("nbradd 1 %d %d %d %d" % e[1:])
        return (self.sid, ls)
    def puts(self, d): return [("unput %s/%s" % (d, n)) if t is None else "put %s/%s %s" % (d, n, quote(t, safe="")) for n, t in (self.data or {}).items()]
    def describe(self): return {"files": self.files, "main": self.main, "events": self.events, "gc": self.gc, **({"data": self.data} if self.data is not None else {})}
    def text(self): return "\n".join("--- %s\n%s" % (n, t) for n, t in list(self.files.items()) + [("file " + n, t) for n, t in (self.data or {}).items() if t is not None])
    def start(self): return [[n, t] for n, t in (self.data or {}).items() if t is not None]
    def trace(self, res):
        if res.end != "ok": return None, "ended with %s %s on\n%s" % (res.end, res.err, self.text())
        out = [o for o in res.out[len(self.data or {}):] if o["op"] != "feed"]
        o = out[0]
        if o.get("budget"): return None, None
        def log(o): return [[lv(x) for x in r] for r in o.get("log", [])]
        if o["rc"] != 0: ev = [{"e": "load", "rc": o["rc"], "at": o.get("perr", ["", -1]), "st": 0, "err": 0, "log": []}]
        else:
            ev = [{"e": "load", "rc": 0, "at": ["", -1], "eat": o.get("at", ["", -1, 0]) if self.places else [], "st": o["st"], "err": o["err"], "log": log(o)}]
            for e, o in zip(self.events, out[1:]):
                if e[0] == "msg": ev.append({"e": "msg", "from": e[1], "topic": e[2], "v": lv(e[3]), "st": o["st"], "err": o["err"], "log": log(o), "grow": o["grow"]})
                elif e[0] == "cat": ev.append({"e": "cat", "name": e[1], "text": o["text"]})
                elif e[0] == "call":
                    ev.append({"e": "call", "name": e[1], "args": [lv(x) for x in e[2]], "eat": o.get("at", ["", -1, 0]) if self.places else [], "st": o["st"], "err": o["err"], "log": log(o),
                               "grow": o["grow"], "ret": lv(o.get("ret", ["?"]))})
                elif e[0] == "nbrreset": ev.append({"e": "nbrreset"})
                else: ev.append({"e": "nbradd", "id": e[1], "d": lv(["f", fbits(e[2] / 64)]), "az": lv(["f", fbits(e[3] / 64)]), "el": lv(["f", fbits(e[4] / 64)])})
        return {"files": {n: list(t) for n, t in self.files.items()} | {n: [] for n in self.libs}, "main": self.main, "data": self.start(), "libs": self.libs, "ev": ev}, None
    def explain(self, tr, pos, wanted):
        return "event %d was %s, the meaning of the program is %s\n%s" % (pos, json.dumps(tr["ev"][pos - 1])[:900], wanted[:900], self.text()[:1500])

# ---------------------------------------------------------------- programs
STRS = ["", "a", "b", "key", "hello", "Buzz", "x1", "12", "3.5", "-7", " 8", "a b", "q\\'t", "tab\\there", "1e", "zz"]
KEYS = ["a", "b", "n", "v", "k1"]
class Gen:
    """random programs as token lists; types steer it: num str tab fun any"""
    def __init__(self, R, lib=0.15, size=14, wrong=0.015, nbr=False):
        self.R, self.lib, self.size, self.wrong, self.nbr = R, lib, size, wrong, nbr
        self.scopes = []                 # [{name: type}] of the locals that are visible here
        self.globs = {}
        self.funs = {}                   # name -> arity
        self.no = 0
        self.depth = 0
        self.infun = None                # None at the top, else the function's name
        self.noloop = 0
    def name(self, p="v"):
        self.no += 1
        return "%s%d" % (p, self.no)
    def pick(self, *ws):
        t = self.R.random() * sum(w for w, _ in ws)
        for w, f in ws:
            t -= w
            if t <= 0: return f
        return ws[-1][1]
    # ---- names in sight
    def vars(self, ty):
        out = [n for n, t in self.globs.items() if t == ty or ty == "any"]
        for sc in self.scopes: out += [n for n, t in sc.items() if t == ty or ty == "any"]
        return out
    # ---- expressions: token lists.  level: how loosely bound the result may be
    def num(self, d):
        R = self.R
        k = R.random()
        if d <= 0 or k < 0.25: return [self.numlit()]
        if k < 0.45:
            v = self.vars("num")
            if v: return [R.choice(v)]
        if k < 0.75:
            op = R.choice(["+", "-", "*", "+", "-", "*", "/", "%", "^", "&", "|", "<<", ">>"])
            a, b = self.num(d - 1), self.num(d - 1)
            if op in "/%": b = [R.choice(["2", "3", "5", "2.5", "7"])]
            if op == "^": b = [R.choice(["0", "1", "2", "3"])]; a = [R.choice(["2", "3", "1.5", "10"])]
            if op in ("&", "|", "<<", ">>"):
                a, b = [R.choice(["1", "6", "12", "255"] + self.vars("int"))], [R.choice(["0", "1", "2", "3", "7"])]
            t = a + [op] + b
            return ["("] + t + [")"] if R.random() < 0.3 else t
        if k < 0.81: return ["("] + self.cond(d - 1) + [")"]
        if k < 0.85: return ["-"] + self.num(d - 1) if R.random() < 0.7 else ["!", R.choice(["0", "1", "5"])]
        if k < 0.85 + self.lib: return self.libnum(d)
        if k < 0.97:
            f = self.anyfun(d)
            if f: return f
        v = self.vars("tab")
        if v: return [R.choice(v)] + self.index(d)
        return [self.numlit()]
    def numlit(self):
        R = self.R
        return R.choice([str(R.randint(0, 9)), str(R.randint(0, 9)), str(R.randint(10, 300)), "%d.%s" % (R.randint(0, 20), R.choice(["5", "25", "0", "75", "125", "1", "3"])), "0", "1"])
    def index(self, d):
        R = self.R
        k = R.random()
        if k < 0.5: return [".", R.choice(KEYS)]
        if k < 0.75: return ["[", R.choice(["0", "1", "2", "1.0", '"a"', "'n'", "3"]), "]"]
        return ["["] + (self.num(1) if k < 0.93 else self.string(1)) + ["]"]
    def string(self, d):
        R = self.R
        k = R.random()
        v = self.vars("str")
        if v and k < 0.4: return [R.choice(v)]
        if d > 0 and k < 0.4 + self.lib:
            return R.choice([lambda: ["string", ".", "concat", "("] + self.string(d - 1) + [","] + self.string(d - 1) + [")"],
                             lambda: ["string", ".", "tostring", "("] + self.num(d - 1) + [")"],
                             lambda: ["string", ".", "sub", "("] + self.string(d - 1) + [",", str(R.randint(0, 3)), ",", str(R.randint(0, 6)), ")"],
                             lambda: ["type", "("] + self.any(d - 1) + [")"]])()
        q = R.choice("'\"")
        return [q + R.choice(STRS) + q]
    def libnum(self, d):
        R = self.R
        m = ["math", "."]
        return R.choice([lambda: m + [R.choice(["abs", "floor", "ceil", "round"]), "("] + self.num(d - 1) + [")"],
                         lambda: m + [R.choice(["min", "max"]), "("] + self.num(d - 1) + [","] + self.num(d - 1) + [")"],
                         lambda: m + ["sqrt", "(", R.choice(["0", "1", "4", "9", "2.25", "16"]), ")"],
                         lambda: ["string", ".", "length", "("] + self.string(d - 1) + [")"],
                         lambda: ["size", "("] + self.table(d - 1) + [")"],
                         lambda: [R.choice(["isnil", "isint", "isfloat", "isstring", "istable", "isclosure"]), "("] + self.any(d - 1) + [")"],
                         lambda: ["float", "(", R.choice(["3", "0", "100"] + self.vars("int")), ")"],
                         lambda: ["int", "(", R.choice(["3.5", "0.25", "-7.75", "100.0"]), ")"],
                         lambda: ["string", ".", "toint", "(", '"%d"' % R.randint(-20, 99), ")"],
                         lambda: ["cid", "("] + self.num(d - 1) + [")"]])()
    def table(self, d):
        R = self.R
        v = self.vars("tab")
        if v and (R.random() < 0.5 or d <= 0): return [R.choice(v)]
        if d > 0 and R.random() < 0.1 + self.lib:
            return ["clone", "("] + self.table(d - 1) + [")"]
        return self.tablit(d)
    def tablit(self, d):
        R = self.R
        out = ["{"]
        for i in range(R.choice([0, 1, 1, 2, 3])):
            if i: out.append(",")
            out += [".", R.choice(KEYS + ["0", "1", "2", "3", "2.5", "0.5"]), "="] + (self.expr(d - 1) if R.random() < 0.85 else self.lam(d - 1, method=True))
        return out + ["}"]
    def lam(self, d, arity=None, method=False, body=None):
        """an anonymous function; its variables are the ones visible here and its parameters"""
        R = self.R
        n = R.randint(0, 3) if arity is None else arity
        ps = [self.name("p") for _ in range(n)]
        if ps and R.random() < 0.08 and any(self.scopes):
            ps[0] = R.choice([x for sc in self.scopes for x in sc] or ps)
            if ps[0] in ps[1:]: ps[0] = self.name("p")
        self.scopes.append({p: "num" for p in ps})
        was, self.infun = self.infun, "lambda"
        self.noloop += 1
        b = self.block(d, n=R.randint(0, 2), body=body)
        self.noloop -= 1
        self.infun = was
        self.scopes.pop()
        out = ["function", "("]
        for i, p in enumerate(ps): out += ([","] if i else []) + [p]
        return out + [")"] + b
    def anyfun(self, d):
        R = self.R
        fs = [(f, a) for f, a in self.funs.items() if self.calls_ok(f)]
        fs += [(n, int(t[3:])) for sc in self.scopes + [self.globs] for n, t in sc.items() if t.startswith("fun")]
        if not fs or d <= 0: return None
        f, a = R.choice(fs)
        return [f] + self.args(a, d)
    def calls_ok(self, f): return self.infun is None or (self.infun != "lambda" and self.no_of(f) < self.no_of(self.infun))
    def no_of(self, f): return int(f[1:])
    def args(self, a, d):
        if self.R.random() < self.wrong: a = max(0, a + self.R.choice([-1, 1]))
        out = ["("]
        for i in range(a): out += ([","] if i else []) + self.num(d - 1)
        return out + [")"]
    def cond(self, d):
        R = self.R
        k = R.random()
        if k < 0.12: return ["not"] + self.cond(d - 1)
        t = self.compar(d)
        while R.random() < 0.22: t += [R.choice(["and", "or"])] + self.compar(d - 1)
        return t
    def compar(self, d):
        R = self.R
        k = R.random()
        if k < 0.7: return self.num(d - 1) + [R.choice(["==", "!=", "<", "<=", ">", ">="])] + self.num(d - 1)
        if k < 0.8: return self.string(d - 1) + [R.choice(["==", "!=", "<", "<=", ">", ">="])] + self.string(d - 1)
        if k < 0.9: return self.any(d - 1) + [R.choice(["==", "!="])] + ["nil"]
        return self.num(d - 1)
    def any(self, d):
        R = self.R
        return self.pick((5, lambda: self.num(d)), (2, lambda: self.string(d)), (1, lambda: self.table(d)), (0.6, lambda: ["nil"]),
                         (0.7, lambda: [R.choice(self.vars("any") or ["undef"])]), (0.3, lambda: ["("] + self.cond(d - 1) + [")"]))()
    def expr(self, d):
        if self.R.random() < self.wrong: return self.any(d) + [self.R.choice(["+", "*", "-", "&"])] + self.any(d)
        return self.any(d)
    # ---- statements
    def rec(self, d):
        out = ["rec", "("]
        for i in range(self.R.randint(1, 3)): out += ([","] if i else []) + (self.any(d) if self.R.random() < 0.8 else self.cond(d))
        return out + [")"]
    def assign(self, d):
        R = self.R
        ty = self.pick((5, "num"), (2, "str"), (2, "tab"))
        v = self.vars(ty)
        loc = bool(self.scopes)
        val = {"num": lambda: self.num(d), "str": lambda: self.string(d), "tab": lambda: self.table(d)}[ty]()
        if v and R.random() < 0.6: return [R.choice(v), "="] + val
        if loc and R.random() < 0.75:
            n = self.name("l")
            if R.random() < 0.02: n = R.choice(list(self.scopes[-1]) or [n])
            self.scopes[-1][n] = ty
            return ["var", n, "="] + val
        n = self.name("g")
        self.globs[n] = ty
        return (["var"] if not loc and R.random() < 0.2 else []) + [n, "="] + val
    def tabput(self, d):
        v = self.vars("tab")
        if not v: return self.assign(d)
        k = self.index(d)
        e = self.any(d) if self.R.random() < 0.8 else (["nil"] if self.R.random() < 0.6 else self.lam(d, method=True))
        return [self.R.choice(v)] + k + ["="] + e
    def ifstat(self, d):
        out = ["if", "("] + self.cond(d) + [")"] + self.body(d)
        if self.R.random() < 0.5: out += ["else"] + self.body(d)
        return out
    def whilestat(self, d):
        if self.noloop > 1: return self.rec(d)
        self.noloop += 1
        c = self.name("c")
        k = self.R.randint(1, 4)
        if self.R.random() < 0.5:
            b = self.block(d, pre=[c, "=", c, "+", "1"])
            out = [c, "=", "0", "while", "(", c, "<", str(k)] + (["and"] + self.compar(d - 1) if self.R.random() < 0.3 else []) + [")"] + b
        else: out = ["for", "(", c, "=", "0", ",", c, "<", str(k), ",", c, "=", c, "+", "1", ")"] + self.body(d)
        self.noloop -= 1
        return out
    def walk(self, d):
        """a library function that walks a table"""
        R = self.R
        t = self.table(d - 1)
        k, v = self.name("p"), self.name("p")
        m = R.choice(["foreach", "map", "filter", "reduce"])
        pre = ["rec", "(", k, ",", v, ")"]
        self.scopes.append({})
        was, self.infun = self.infun, "lambda"
        self.noloop += 2
        body = pre + {"foreach": lambda: self.rec(1), "map": lambda: ["return"] + self.any(1), "filter": lambda: ["return"] + self.cond(1),
                      "reduce": lambda: ["rec", "(", "acc", ")", "return"] + R.choice([["acc", "+", "1"], ["k" + k[1:] if False else "size", "(", "{", "}", ")", "+", "acc"]])}[m]()
        self.noloop -= 2
        self.infun = was
        self.scopes.pop()
        f = ["function", "(", k, ",", v] + ([",", "acc"] if m == "reduce" else []) + [")", "{"] + body + ["}"]
        call = [m, "("] + t + [","] + f + ([",", str(R.randint(0, 3))] if m == "reduce" else []) + [")"]
        return call if m == "foreach" else ["rec", "("] + call + [")"]
    def method(self, d):
        v = self.vars("tab")
        if not v: return self.assign(d)
        t, k = self.R.choice(v), self.R.choice(KEYS)
        a = self.R.randint(0, 2)
        ps = [self.name("p") for _ in range(a)]
        self.scopes.append(dict({p: "num" for p in ps}, self="tab"))
        was, self.infun = self.infun, "lambda"
        self.noloop += 1
        b = self.block(d - 1, n=self.R.randint(1, 2))
        self.noloop -= 1
        self.infun = was
        self.scopes.pop()
        out = [t, ".", k, "=", "function", "("]
        for i, p in enumerate(ps): out += ([","] if i else []) + [p]
        return out + [")"] + b + [t, ".", k] + self.args(a, 2)
    def funvar(self, d):
        n = self.name("h")
        a = self.R.randint(0, 2)
        f = self.lam(d, arity=a)
        if self.scopes: self.scopes[-1][n] = "fun%d" % a; return ["var", n, "="] + f
        self.globs[n] = "fun%d" % a
        return [n, "="] + f
    def block(self, d, n=None, pre=None, body=None):
        self.scopes.append({})
        out = ["{"] + (pre or [])
        if body: out += body
        for _ in range(self.R.randint(1, 3) if n is None else n): out += self.stat(d - 1)
        if self.infun is not None and self.R.random() < 0.6: out += ["return"] + ([";"] if self.R.random() < 0.12 else self.any(d) if self.R.random() < 0.8 else self.cond(d))
        self.scopes.pop()
        return out + ["}"]
    def body(self, d):
        if self.R.random() < 0.7: return self.block(d)
        s = self.simple(d)
        if s[0] == "var": s = self.rec(d)
        return s
    def simple(self, d): return self.pick((4, self.rec), (3, self.assign), (2, self.tabput))(d)
    def stat(self, d):
        self.noloop += 0
        if d <= 0: return self.simple(1)
        return self.pick((5, self.rec), (4, self.assign), (3, self.tabput), (1.6, self.ifstat), (1, self.whilestat), (0.9, self.walk), (0.8, self.method),
                         (0.5, self.funvar), (0.4, lambda d: self.anyfun(d) or self.rec(d)))(d)
    def function(self):
        n = self.name("f")
        a = self.R.randint(0, 3)
        ps = [self.name("p") for _ in range(a)]
        was = self.scopes, self.infun
        self.scopes, self.infun = [{p: "num" for p in ps}], n
        out = ["function", n, "("]
        for i, p in enumerate(ps): out += ([","] if i else []) + [p]
        out += [")"] + ([self.R.choice(['"doc"', "'about it'"])] if self.R.random() < 0.1 else []) + self.block(3)
        self.scopes, self.infun = was
        self.funs[n] = a
        return out
    def program(self):
        """a list of top-level statements, each a token list"""
        out = []
        for i in range(self.size):
            out.append(self.function() if self.R.random() < 0.2 else self.stat(3))
        return out

def join(R, toks, style=None):
    """text of tokens: layout that should not matter, mostly"""
    style = R.choice(["plain", "tight", "lines", "wild"]) if style is None else style
    out = []
    prev = ""
    for t in toks:
        if prev:
            word = (prev[-1].isalnum() or prev[-1] == "_") and (t[0].isalnum() or t[0] == "_")
            glue = prev in "=!<>" and t[0] in "=<>" or prev[-1].isdigit() and t[0] == "."
            sep = " " if word or glue else ""
            if style == "plain": sep = " " if R.random() < 0.95 or word or glue else ""
            if style == "lines" and R.random() < 0.12 and prev != "return": sep = "\n" + " " * R.randint(0, 3)
            if style == "wild":
                k = R.random()
                if k < 0.12 and prev != "return": sep = R.choice(["\n", "\n\n", "  # note\n", "\t", " \r\n", "#x = {\n", "\n# if\n"])
                elif k < 0.14: sep = " \n"
                elif k < 0.3: sep = "  "
            if prev == "\n": sep = ""
            out.append(sep)
        out.append(t); prev = t
    return "".join(out)
def layout(R, stats, style=None):
    style = R.choice(["plain", "tight", "lines", "wild"]) if style is None else style
    out = []
    for s in stats:
        out.append(join(R, s, style))
        out.append("\n" if style in ("plain", "lines") or R.random() < 0.5 else R.choice([";", "; ", " ", "\n\n", " # done\n"]))
    return "".join(out)

def gen_prog(sid, R, **kw):
    kw = dict(kw); style = kw.pop("style", None); split = kw.pop("split", True); calls = kw.pop("calls", True)
    g = Gen(R, **dict({"size": R.choice([4, 8, 14, 20])}, **kw))
    stats = g.program()
    files = {}
    if split and R.random() < 0.2 and len(stats) > 3:
        names = ["b.bzz", "c.bzz"][:R.randint(1, 2)]
        i, j = sorted((R.randint(0, len(stats)), R.randint(0, len(stats))))
        inner = stats[i:j]
        if len(names) == 2:
            k = R.randint(0, len(inner))
            files["c.bzz"] = layout(R, inner[k:], style)
            inner = inner[:k] + [["include", '"c.bzz"']]
        files["b.bzz"] = layout(R, inner, style)
        stats = stats[:i] + [["include", R.choice(['"b.bzz"', "'b.bzz'"])]] + stats[j:]
        if R.random() < 0.4: stats.insert(R.randint(i + 1, len(stats)), ["include", '"%s"' % R.choice(names)])
    files["main.bzz"] = layout(R, stats, style)
    ev = []
    if calls:
        fs = list(g.funs.items()) + [(n, int(t[3:])) for n, t in g.globs.items() if t.startswith("fun")]
        for _ in range(R.randint(0, 3)):
            if not fs: break
            f, a = R.choice(fs)
            ev.append(("call", f, [R.choice([["i", R.randint(-5, 20)], ["f", fbits(R.choice([0.5, 2.0, -1.25]))], ["s", "ab"]]) for _ in range(a)]))
    return LangScen(sid, files, events=ev)

TOKENS = ["var", "if", "else", "function", "return", "for", "while", "nil", "not", "and", "or", "x", "f", "1", "2.5", '"s"', "'q'", "{", "}", "(", ")", "[", "]",
          ",", ".", ";", "\n", "=", "==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "%", "^", "&", "|", "!", "<<", ">>", "self", "rec", "include", "1.2.3", "@", "$", "~", "_a", '"']
def gen_damage(sid, R, **kw):
    """a program with mistakes in it"""
    g = Gen(R, size=R.choice([1, 2, 4, 7]), wrong=0.0)
    stats = g.program()
    for _ in range(R.choice([1, 1, 1, 2, 3])):
        k = R.randrange(len(stats)); s = list(stats[k]); stats[k] = s
        i = R.randrange(len(s))
        w = R.random()
        if w < 0.25: del s[i]
        elif w < 0.4: s.insert(i, R.choice(TOKENS))
        elif w < 0.65: s[i] = R.choice(TOKENS)
        elif w < 0.75: s.insert(i, s[R.randrange(len(s))])
        elif w < 0.85: j = R.randrange(len(s)); s[i], s[j] = s[j], s[i]
        elif w < 0.92: del s[i:]
        else: s[i:i] = ["var", R.choice([t for t in s if t[0].isalpha() and t not in TOKENS and t not in ("math", "string")] or ["x"])]
        if not s: s.append("\n")
    text = layout(R, stats)
    w = R.random()
    if w < 0.08: text = text[:R.randrange(len(text) + 1)]
    elif w < 0.14: i = R.randrange(len(text) + 1); text = text[:i] + R.choice(["@", "\\", "'", '"', "`", "?", ":", "\n", "#", "~", "$", ".", "{", "}"]) + text[i:]
    files = {"main.bzz": text}
    w = R.random()
    if w < 0.1:
        i = R.randrange(len(stats) + 1)
        files = {"b.bzz": layout(R, stats[i:]), "main.bzz": layout(R, stats[:i] + [["include", '"b.bzz"']] + stats[:R.randrange(2)])}
    elif w < 0.13: files["main.bzz"] += R.choice(['include "nofile.bzz"\n', 'include b\n', 'include "b.bzz\nrec(1)\n', "include", 'include "main.bzz"\nrec(7)', 'x = 1 include "main.bzz" rec(8)'])
    return LangScen(sid, files)

# ---------------------------------------------------------------- the library (P21)
INTS = ["0", "1", "-1", "2", "3", "5", "-7", "10", "255", "256", "65535", "65536", "-65536", "2147483647", "-2147483647", "(-2147483647-1)", "1000000", "16777217"]
FLTS = ["0.0", "0.5", "-0.5", "1.5", "-1.5", "2.5", "-2.5", "3.75", "-3.75", "0.25", "2.25", "1000.0", "1000000.5", "16777216.0", "0.1", "-0.1", "123456.75", "2147483520.0", "3000000000.0",
        "-3000000000.0", "0.49999997", "8388609.0", "-8388607.5", "4.0", "9.0", "(1.0/0.0)"]
SVAL = ['""', '"a"', '"abc"', "'hello world'", '"0"', '"12"', '"-12"', '"+3"', '"  42"', '"7 8"', '"3.5"', '"-0.25"', '".5"', '"5."', '"1e3"', '"x1"', '"1x"', '"-"', '"."', '"2147483647"', '"99999999999"',
        '"-2147483648"', '"0x10"', '"inf"', '"nan"', '"\\t9"', '"a\\nb"', '"100000000"', '"16777217"', '"0.1"', '"-.75"']
OTHERS = ["nil", "{}", "{.a=1}", "rec", "string", "function(x) { return x }"]
ONE = ["string.length", "string.tostring", "string.toint", "string.tofloat", "math.abs", "math.floor", "math.ceil", "math.round", "math.sqrt", "math.log", "math.log2", "math.log10", "math.exp", "math.sin",
       "math.cos", "math.tan", "math.asin", "math.acos", "type", "int", "float", "isnil", "isint", "isfloat", "isstring", "istable", "isclosure", "size", "math.rng.setseed", "math.rng.uniform",
       "math.rng.exponential", "math.rng.gaussian", "clone"]
MANY = ["string.sub", "string.concat", "math.min", "math.max", "math.atan", "math.rng.uniform", "math.rng.gaussian", "string.length", "string.tostring", "math.abs", "math.rng.setseed"]
def lits(R, odd=0.08):
    w = R.random()
    return R.choice(OTHERS) if w < odd else R.choice(INTS if w < 0.4 else FLTS if w < 0.65 else SVAL)
# as arguments
def show(a): return "(%s)" % a if a.startswith("-") and False else a
def lib_all():
    """every one-argument function on every value of the grid"""
    return ["%s(%s)" % (f, show(a)) for f in ONE for a in INTS + FLTS + SVAL + OTHERS] + ["%s()" % f for f in ONE + MANY]
def lib_sub():
    out = []
    for s in ('""', '"a"', '"abcd"'):
        for i in ("0", "1", "2", "3", "4", "5", "-1", "1.0", "nil"):
            out.append("string.sub(%s,%s)" % (s, i))
            for j in ("0", "1", "2", "3", "4", "5", "9", "-1", "2.0", "nil"): out.append("string.sub(%s,%s,%s)" % (s, i, j))
    for a in INTS[:9] + FLTS[:9]:
        for b in INTS[:9] + FLTS[:9]: out += ["math.%s(%s,%s)" % (f, a, b) for f in ("min", "max")]
    for a in INTS[:10]:
        for b in INTS[:10]: out.append("math.rng.uniform(%s,%s)" % (a, b))
    return out
def lib_real():
    """the real-valued functions where spec/Real.tla has their values"""
    args = {"log": (0, 9e9), "log2": (0, 9e9), "log10": (0, 9e9), "exp": (-60, 60), "sqrt": (0, 9e9), "sin": (-2000, 2000), "cos": (-2000, 2000), "tan": (-2000, 2000), "asin": (-1, 1), "acos": (-1, 1)}
    at = "0 0.5 -0.5 1.5 -1.5 2.5 -2.5 3.75 -3.75 0.25 2.25 0.1 -0.1 0.75 -0.75 1 -1 1.0 2 -2 3 -3.0 4 5 6.25 7 -7 8 9 10 -10 16 20 50 64 100 255 256 1000 0.001 1024 65535 65536 1000000 0.125 0.9 0.3 0.7 -0.9 0.01 12.5 33 1.1 1.9".split()
    out = ["math.%s(%s)" % (f, x) for f, (a, b) in args.items() for x in at if a <= float(x) <= b]
    out += ["math.atan(%s,%s)" % (y, x) for y in ("0", "1", "-1", "2.0", "0.5", "-2.5", "10") for x in ("0", "1", "-1.0", "3", "0.5", "-2.5")]
    out += ["math.rng.%s" % d for d in ("uniform(2.5)", "uniform(-1.5,3)", "uniform(-1,3.75)", "uniform(5.0,-5.0)", "uniform(10,20.5)", "uniform(100.25,100.5)", "gaussian(2.0,10)", "gaussian(0,10)", "gaussian()", "gaussian(0.5,-100.5)", "gaussian(3)",
                                        "exponential(2.5)", "exponential(1)", "exponential(100)") for _ in range(5)]
    return out
def prog_calls(sid, calls):
    """calls one after the other; after one that fails nothing follows, so it stands alone"""
    return LangScen(sid, "".join("rec(%s)\n" % c for c in calls))
def gen_lib(sid, R, **kw):
    out = []
    for _ in range(R.randint(1, 6)):
        w = R.random()
        if w < 0.45: out.append("%s(%s)" % (R.choice(ONE), lits(R)))
        elif w < 0.6: out.append("string.sub(%s,%d%s)" % (R.choice(SVAL), R.randint(-1, 6), R.choice(["", ",%d" % R.randint(-1, 14)])))
        elif w < 0.7: out.append("string.concat(%s)" % ",".join(R.choice(SVAL) for _ in range(R.choice([1, 2, 3, 4, 5, 12, 30]))))
        elif w < 0.8: out.append("math.%s(%s,%s)" % (R.choice(["min", "max", "atan"]), R.choice(INTS + FLTS), R.choice(INTS + FLTS)))
        elif w < 0.9: out.append("%s(%s)" % (R.choice(MANY), ",".join(lits(R, 0.1) for _ in range(R.randint(0, 4)))))
        else:
            f, g = R.choice(ONE), R.choice(ONE)
            out.append("%s(%s(%s))" % (f, g, lits(R)))
    return prog_calls(sid, out)
def gen_rng(sid, R, **kw):
    """two runs of draws from the same seed"""
    draws = []
    for _ in range(R.randint(1, 6)):
        draws.append(R.choice([lambda: "math.rng.uniform()", lambda: "math.rng.uniform(%s)" % R.choice(INTS[:12] + FLTS[:8]),
                               lambda: "math.rng.uniform(%s,%s)" % (R.choice(INTS + FLTS[:8]), R.choice(INTS)), lambda: "math.rng.gaussian(%s)" % ",".join(R.choice(["1", "2.5", "0", "10"]) for _ in range(R.randint(0, 2))),
                               lambda: "math.rng.exponential(%s)" % R.choice(["1", "2.5", "10"])])())
    seeds = [R.choice(["0", "1", "42", "-5", "123456"]) for _ in range(2)]
    text = "".join("math.rng.setseed(%s)\n" % s + "".join("rec(%s)\n" % d for d in draws) for s in [seeds[0], seeds[1], seeds[0]])
    return LangScen(sid, text)

# ---------------------------------------------------------------- tables (P16)
TKEYS = ["1.5001", "1.50002", "0.0001", "0.00002", "100.001", "-7.0", "-1.0", "-2.5", '"1.5"', '"0.5"', "100.0", "0", "1", "2", "3", "-1", "10", "100", "65536", "-7", "1.0", "2.5", "0.5", "-0.0", "0.0", "1.5", '"a"', '"b"', '"key"', '"1"', '"2.5"', '""', '"0"', "2147483647"]
def gen_table(sid, R, **kw):
    out = ["t0 = {}", "t1 = {.a=1, .2=\"two\"}", "t2 = {}"]
    T = ["t0", "t1", "t2"]
    def key(): return R.choice(TKEYS) if R.random() < 0.85 else R.choice(["1+1", "i", "s", '"a"'])
    def value():
        w = R.random()
        return str(R.randint(0, 99)) if w < 0.4 else R.choice(['"v"', "2.5", "nil", "{}", "{.a=3}"]) if w < 0.7 else R.choice(T) if w < 0.85 else "nil"
    out.append("i = %d\ns = \"k%d\"" % (R.randint(0, 5), R.randint(0, 3)))
    def cb(*body): return "{ %s }" % " ".join(body)
    bad = ["rec(t0[nil])", "t0[{}] = 1", "t1[rec] = 2", "rec(t0.a.b)", "x = nil x.a = 1", "rec(size(3))", "rec(nil[1])" if False else "rec(s[1])", "foreach(t0)", "map(t0, 3)", "reduce(t0, rec)", "rec(clone())"]
    for _ in range(R.choice([8, 16, 30])):
        t = R.choice(T)
        w = R.random()
        if w < 0.4: out.append("%s[%s] = %s" % (t, key(), value()))
        elif w < 0.45: out.append("%s.%s = %s" % (t, R.choice(KEYS), value()))
        elif w < 0.6: out.append("rec(%s[%s], size(%s))" % (t, key(), t))
        elif w < 0.65: out.append("rec(%s)" % t)
        elif w < 0.69: out.append("foreach(%s, function(k,v) %s)" % (t, cb("rec(k,v)")))
        elif w < 0.73: out.append("rec(map(%s, function(k,v) %s))" % (t, cb("rec(k)", R.choice(["return k", "return v", "return 1", "return nil", "return {.k=k}", "if(isint(v)) { return v }", "if(isstring(k)) { return 1 }", "if(isint(v)) { if(v > 20) { return k } }"]))))
        elif w < 0.77: out.append("rec(filter(%s, function(k,v) %s))" % (t, cb("rec(k,v)", "return " + R.choice(["1", "0", "nil", "v", "k == 1", "isint(v)", "-1", "0.0", "0.5", "-0.25", '""', "{}"]))))
        elif w < 0.785: out.append("acc = {.n = 0} rec(reduce(%s, function(k,v,a) { a.n = a.n + 1 a[k] = 1 return %s }, acc)) rec(acc)" % (t, R.choice(["a", "a", "clone(a)", "{.n = a.n}"])))
        elif w < 0.80: out.append("rec(reduce(%s, function(k,v,a) %s, %s))" % (t, cb("rec(k,a)", "return " + R.choice(["a + 1", "k", "v", "a"])), R.choice(["0", "nil", "{}", "2.5"])))
        elif w < 0.85:
            n = R.choice(T); out.append("%s = clone(%s)" % (n, t))
        elif w < 0.88: out.append("%s = %s" % (R.choice(T), t))
        elif w < 0.91:
            lo, n, st = R.choice([0, -5, 100]), R.choice([5, 20, 40, 60]), R.choice([1, 7, 10, 64])
            out.append("for(j = 0, j < %d, j = j + 1) { %s[%d + j * %d] = %s }" % (n, t, lo, st, R.choice(["j", "j * j", "nil", '"x"'])))
        elif w < 0.913: out.append("for(j = 0, j < %d, j = j + 1) { %s[%s + j * %s] = %s }" % (R.choice([4, 9]), t, R.choice(["0.0", "1.5", "100.5", "-2.5"]), R.choice(["0.001", "0.0001", "0.0625", "0.00001"]), R.choice(["j", "j", "nil"])))
        elif w < 0.92: out.append("for(j = 0, j < %d, j = j + 1) { %s[j + 0.5] = j  %s[string.tostring(j + 0.5)] = -j  %s[j * 2.0] = %s }" % (R.choice([3, 12]), t, t, t, R.choice(["j", "nil"])))
        elif w < 0.93: out.append("for(j = 0, j < %d, j = j + 1) { %s[string.concat(\"k\", string.tostring(j))] = j }" % (R.choice([3, 20]), t))
        elif w < 0.96: out.append("%s.f = function(x) { self.n = x return size(self) } rec(%s.f(%d), %s.n)" % (t, t, R.randint(0, 9), t))
        elif w < 0.985: out.append("%s.sub = {} %s.sub[%s] = %s rec(%s.sub)" % (t, t, key(), value(), t))
        else: out.append(R.choice(bad)); break
    out.append("rec(t0) rec(t1) rec(t2)")
    return LangScen(sid, "\n".join(out) + "\n")

# ---------------------------------------------------------------- neighbours (P20)
NBR = """function each() { neighbors.foreach(function(k,v) { rec(k, v.distance, v.azimuth, v.elevation) }) return neighbors.count() }
function one(i) { return neighbors.get(i) }
function dist(i) { return neighbors.get(i).distance }
function mapped() { m = neighbors.map(function(k,v) { rec(k, v.distance) return v.distance * 2.0 }) rec(m.count()) m.foreach(function(k,v) { rec(k,v) }) return neighbors.count() }
function near(d) { var f = neighbors.filter(function(k,v) { rec(k, v.distance) return v.distance < d }) rec(f.count()) f.foreach(function(k,v) { rec(k,v) }) return f.get(2) }
function total() { return neighbors.reduce(function(k,v,a) { rec(k,a) return a + v.distance }, 0.0) }
function twice() { var f = neighbors.filter(function(k,v) { rec(k) return k > 1 }) var g = f.map(function(k,v) { rec(k) return {.id = k, .d = v.distance} }) rec(g.get(2), g.get(3)) return g.reduce(function(k,v,a) { rec(k,v) return a + 1 }, 0) }
function deep() { return neighbors.filter(function(k,v) { rec(k) return v.elevation > 0.25 }).filter(function(k,v) { rec(k) return v.azimuth < 1.0 }).map(function(k,v) { rec(k) return k }).count() }
function keep() { kept = neighbors.filter(function(k,v) { rec(k) return 1 }) return kept.count() }
function again() { kept.foreach(function(k,v) { rec(k, v.distance) }) return kept.get(3) }
function spoil(i) { neighbors.get(i).distance = 9.5 return neighbors.get(i).distance }
function bad(i) { return R }
function odd(w) { var f = neighbors.filter(function(k,v) { rec(k) if(w == 0) { return 0.0 } if(w == 1) { return 0.25 } if(w == 2) { return "" } if(w == 3) { return -1 } if(w == 4) { return v } if(w == 5) { return nil } if(w == 6) { return k - 2 } return -0.5 }) rec(f.count()) f.foreach(function(k,v) { rec(k,v) }) return f.count() }
function tagged() { var m = neighbors.map(function(k,v) { v.seen = k var r = {.d = v.distance, .old = v} return r }) m.foreach(function(k,v) { rec(k,v) v.d = 77 }) neighbors.foreach(function(k,v) { rec(k,v) }) return m.count() }
function fresh() { var m = neighbors.map(function(k,v) { return {.d = v.distance} }) m.foreach(function(k,v) { v.distance = 3 rec(k,v) }) neighbors.foreach(function(k,v) { rec(k,v) }) m = neighbors.filter(function(k,v) { return 1 }) m.foreach(function(k,v) { v.x = k }) neighbors.foreach(function(k,v) { rec(k,v) }) }
function some(w) { var m = neighbors.map(function(k,v) { rec(k) if(k == w) { return nil } if(v.distance < 1.0) { return 0 } return k }) rec(m.count(), m.get(w)) m.foreach(function(k,v) { rec(k,v) }) var n = m.filter(function(k,v) { rec(k,v) return k > 1 }) rec(n.count(), n.get(w)) n = m.map(function(k,v) { rec(k,v) return v }) rec(n.count(), neighbors.count()) return m.reduce(function(k,v,a) { rec(k,v,a) return v }, 5) }
function first(i) { return neighbors.reduce(function(k,v,a) { rec(k,a) if(a == nil) { return v } if(a.distance < v.distance) { return a } return v }, nil) }
function collect() { var acc = {} var r = neighbors.reduce(function(k,v,a) { a[size(a)] = k return a }, acc) rec(size(acc)) return size(r) }
function hear2(x) { neighbors.listen("u", function(t,v,r) { rec("u", t, v, r, x) }) }
function hear(x) { neighbors.listen("t", function(t,v,r) { rec("heard", t, v, r, x) rec(neighbors.get(r)) }) }
function mute() { neighbors.ignore("t") }
neighbors.listen("t", function(t,v,r) { rec("first", t, v, r) })
neighbors.listen("w", function(t,v,r) { rec("w", t, v, r) })
kept = neighbors
"""
BADN = ["neighbors.get()", 'neighbors.get("a")', "neighbors.foreach(3)", "neighbors.map()", "neighbors.reduce(rec)", "neighbors.count(1)", "neighbors.filter(nil)", "neighbors.get(2.5)"]
def gen_nbr(sid, R, **kw):
    ev = [("call", "each", [])]          # the host fills in neighbours once the machine is running
    ids = R.choice([[1, 2, 3], [2, 3, 5, 40], [1, 2, 3, 32767, 32768, 40000, 65535], list(range(1, 30))])
    fns = ["each", "mapped", "total", "twice", "deep", "keep", "again", "tagged", "fresh", "collect", "each"]
    for _ in range(R.choice([6, 12, 24])):
        w = R.random()
        if w < 0.12: ev.append(("nbrreset",))
        elif w < 0.2: ev.append(("msg", R.choice(ids), R.choice(["t", "t", "u", "w"]), ["i", R.randint(0, 9)]))
        elif w < 0.24: ev.append(R.choice([("call", "hear", [["i", R.randint(0, 9)]]), ("call", "hear", [["i", 7]]), ("call", "hear2", [["i", 8]]), ("call", "mute", [])]))
        elif w < 0.57: ev.append(("nbradd", R.choice(ids), R.choice([0, 16, 32, 64, 100, 640, 64000]), R.choice([-64, 0, 32, 128, 300, -420]), R.choice([-32, 0, 16, 64, 170, -100])))
        elif w < 0.75: ev.append(("call", R.choice(fns), []))
        elif w < 0.81: ev.append(("call", "one", [["i", R.choice(ids + [0, 77])]]))
        elif w < 0.84: ev.append(("call", "first", [["i", 0]]))
        elif w < 0.87: ev.append(("call", "some", [["i", R.choice(ids)]]))
        elif w < 0.91: ev.append(("call", "odd", [["i", R.randint(0, 7)]]))
        elif w < 0.95: ev.append(("call", "near", [["f", fbits(R.choice([0.5, 1.0, 5.0, 100.0]))]]))
        elif w < 0.98: ev.append(("call", "spoil", [["i", R.choice(ids)]]))
        else: ev.append(("call", "bad", [["i", 1]]))
    return LangScen(sid, NBR.replace("return R }", "return %s }" % R.choice(BADN)), events=ev)

# ---------------------------------------------------------------- every short token sequence (LangGen.tla)
KIND = {"and": "andor", "or": "andor", "+": "sign", "-": "sign", "*": "muldiv", "/": "muldiv", "&": "bits", "|": "bits", "<<": "shift", ">>": "shift", ";": "end", "\n": "end",
        "==": "cmp", "!=": "cmp", "<": "cmp", "<=": "cmp", ">": "cmp", ">=": "cmp"}
def kind(t):
    if t in KIND: return [KIND[t], "" if KIND[t] == "end" else t]
    if t[0].isdigit(): return ["num", t]
    if t[0] in "'\"": return ["str", t[1:-1]]
    if t in ("var", "if", "else", "function", "return", "for", "while", "nil", "not"): return [t, t]
    if t[0].isalpha(): return ["id", t]
    return [t, t]
def model_tokens(ctx, name, pre, alpha, post, depth, limit, whole=False, expr=False, head="", tail="\n", nums=None):
    """the token sequences LangGen finds, as programs"""
    conf = {"pre": [kind(t) for t in pre], "post": [kind(t) for t in post], "alphabet": [kind(t) for t in alpha], "depth": depth, "whole": whole, "expr": expr}
    fn = workfile("langgen-%s.json" % name, json.dumps(conf))
    rc, out = tlc("LangGen", "LangGen.cfg", env={"GEN": fn}, workers=1, timeout=max(60, min(900, ctx.left())), heap="6g")
    if rc != 0 or "No error has been found" not in out:
        i = out.find("Error:")
        raise CheckError("model %s: rc %d\n%s" % (name, rc, out[max(0, i):i + 3000]))
    g, d = tlc_stats(out); ctx.states += d; ctx.transitions += g
    hs = sorted({tuple(int(x) for x in m.group(1).split(", ")) for m in re.finditer(r'<<\s*"H",\s*"<<([\d,\s]*)>>"\s*>>', out)})
    tot = len(hs)
    R = ctx.rng("tokens", name)
    if len(hs) > limit: hs = R.sample(hs, limit)
    ctx.cov.setdefault("models", {})[name] = {"generated": g, "distinct": d, "depth": depth, "sequences": tot, "compiled": len(hs)}
    out = []
    for j, h in enumerate(hs):
        ts = list(pre) + [alpha[i - 1] for i in h] + list(post)
        if nums:
            k = 0
            for i, t in enumerate(ts):
                if t[0].isdigit() and len(pre) <= i < len(ts) - len(post): ts[i] = nums[k % len(nums)]; k += 1
        out.append(LangScen("%s.%d" % (name, j), head + join(R, ts, R.choice(["plain", "tight", "lines"])) + tail))
    return out
def model_exprs(ctx, depth, limit):
    """every expression: three or four operands, every operator, every sign and negation that fits"""
    out = []
    for j, ns in enumerate((["7", "3", "2", "5"], ["1", "0", "6", "2.5"])):
        out += model_tokens(ctx, "expr%d" % j, ["rec", "("], ["7", "(", ")", "-", "+", "*", "/", "%", "^", "&", "<<", "<", "==", "and", "or", "not", "!"], [")"], depth, limit, True, True, nums=ns)
    return out
def model_refs(ctx, depth, limit):
    """every reference: fields, indices, calls, methods"""
    return model_tokens(ctx, "refs", ["rec", "("], ["t", "f", "a", "1", ".", "[", "]", "(", ")", ","], [")"], depth, limit, True, False,
                        head='t = {.a = {.a = 2, .t = 5}, .1 = 4, .f = function(x) { return self.a } }\nfunction f(x) { rec("f", x) return t }\na = "f"\n')
def model_stats(ctx, depth, limit):
    """every statement shape"""
    return model_tokens(ctx, "stats", [], ["x", "rec", "1", "=", "(", ")", "{", "}", "if", "else", "while", "var", "function", "return", ";", ",", "."], [], depth, limit)

# ---------------------------------------------------------------- collections (P14)
class GcScen(LangScen):
    """the same program and calls on two machines, one of them collecting at every period-th step; live objects counted after each event.
    keep: from which event on equal states must mean equal counts"""
    def __init__(self, sid, files, period, events=(), keep=99, **kw):
        LangScen.__init__(self, sid, files, events=events, **kw)
        self.period, self.keepfrom = period, keep
    def scenario(self):
        sid, ls = LangScen.scenario(self)
        out = []
        for r, k in ((1, 0), (2, self.period)):
            out.append("gcmode %d" % k)
            for l in ls:
                w = l.split(" "); w[1] = str(r)
                if w[0] == "prog": w[3] += str(r)
                out += [" ".join(w), "heap %d" % r]
        return (sid, out)
    def describe(self): return dict(LangScen.describe(self), period=self.period)
    def trace(self, res):
        if res.end != "ok": return None, "ended with %s %s with a collection every %d steps on\n%s" % (res.end, res.err, self.period, self.text())
        n = len(res.out) // 2
        a, b = res.out[1:n], res.out[n + 1:]
        # a message is two lines: delivered, processed
        a, b = [sum([q[i:i + 2] for i in range(0, len(q), 2) if q[i]["op"] != "feed"], []) for q in (a, b)]
        class Half: pass
        h = Half(); h.end = "ok"; h.out = b[0::2]
        t, p = LangScen.trace(self, h)
        if t is None or p: return t, p
        ev = []
        for i, e in enumerate(t["ev"]):
            ev.append(e)
            x, y = a[2 * i + 1], b[2 * i + 1]
            ev.append({"e": "heap", "n": [y["n"], y["strs"]], "n0": [x["n"], x["strs"]], "keep": i >= self.keepfrom})
        t["ev"] = ev
        return t, None
def gen_gc(sid, R, **kw):
    s = gen_prog(sid, R, **kw)
    ev = s.events
    return GcScen(sid, s.files, R.choice([1, 1, 2, 3, 7]), events=ev)
def gen_gctable(sid, R, **kw):
    s = gen_table(sid, R)
    return GcScen(sid, s.files, R.choice([1, 1, 2, 5]))
def gen_gcnbr(sid, R, **kw):
    s = gen_nbr(sid, R)
    return GcScen(sid, s.files, R.choice([1, 1, 2, 5]), events=s.events)
def gen_gcmsg(sid, R, **kw):
    """messages come and go: what they brought must go too, unless it was kept"""
    keep = R.choice(["", "last = v", "if(size(all) < 3) { all[size(all)] = v }", "all = {.v = v, .from = r}"])
    text = "last = nil\nall = {}\nneighbors.listen(\"t\", function(t,v,r) { rec(t,v,r) %s })\nneighbors.listen(\"u\", function(t,v,r) { var s = string.concat(v, \"-\", v) rec(s) })\nfunction nop() {}\n" % keep
    def val(j): return R.choice([["s", "m%d" % j], ["s", "m%d" % j], ["i", j]])
    ev = [("call", "nop", [])]
    same = val(0)
    for j in range(R.choice([6, 12])):
        t = R.choice(["t", "t", "u", "nobody%d" % j])
        ev.append(("msg", R.choice([2, 3]), t, ["s", "u%d" % j] if t == "u" else R.choice([val(j), same])))
    return GcScen(sid, text, R.choice([1, 2, 3]), events=ev, keep=1)
def gen_gccalls(sid, R, **kw):
    """one function of a program called over and over: garbage must not pile up"""
    s = gen_prog(sid, R, size=8, calls=False, split=False, wrong=0.0)
    m = re.findall(r"function (f\d+)\s*\(([^)]*)\)", s.files["main.bzz"])
    if not m: return gen_gc(sid, R)
    f, ps = R.choice(m)
    a = len([p for p in ps.split(",") if p.strip()])
    args = [["i", R.randint(0, 9)] for _ in range(a)]
    return GcScen(sid, s.files, R.choice([1, 2, 3]), events=[("call", f, args)] * 9, keep=6)
def model_deep(ctx, depth, limit):
    """deeper expressions over fewer operators"""
    return model_tokens(ctx, "deep", ["rec", "("], ["7", "-", "*", "^", "<", "and", "not"], [")"], depth, limit, True, True, nums=["2", "3", "1", "5"])
BINOPS = ["+", "-", "*", "/", "%", "^", "&", "|", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "and", "or"]
def all_pairs(R):
    """every two binary operators one after the other, and with each sign or negation in front of each operand"""
    out = []
    for a in BINOPS:
        for b in BINOPS:
            for j, ns in enumerate((["1", "2", "3"], ["64", "2", "1"])):
                n = list(ns)
                if j: i = R.randrange(3); n[i] = R.choice(["-", "!", "not ", "- -", "+"]) + n[i]
                out.append(LangScen("pair-%s-%s-%d" % (a, b, j), "rec(%s %s %s %s %s)\n" % (n[0], a, n[1], b, n[2])))
    return out
def gen_chain(sid, R, **kw):
    """long expressions, of one kind of operator or of several, bracketed here and there"""
    out = []
    for _ in range(4):
        ops = R.choice([["<<", ">>"], ["<<", ">>", "+", "-"], ["&", "|"], ["&", "|", "<<"], ["*", "/", "%"], ["+", "-"], ["+", "-", "*", "<", "=="], ["<", "<=", "==", "!="], ["and", "or"], ["and", "or", "==", "<"], ["^", "*", "-"], ["^"], ["+", "<<", "<", "and", "&"]])
        def e(d):
            t = ""
            for i in range(R.randint(2, 5)):
                if i: t += " %s " % R.choice(ops)
                x = R.random()
                t += "(%s)" % e(d - 1) if d and x < 0.2 else (R.choice(["-", "-", "!", "not "]) if x > 0.93 else "") + R.choice(["0", "1", "2", "3", "1", "2"] + ([] if "^" in ops else ["5", "64", "7"]))
            return t
        out.append("rec(%s)" % e(2))
    return LangScen(sid, "\n".join(out) + "\n")
def model_heads(ctx, depth, limit):
    """for loops, functions and literals, one token beyond what can continue them"""
    per = limit // 5
    return (model_tokens(ctx, "for", ["for", "("], ["x", "1", "=", "(", ")", "{", "}", ",", "<", "rec"], [], depth + 1, per)
            + model_tokens(ctx, "fun", ["function", "f"], ["x", "(", ")", "{", "}", ",", '"d"', "return", "1", ";"], [], depth + 2, per)
            + model_tokens(ctx, "tab", ["x", "=", "{"], ["x", "1", ".", "=", "{", "}", ",", "rec"], [], depth + 1, per)
            + model_tokens(ctx, "lam", ["x", "=", "function"], ["x", "(", ")", "{", "}", ",", "return", "1", "var"], [], depth + 2, per)
            + model_tokens(ctx, "if", ["if", "("], ["x", "1", "(", ")", "{", "}", "else", "=", ";", "rec"], [], depth + 2, per))

# ---------------------------------------------------------------- scopes and closures
def gen_scope(sid, R, **kw):
    """declarations in nested blocks, functions and lambdas over a handful of names: what is local, what is global, what was captured"""
    N = ["a", "b", "c"] if R.random() < 0.6 else ["a", "b", "c", "d", "e", "g", "k", "m"]
    many = len(N) > 3
    no = [0]
    loops = [0]
    def expr():
        w = R.random()
        return R.choice(N) if w < 0.5 else str(R.randint(0, 9)) if w < 0.8 else "%s + %d" % (R.choice(N), R.randint(1, 3)) if w < 0.95 else "nil"
    def recs(): return "rec(%s)" % ", ".join(N[:R.randint(1, 3)])
    def lam(d, vis):
        ps = R.sample(N + ["x"], R.randint(0, 2))
        b = block(d - 1, vis | set(ps) | {"self"}, True)
        return "function(%s) %s" % (", ".join(ps), b), len(ps)
    def block(d, vis, fun):
        """vis: locals in sight, None at the top level"""
        vis = set(vis or ()) | {"self"}
        out = []
        for _ in range(R.randint(0, 7 if many else 4)):
            s, v = stat(d, vis, fun)
            out.append(s); vis |= v
        if fun and R.random() < 0.5: out.append("return %s" % expr())
        return "{ %s }" % R.choice([" ", "\n", "; "]).join(out)
    def stat(d, vis, fun):
        w = R.random()
        if many and w < 0.4 and R.random() < 0.6: w = 0.5
        if w < 0.2: return recs(), set()
        if w < 0.4: return "%s = %s" % (R.choice(N), expr()), set()
        if w < 0.6:
            n = R.choice(N)
            if n in (vis or ()) and R.random() < 0.93:
                free = [x for x in N if x not in vis]
                if not free: return recs(), set()
                n = R.choice(free)
            return "var %s%s" % (n, R.choice(["", " = " + expr(), " = " + expr()])), ({n} if vis is not None else set())
        if d <= 0: return recs(), set()
        if w < 0.7: return "if(%s) %s%s" % (R.choice(["1", "0", "nil", expr()]), body(d, vis, fun), R.choice(["", " else " + body(d, vis, fun)])), set()
        if w < 0.76 and loops[0] < 1:
            loops[0] += 1
            no[0] += 1; i = "i%d" % no[0]
            s = "for(%s = 0, %s < %d, %s = %s + 1) %s" % (i, i, R.randint(1, 3), i, i, body(d, vis, fun))
            loops[0] -= 1
            return s, set()
        no[0] += 1; h = "h%d" % no[0]
        l, k = lam(d, vis or set())
        loc = vis is not None and R.random() < 0.6
        args = ", ".join(expr() for _ in range(k))
        if R.random() < 0.3: return "%s = {.m = %s} rec(%s.m(%s))" % (h, l, h, args), set()
        return "%s%s = %s %s" % ("var " if loc else "", h, l, R.choice(["rec(%s(%s))" % (h, args), "%s(%s) %s(%s)" % (h, args, h, args), "%s = 7 rec(%s(%s))" % (R.choice(N), h, args)])), ({h} if loc else set())
    def body(d, vis, fun): return block(d - 1, vis, fun) if R.random() < 0.75 else R.choice([recs(), "%s = %s" % (R.choice(N), expr())])
    out = ["a = 1", "b = 2"]
    ev = []
    for j in range(R.randint(2, 6)):
        if R.random() < 0.4:
            ps = R.sample(N + ["x"], R.randint(0, 2))
            out.append("function f%d(%s) %s" % (j, ", ".join(ps), block(3, set(ps), True)))
            ev.append(("call", "f%d" % j, [["i", R.randint(0, 9)] for _ in ps]))
        else: out.append(stat(3, None, False)[0])
    out.append(recs())
    return LangScen(sid, "\n".join(out) + "\n", events=R.sample(ev, min(len(ev), 2)) + ([R.choice(ev)] if ev else []))

def gen_blocks(sid, R, **kw):
    """functions with many variables, declared in blocks that come and go, and lambdas made at every point: each variable and parameter is the one meant"""
    no = [0]
    def fresh(p="v"): no[0] += 1; return "%s%d" % (p, no[0])
    def use(vis): return "rec(%s)" % ", ".join(R.sample(vis, min(len(vis), R.randint(1, 4)))) if vis else "rec(0)"
    def lam(vis, d):
        ps = [fresh("p") for _ in range(R.randint(0, 3))]
        b = body(vis + ps, d - 1, R.randint(0, 3))
        f = "function(%s) { %s %s return %s }" % (", ".join(ps), use(vis + ps), b, " + ".join(ps + [str(R.randint(0, 9))]))
        if R.random() < 0.3: return "g0 = %s rec(g0(%s))" % (f, ", ".join(str(R.randint(10, 99)) for _ in ps)), None
        h = fresh("h")
        return "var %s = %s rec(%s(%s))" % (h, f, h, ", ".join(str(R.randint(10, 99)) for _ in ps)), h
    def body(vis, d, n):
        vis = list(vis); out = []; fs = []
        for _ in range(n):
            w = R.random()
            if w < 0.45:
                v = fresh(); out.append("var %s%s" % (v, R.choice([" = %d" % R.randint(100, 999), " = %d" % R.randint(100, 999), ""]))); vis.append(v)
            elif w < 0.55 and vis: out.append("%s = %d" % (R.choice(vis), R.randint(1000, 1999)))
            elif w < 0.65: out.append(use(vis))
            elif w < 0.82 and d > 0:
                k = R.choice(["if", "if", "else", "for", "while"])
                b = body(vis, d - 1, R.randint(1, 6))
                if k == "if": out.append("if(1) { %s }" % b)
                elif k == "else": out.append("if(0) { %s } else { %s }" % (body(vis, 0, R.randint(0, 3)), b))
                else:
                    i = fresh("i")
                    out.append("for(%s = 0, %s < 2, %s = %s + 1) { %s }" % (i, i, i, i, b) if k == "for" else "%s = 0 while(%s < 2) { %s = %s + 1 %s }" % (i, i, i, i, b))
            elif d > 0:
                t, h = lam(vis, d); out.append(t)
                if h: vis.append(h); fs.append(h)
        vis = [v for v in vis if v not in fs]
        out.append(use(vis))
        return "\n".join(out)
    ps = ["a", "b"][:R.randint(0, 2)]
    pre = [fresh() for _ in range(R.choice([0, 2, 5, 18]))]
    b = " ".join("var %s = %d" % (v, R.randint(100, 999)) for v in pre)
    t = "function f(%s) {\n%s\n%s\n}\n" % (", ".join(ps), b, body(ps + pre, 3, R.randint(3, 9)))
    return LangScen(sid, t + "rec(f(%s))\n" % ", ".join("7" for _ in ps))

BIG = ["strings", "locals", "params", "functions", "lambdas", "parens", "blocks", "elses", "args", "literal", "depth", "mutual", "long", "sum", "nest", "loop", "keys", "index", "chars", "files"]
def gen_big(sid, R, what=None, **kw):
    """one dimension of a script at a time, large"""
    k = lambda a, b: R.randint(a, b)
    files = {}
    ev = []
    if what == "strings":
        n = k(260, 320)
        t = "".join('g%d = "s%d"\n' % (i, i * 7) for i in range(n)) + "".join("rec(%s)\n" % ", ".join("g%d" % R.randrange(n) for _ in range(8)) for _ in range(6)) + 'rec(g%d == "s%d", g0, g255, g256, g257)\n' % (n - 1, 7 * n - 7)
    elif what in ("locals", "params"):
        n = k(105, 140) if what == "locals" else k(20, 40)
        vs = ["v%d" % i for i in range(n)]
        b = "".join("var %s = %d\n" % (v, i * 3 + 1) for i, v in enumerate(vs)) if what == "locals" else ""
        use = lambda: "rec(%s)\n" % ", ".join(R.sample(vs, 6))
        l = "var h = function(p, q) { %s v1 = p + q return v1 + %s }\nrec(h(5, 6), h(7, 8), v1)\n" % (use(), vs[-1])
        t = "function f(%s) {\n%s%s%s%s return %s }\nrec(f(%s))\n" % ("" if what == "locals" else ", ".join(vs), b, use(), l, use(), vs[n // 2], "" if what == "locals" else ", ".join(str(i * 5) for i in range(n)))
    elif what == "functions":
        n = k(110, 150)
        o = list(range(n)); R.shuffle(o)
        t = "".join("function f%d(x) { return x + %d }\n" % (i, i) for i in o) + "".join("rec(%s)\n" % ", ".join("f%d(%d)" % (R.randrange(n), k(0, 9)) for _ in range(6)) for _ in range(8))
    elif what == "lambdas":
        n = k(60, 90)
        t = "t = {}\n" + "".join("t[%d] = function(x) { return x * %d }\n" % (i, i) for i in range(n)) + "for(i = 0, i < %d, i = i + 1) { rec(i, t[i](i + 1)) }\n" % n
    elif what == "parens":
        e = "x"
        for _ in range(k(60, 90)): e = R.choice(["(%s)", "(%s + 1)", "(1 + %s)", "-(%s)", "(0 - %s)"]) % e
        t = "x = 3\nrec(%s)\n" % e
    elif what == "blocks":
        n = k(30, 45); t = "x = 0\nfunction f() {\n" + "".join("if(%s) { var a%d = %d\n" % (R.choice(["1", "x == x", "not 0"]), i, i) for i in range(n))
        t += "rec(%s)\n" % ", ".join("a%d" % R.randrange(n) for _ in range(6)) + "}\n" * n + "rec(x) }\nf()\n"
    elif what == "elses":
        n = k(40, 60); t = "function f(x) {\n" + " else ".join("if(x == %d) { rec(%d) return %d }\n" % (i, i, i * i) for i in range(n)) + "\nreturn -1 }\n" + "rec(f(0), f(1), f(%d), f(%d), f(%d))\n" % (n // 2, n - 1, n)
    elif what == "args":
        n = k(30, 60); t = "function f(%s) { rec(%s) return p%d }\nrec(f(%s))\nrec(%s)\n" % (", ".join("p%d" % i for i in range(n)), ", ".join("p%d" % i for i in reversed(range(n))), n - 1, ", ".join(str(i) for i in range(n)), ", ".join("f(%s)" % ", ".join(str(i + j) for i in range(n)) for j in (1, 2)))
    elif what == "literal":
        n = k(100, 150); t = "t = {%s}\nrec(size(t), t)\n" % ", ".join(".k%d = %d" % (i, i) if i % 3 else ".%d = %d" % (i, i) for i in range(n))
    elif what == "depth":
        n = k(120, 200); t = "function s(n, a) { var b = n * 2 if(n == 0) { return a } var r = s(n - 1, a + n) if(b != n * 2) { rec(n, b) } return r + 1 }\nrec(s(%d, 0), s(3, 4))\n" % n
    elif what == "mutual":
        t = "function ev(n) { if(n == 0) { return 1 } return od(n - 1) }\nfunction od(n) { if(n == 0) { return 0 } return ev(n - 1) }\nrec(ev(%d), od(%d), ev(7))\n" % (k(60, 150), k(60, 150))
    elif what == "long":
        w = "w" * k(300, 600); q = "".join(R.choice("abc xyz#'") for _ in range(k(1500, 4000)))
        t = '%s = "%s"\n%s2 = 5\nrec(%s, %s2, string.length(%s), string.sub(%s, 1000, 1010))\n' % (w, q, w, w, w, w, w)
    elif what == "sum":
        t = "x = 2\nrec(%s)\n" % " ".join(["x"] + ["%s %s" % (R.choice("+-*+-"), R.choice(["x", "1", "3", "(x - 1)"])) if i % 9 else "- 4" for i in range(k(120, 200))]).replace("* x * x", "+ x")
    elif what == "nest":
        n = k(9, 14)
        t = "function f(v0) { return " + "".join("function(v%d) { rec(%s) return " % (i, ", ".join("v%d" % j for j in range(i))) for i in range(1, n)) + "v0 + v%d" % (n - 1) + " }" * (n - 1) + " }\nx = f(100)\n" + "".join("x = x(%d)\n" % (100 + i) for i in range(1, n)) + "rec(x)\n"
    elif what == "loop":
        t = "x = 0\ni = 0\nwhile(i < %d) { i = i + 1 if(i %% 3 == 0) { x = x + i } else { x = x - 1 } var y = x }\nrec(x, i)\nfor(j = 0, j < %d, j = j + 1) { for(k = 0, k < 12, k = k + 1) { x = x + j * k } }\nrec(x, j, k)\n" % (k(300, 600), k(10, 30))
    elif what == "keys":
        n = k(150, 300); t = "t = {}\nfor(i = 0, i < %d, i = i + 1) { t[i] = i t[string.concat(\"a\", string.tostring(i))] = i * 2 }\nrec(size(t), t[%d], t.a%d, t[%d], t.a%d)\n" % (n, n - 1, n - 1, n, n)
        t += "for(i = 0, i < %d, i = i + 2) { t[i] = nil }\nrec(size(t), t[0], t[1], t[2], t.a0, t.a2)\nx = 0\nforeach(t, function(k, v) { x = x + v })\nrec(x, size(clone(t)), size(map(t, function(k, v) { return 1 })), reduce(t, function(k, v, a) { return a + 1 }, 0))\n" % n
    elif what == "index":
        n = k(30, 60); t = "t = {}\nt.a = t\nt.v = 7\nt.f = function() { return self }\nrec(t%s.v)\nrec(t%s.v)\nt%s.v = 8\nrec(t.v)\n" % (".a" * n, "".join(R.choice([".a", '["a"]', ".f()"]) for _ in range(n)), ".a" * n)
    elif what == "chars":
        t = "".join("rec(%s)\n" % ('"' + "".join(chr(c) for c in range(a, min(a + 24, 127)) if chr(c) not in '"\\') + '"') for a in range(32, 127, 24)) + "# " + "c" * 2000 + "\nrec(1) # " + "d" * 500 + "\n" + "\n" * k(100, 300) + " " * 300 + "rec(2)\n"
    else:
        n = k(12, 20); t = "".join('include "f%d.bzz"\n' % i for i in range(n)) + "rec(%s)\n" % ", ".join("h%d(1)" % i for i in range(n))
        for i in range(n): files["f%d.bzz" % i] = 'include "f%d.bzz"\nx%d = %d\nfunction h%d(a) { return a + x%d }\nrec("f%d")\n' % (R.randrange(n), i, i, i, i, i)
    files["main.bzz"] = t
    return LangScen(sid, files, events=ev)

# ---------------------------------------------------------------- literals and layout
def gen_lex(sid, R, **kw):
    out = []
    for _ in range(R.randint(1, 6)):
        w = R.random()
        if w < 0.3:
            q = R.choice("'\"")
            t = "".join(R.choice(["a", "Z", "0", " ", "\\n", "\\t", "\\\\", "\\'", '\\"', "\\q", "#", ";", "{", "}", "\n", "'" if q == '"' else '"', ",", "\t", "include", "%", "%s", "@"]) for _ in range(R.randint(0, 8)))
            out.append("rec(%s)" % (q + t + q))
        elif w < 0.5:
            out.append("rec(%s)" % R.choice(["%d" % R.choice([0, 7, 10, 255, 65535, 65536, 1000000, 16777216, 16777217, 2147483647, R.randint(0, 2147483647), R.randint(0, 99999)]),
                                             "%d.%s" % (R.randint(0, 999), "".join(R.choice("0123456789") for _ in range(R.randint(1, 5)))), "%d." % R.randint(0, 99), "00%d" % R.randint(0, 99),
                                             "-%d" % R.randint(0, 99), "- %d.5" % R.randint(0, 9), "+%d" % R.randint(0, 9), "- -%d" % R.randint(0, 9)]))
        elif w < 0.7:
            n = R.choice(["x", "X1", "includes", "include_x", "iff", "elsewhere", "vary", "forx", "whiley", "nile", "nots", "andy", "orx", "returned", "functions", "a_b", "A", "x__", "self1"])
            out.append("%s = %d%s rec(%s)" % (n, R.randint(0, 99), R.choice(["", ";", "\n"]), n))
        elif w < 0.85:
            e = R.choice(["1<2", "1<=2", "1 <2", "5>>1", "1<<3", "3>2", "3>=3", "1==1", "1!=2", "(1<2)==1", "!0", "! 5", "1&3|4", "2*-3", "2- -3", "2-3", "7%-3", "-7%3", "2^-1", "-2^2", "4/2*3", "1<2 and 2<3", "not 1<2"])
            out.append("rec(%s)" % (e if R.random() < 0.6 else " ".join(re.findall(r"\d+|<<|>>|[<>=!]=|\w+|\S", e))))
        else: out.append(R.choice(["# just a comment", "#", "# rec(1)", "\t", "\r", "   ", ";", ";;", "#'\n", '# "unclosed\n', "rec(1) # after", "rec(#in the middle\n2)", "{", "@", "_x = 1", "x = .5", "1 = x", "rec(1..2)", "rec(1.2.3)", "'abc", "rec(1,)", "x == 1", "= 3"]
                               if R.random() < 0.35 else ["# just a comment", "#", ";", "rec(1) # after", "rec(#in\n2)", "\t", "# a\rrec(3) b", "rec(4) # \t c\r", "#\r", "# # rec(5)", "# \f rec(6)", "#\\", "# \\n rec(7)", "# 'x rec(8)"]))
    sep = R.choice(["\n", "\n", "\n\n", " \n\t", "\r\n"])
    text = sep.join(out)
    return LangScen(sid, text + R.choice(["", "\n", " ", " # end", "\n\n"]))
def gen_include(sid, R, **kw):
    """files that include each other"""
    names = ["main.bzz", "b.bzz", "c.bzz", "d.bzz"][:R.randint(2, 4)]
    if R.random() < 0.25: names[R.randrange(1, len(names))] = R.choice(["it's.bzz", 'a"b.bzz', "a b.bzz", "noext", "x.y.bzz", "#.bzz", "a,b.bzz", "a|b.bzz", "include", "b\\.bzz"])
    files = {}
    for j, n in enumerate(names):
        ls = ["rec(\"%s\")" % n]
        for _ in range(R.randint(1, 4)):
            w = R.random()
            if w < 0.45: ls.append(R.choice(['include "%s"', "include '%s'", "include\t\"%s\"", 'include"%s"', 'include "%s" rec(5)', 'rec(4) include "%s"']) % R.choice(names if R.random() < 0.95 else ["nofile.bzz"]))
            elif w < 0.6: ls.append("function f%d%d() { return %d }" % (j, R.randint(0, 2), R.randint(0, 9)))
            elif w < 0.75: ls.append("x = %d" % R.randint(0, 9))
            elif w < 0.85: ls.append("rec(x,\n y)")
            elif w < 0.9: ls.append("rec(f10())" if R.random() < 0.3 else "y = x")
            elif w < 0.95: ls.append("# include \"%s\"" % R.choice(names))
            elif w < 0.97: ls.append(R.choice(["x = ", "}", "rec(1", "@", "include", "function f( { }"]))
            else: ls.append("if(1) {\nrec(3)\n}")
        files[n] = R.choice(["\n", "\n", "\n\n"]).join(ls) + R.choice(["", "\n", "\n# end"])
    return LangScen(sid, files)

# ---------------------------------------------------------------- copies
def gen_clone(sid, R, **kw):
    """structures that are shared, nested, cyclic, copied and then changed on one side"""
    out = ["t = {.a = 1, .s = {.x = 1}}", "u = {.b = {.c = {.d = 4}}}", "v = {}"]
    V = ["t", "u", "v"]
    P = [".s", ".b", ".b.c", ".s.x", ".a", ".m", ""]
    paths = set()
    for _ in range(R.choice([6, 12, 18])):
        w = R.random()
        x, y = R.choice(V), R.choice(V)
        if w < 0.25: out.append("%s = clone(%s)" % (x, y))
        elif w < 0.4: out.append("%s.%s = clone(%s)" % (x, R.choice(["s", "m"]), y))
        elif w < 0.5: out.append("%s.%s = %s" % (x, R.choice(["s", "m", "self1"]), y))
        elif w < 0.65: out.append("%s.a = %d" % (x, R.randint(2, 9)))
        elif w < 0.75: out.append("if(istable(%s.s)) { %s.s.x = %d }" % (x, x, R.randint(2, 9)))
        elif w < 0.82: out.append("if(istable(%s.m)) { %s.m.%s = %s }" % (x, x, R.choice(["a", "k"]), R.choice(["1", "nil", '"z"', "{}"])))
        elif w < 0.9: out.append("%s.f = function() { return self.a } rec(%s.f())" % (x, x))
        elif w < 0.92: out.append(R.choice(["n = clone(math.abs) rec(n(-1))", "n = clone(size) rec(n(%s))" % x, "n = {.f = size} n = clone(n) rec(n.f(%s))" % x, "n = clone(string.length) rec(n(\"abc\"))",
            "function mk(x) { return function(y) { return x + y } } n = clone(mk(%d)) rec(n(1)) n = mk(2) rec(n(1))" % R.randint(3, 9), "n = clone(%s) n.f = function() { return self.a } rec(n.f())" % x]))
        elif w < 0.95: out.append("c%d = clone(%s) rec(c%d == %s)" % (R.randint(0, 1), R.choice(['"s"', "3", "2.5", "nil", "rec", "function() { return 1 }", x]), 0, R.choice(['"s"', "3", "nil"])))
        else: out.append("rec(%s == %s, %s.s == %s.s)" % (x, y, x, y))
        if R.random() < 0.4: out.append("rec(%s)" % R.choice(V))
    out.append("rec(t) rec(u) rec(v)")
    return LangScen(sid, "\n".join(out) + "\n")

EXTRA = "function f(a) { return function(x) { return x } }\nrec(f(1, 2)(5))\n"
def known_extra(ctx):
    """a listed finding: arguments beyond the declared ones displace the parameters of lambdas made inside"""
    s = LangScen("extra-arguments", EXTRA)
    r = run([s.scenario()], kind="asan")[s.sid]
    if r.end == "ok" and r.out[0]["rc"] == 0 and r.out[0]["log"] == [[["i", 5]]]: return
    if not ctx.known("extra-arguments-lambda"): ctx.violation("extra arguments displace a lambda's parameters", {"source": EXTRA, "end": r.end, "out": r.out})

# ---------------------------------------------------------------- files
FNAMES = ["fa", "fb", "fc"]
LINES = ["", "a", "line two", "12", "3.5", "x" * 150, "  lead", "trail ", "a,b", "%d %s", "q\"t", "#c", "{}", "nil", "-", "[nil]"]
def gen_file(sid, R, **kw):
    """scripts that open, read, write, measure and close files, properly and not"""
    data = {n: None if R.random() < 0.35 else "\n".join(R.choice(LINES) for _ in range(R.randint(0, 6))) + R.choice(["\n", "\n", "", "\n\n"]) for n in FNAMES}
    if R.random() < 0.06:                # long lines, many lines
        n = R.choice(FNAMES); k = R.choice([300, 1100, 4200, 9000]); data[n] = ("x" * k + "\n" + "last" + R.choice(["", "\n"])) if R.random() < 0.5 else "\n".join("line %d" % i for i in range(k // 30)) + "\n"
    ls, hs, no = [], {}, [0]             # hs: variable -> [name, mode, open]
    def lit():
        k = R.random()
        if k < 0.45: return '"%s"' % R.choice(["", "a", "b c", "12", "longer text", "%d%n", "x" * 90, "one\\ntwo", "tab\\t", "y" * R.choice([300, 1200])])
        if k < 0.6: return str(R.choice([0, 1, 7, 42, 100000, 2147483647]))
        if k < 0.7: return "-%d" % R.randint(1, 500)
        if k < 0.82: return R.choice(["1.5", "0.25", "-2.75", "3.0", "100.125", "12.5"])
        if k < 0.88: return "nil"
        if k < 0.95: return R.choice(["{}", "{.a=1}", "{.a=1, .b=2, .c=3}", "f0"])
        return R.choice(["i", "i", "s", "io.errno", "io.error_message", "string.concat(s, s)"])
    def err(): return R.choice(["rec(io.errno)", "rec(io.errno, io.error_message)", "rec(io.error_message)"])
    def some(pred=lambda h: True):
        v = [x for x in hs if pred(hs[x])]
        return R.choice(v) if v else None
    def cb(v):
        k = R.random()
        if k < 0.45: return "{ rec(l) }"
        if k < 0.55: return "{ i = i + 1 rec(i, l) }"
        if k < 0.62: return "{ i = i + string.length(l) rec(i) }"
        if k < 0.68: return "{ rec(l, io.fsize(%s)) return l }" % v
        if k < 0.74: return "{ t[i] = l i = i + 1 }"
        if k < 0.78: return "{ rec(l) io.fforeach(%s, function(m) { rec(\"in\", m) }) }" % v
        if k < 0.82: return "{ if(i > 2) { rec(\"enough\") io.fclose(%s) } else { i = i + 1 rec(l) } }" % v
        if k < 0.86: return "{ rec(l) if(i > 1) { nofun(l) } i = i + 1 }"
        if k < 0.9: return "{ rec(l) var m = l io.fopen(\"no/x\", \"r\") gcnow() rec(m) }"
        if k < 0.93: return "{ rec(l) var h = %s %s = nil gcnow() %s = h }" % (v, v, v)
        w = some(lambda h: h[2] and h[1] in ("w", "a"))
        return "{ io.fwrite(%s, l, \"!\") rec(io.errno) }" % w if w else "{ return { .l = l } }"
    def opens():
        v = R.choice(["f0", "f1", "f2"])
        if v in hs and hs[v][2] and R.random() < 0.8: return [close(v)]
        k = R.random()
        n = R.choice(FNAMES) if k < 0.9 else R.choice(["fd", "no/x", ""])
        m = R.choice(["r", "r", "w", "w", "a", "w+", "a+"]) if R.random() < 0.95 else R.choice(["z", "", "q+"])
        if R.random() < 0.93:
            busy = [h for h in hs.values() if h[2] and h[0] == n]
            if busy and (m != "r" or any(h[1] != "r" for h in busy)): return []
        out = ['%s = io.fopen(%s, "%s")' % (v, '"%s"' % n if R.random() < 0.8 else "string.concat(\"f\", \"%s\")" % n[1:] if n in FNAMES else '"%s"' % n, m), R.choice(["rec(type(%s), io.errno, io.error_message)" % v, "rec(%s, io.errno)" % v])]
        good = m in ("w", "a", "w+", "a+", "r") and n not in ("", "no/x") and not (m == "r" and (data.get(n) is None and not any(h[0] == n for h in hs.values())))
        if good: hs[v] = [n, m, True]; made.add(n)
        else: hs.pop(v, None)
        return out
    def close(v):
        hs[v][2] = False
        return "io.fclose(%s) %s" % (v, err())
    made = {n for n in FNAMES if data[n] is not None}
    def stat():
        k = R.random()
        v = some(lambda h: h[2])
        if v is None or k < 0.2: return opens()
        if k < 0.25: v = some() or v
        if k < 0.55:
            w = some(lambda h: h[2] and h[1] != "r") or v
            if R.random() < 0.06: w = v
            return ["io.fwrite(%s, %s)" % (w, ", ".join(lit() for _ in range(R.choice([1, 1, 2, 3, 5]))))] + ([err()] if R.random() < 0.5 else [])
        if k < 0.67: return ["rec(io.fsize(%s))" % v]
        if k < 0.88:
            w = some(lambda h: h[2] and h[1] not in ("w", "a")) or v
            if R.random() < 0.06: w = v
            return (["rec(io.fsize(%s))" % w] if hs[w][1] == "w+" and R.random() < 0.7 else []) + ["i = 0", "io.fforeach(%s, function(l) %s)" % (w, cb(w)), err()]
        if k < 0.96: return [close(v)]
        return [R.choice(["io.fclose(%s)" % v, "io.fsize({})", "io.fclose(nil)", "io.fclose({ .handle = 3 })", "io.fwrite(%s)" % v, "io.fwrite()", "io.fforeach(%s, 3)" % v, "io.fforeach(%s)" % v,
                          "io.fopen(3, \"r\")", "io.fopen(\"fa\")", "io.fopen(\"fa\", nil)", "rec(type(%s.handle), isuserdata(%s.handle), isuserdata(1), %s.name)" % (v, v, v), "t = { .handle = %s.handle } rec(io.fsize(t))" % v,
                          "rec(clone(%s))" % v, "io.fsize(%s, 1)" % v, "io.fsize(\"fa\")", "foreach(%s, function(k, x) { rec(k) })" % v, "rec(size(%s), size(io))" % v, err()])]
    head = ["i = 0", 's = "word"', "g = function(x) { return x }", "t = {}"]
    for _ in range(R.randint(4, 16)): ls += stat()
    ev = []
    if R.random() < 0.5:
        body = []
        for _ in range(R.randint(1, 6)): body += stat()
        head += ["function later() { %s }" % " ".join(body)]
        ev += [("call", "later", [])] * R.choice([1, 1, 2])
    fin = ["io.fclose(%s)" % v for v in hs if hs[v][2]]
    if fin and R.random() < 0.9:
        if ev: head += ["function bye() { %s }" % " ".join(fin)]; ev.append(("call", "bye", []))
        else: ls += fin
    ev += [("cat", n) for n in FNAMES + ["fd"]]
    return LangScen(sid, {"main.bzz": "\n".join(head + ls) + "\n"}, events=ev, data={**data, "fd": None})
def model_files(ctx, depth, limit):
    """every short sequence of file operations"""
    al = [{"o": "open", "v": "f", "m": m} for m in ("r", "w", "a", "w+", "z")] + [{"o": "open", "v": "g", "m": m} for m in ("r", "a")]
    al += [{"o": o, "v": "f", "m": "x"} for o in ("write", "read", "size", "close")] + [{"o": o, "v": "g", "m": "y"} for o in ("write", "read", "close")]
    out = []
    for j, t in enumerate((None, "", "p\nq", "p\n\n")):
        fn = workfile("filegen-%d.json" % j, json.dumps({"alphabet": al, "depth": depth, "text": [] if t is None else [t]}))
        rc, o = tlc("FileGen", "FileGen.cfg", env={"GEN": fn}, workers=1, timeout=max(60, min(900, ctx.left())), heap="4g")
        if rc != 0 or "No error has been found" not in o: raise CheckError("model FileGen: rc %d\n%s" % (rc, o[max(0, o.find("Error:")):][:3000]))
        g, d = tlc_stats(o); ctx.states += d; ctx.transitions += g
        hs = sorted({tuple(int(x) for x in m.group(1).split(", ")) for m in re.finditer(r'<<\s*"H",\s*"<<([\d,\s]*)>>"\s*>>', o)})
        pre = {h[:-1] for h in hs}
        hs = [h for h in hs if h not in pre]
        tot = len(hs)
        if len(hs) > limit: hs = ctx.rng("files", j).sample(hs, limit)
        ctx.cov.setdefault("models", {})["FileGen%d" % j] = {"generated": g, "distinct": d, "depth": depth, "sequences": tot, "run": len(hs)}
        for i, h in enumerate(hs):
            ls = ["f = nil", "g = nil"]
            for a in (al[k - 1] for k in h):
                v = a["v"]
                ls += [{"open": 'v = io.fopen("fa", "%s") %s = v' % (a["m"], v), "write": 'v = nil io.fwrite(%s, "%s")' % (v, a["m"]), "read": "v = nil io.fforeach(%s, rec)" % v, "size": "v = io.fsize(%s)" % v, "close": "v = nil io.fclose(%s)" % v}[a["o"]],
                       "rec(v, io.errno, io.error_message)"]
            out.append(LangScen("files%d.%d" % (j, i), {"main.bzz": "\n".join(ls) + "\n"}, events=[("call", "bye", []), ("cat", "fa")], data={"fa": t}))
            out[-1].files["main.bzz"] += "function bye() { if(f) { io.fclose(f) } if(g) { io.fclose(g) } rec(io.errno) }\n"
    return out

# ---------------------------------------------------------------- the libraries of src/include
LIBS = ["string.bzz", "table.bzz", "vec2.bzz", "arrows.bzz", "neighbors.bzz"]
def gen_bundle(sid, R, **kw):
    libs = [x for x in LIBS if R.random() < 0.75] or LIBS[:2]
    if R.random() < 0.5: R.shuffle(libs)
    ls, ev = [], [("call", "go", [])]
    word = lambda: "".join(R.choice("abc") for _ in range(R.choice([0, 1, 2, 3, 5, 8])))
    num = lambda: R.choice(["0", "1", "2", "3", "-4", "7", "10", "-25", "100", "0.5", "2.5", "-1.25", "8.0"])
    inum = lambda: str(R.choice([0, 1, 2, 3, 5, 8, -1, -7, 100]))
    def lst(n=None, f=None):
        n = R.choice([0, 1, 2, 3, 4, 6, 9]) if n is None else n
        return "{ %s }" % ", ".join(".%d = %s" % (i, (f or inum)()) for i in range(n))
    def keyed():
        ks = R.sample([0, 1, 2, 3, 7, 11, 40, 1000], R.randint(0, 6))
        return "{ %s }" % ", ".join(".%d = %s" % (k, inum() if R.random() < 0.7 else num()) for k in ks)
    cmps = ["table.cmp_number", "function(a, b) { return a >= b }", "function(a, b) { return a <= b }", "function(a, b) { if(a <= b) { return 1 } else { return 0 } }", "down"]
    def str_():
        k = R.random()
        if k < 0.25: return 'rec(string.charat("%s", %d))' % (word(), R.randint(-1, 6))
        if k < 0.45: return 'rec(string.indexoffirst("%s", "%s"))' % (word(), R.choice([word(), "a", "ab", "ca"]))
        if k < 0.65: return 'rec(string.indexoflast("%s", "%s"))' % (word(), R.choice([word(), "a", "ab", "ca"]))
        return 'rec(string.split("%s", "%s"))' % ("".join(R.choice("ab ,;xy") for _ in range(R.choice([0, 1, 3, 6, 12]))), R.choice([",", ", ", ";,", " ", "", "x", ",,"]))
    def tab():
        k = R.random()
        if k < 0.35:
            f = R.choice(["max", "min", "maxkey", "minkey"])
            return "rec(table.%s(%s))" % (f, keyed())
        if k < 0.5: return "t = %s table.swap(t, %d, %d) rec(t)" % (lst(R.randint(1, 5)), R.randint(0, 3), R.randint(0, 3))
        if k < 0.55: return 'rec(table.cmp_number(%s, %s))' % (num(), num())
        if k < 0.85:
            f = R.choice([inum, inum, num, lambda: '"%s"' % R.choice(["a", "b", "c", "bb", "ab"]), lambda: str(R.randint(0, 99)), lambda: str(R.randint(0, 3))])
            return "t = %s table.sort(t, %s) rec(t, size(t))" % (lst(None, f), R.choice(cmps))
        if k < 0.93: return "math.rng.setseed(%d) t = %s table.shuffle(t) rec(size(t)) table.sort(t, table.cmp_number) rec(t)" % (R.randint(0, 99), lst())
        f = R.choice(cmps[:3])
        return "t = {.0 = {.k = 3}, .1 = {.k = 1}, .2 = {.k = 2}, .3 = {.k = %d}} table.sort(t, function(a, b) { return a.k %s b.k }) rec(t)" % (R.choice([0, 4, 9]), R.choice(["<=", ">="]))
    def vec():
        v = lambda: R.choice(["math.vec2.new(%s, %s)" % (num(), num()), "{.x = %s, .y = %s}" % (num(), num()), "p"])
        k = R.random()
        if k < 0.15: return "p = math.vec2.new(%s, %s) rec(p)" % (num(), num())
        if k < 0.5: return "rec(math.vec2.%s(%s, %s))" % (R.choice(["add", "sub", "dot"]), v(), v())
        if k < 0.62: return "rec(math.vec2.scale(%s, %s))" % (v(), num())
        if k < 0.75: return "rec(math.vec2.length(%s))" % R.choice([v(), "{.x = 3, .y = 4}", "{.x = -6.0, .y = 8.0}", "{.x = 0, .y = 5}", "{.x = 1.5, .y = 2.0}"])
        if k < 0.85: return "rec(math.vec2.norm({.x = %s, .y = %s}))" % R.choice([("0.0", "2.0"), ("-4.0", "0.0"), ("3", "4"), ("0", "8")])
        return "rec(math.vec2.%s)" % R.choice(["angle(%s)" % v(), "newp(%s, %s)" % (num(), num()), "rotate(%s, %s)" % (v(), num())])
    def arrow():
        fs = [R.choice(["fa", "fb", "fc", "function() { rec(\"l\", i) i = i + 1 }", "fs"]) for _ in range(R.choice([1, 2, 2, 3, 4, 6]))]
        s = "seq = arrows.%s(%s)" % (R.choice(["begin", "begin", "wrap"]), fs[0])
        if R.random() < 0.6: s += "".join(".next(%s)" % f for f in fs[1:])
        else: s += " " + " ".join("seq.next(%s)" % f for f in fs[1:])
        return s + " " + " ".join(["arrows.run(seq)"] * R.choice([1, 1, 1, 2]))
    def nbr():
        k = R.random()
        t = R.choice(["a", "b"])
        if k < 0.3: return 'neighbors.collect("%s")' % t
        if k < 0.6: return "rec(neighbors.msgs.%s)" % t
        if k < 0.75: return 'neighbors.reset("%s")' % t
        if k < 0.85: return 'neighbors.listen("%s", function(t, v, r) { rec("l", t, v, r) })' % R.choice(["c", t])
        return 'neighbors.ignore("%s")' % R.choice(["c", t])
    make = {"string.bzz": str_, "table.bzz": tab, "vec2.bzz": vec, "arrows.bzz": arrow, "neighbors.bzz": nbr}
    pool = [make[x] for x in libs]
    for _ in range(R.randint(3, 10)): ls.append(R.choice(pool)())
    fun = "go"
    later = [R.choice(pool)() for _ in range(R.randint(1, 4))]
    if "neighbors.bzz" in libs:
        for _ in range(R.randint(0, 8)):
            x = R.random()
            if x < 0.5: ev.append(("msg", R.choice([2, 3, 9]), R.choice(["a", "a", "b", "c"]), R.choice([["i", 5], ["i", -3], ["f", fbits(2.5)], ["s", "hi"], ["n"]])))
            elif x < 0.6: ev.append(("nbrreset",))
            else: ev.append(("call", R.choice(["go", "show", "drop"]), []))
    else: ev += [("call", "go", [])] * R.choice([0, 1])
    if "neighbors.bzz" not in libs: extra = ""
    else: extra = 'function show() { rec(neighbors.msgs.a, neighbors.msgs.b) }\nfunction drop() { neighbors.reset("a") }\n'
    head = "".join('include "%s"\n' % x for x in libs)
    head += 'function fa() { rec("a", i) i = i + 1 }\nfunction fb() { rec("b") return 3 }\nfunction fc() { i = i * 2 rec("c", i) }\nfunction fs() { rec(self == seq) }\nfunction down(a, b) { return a >= b }\n'
    return LangScen(sid, {"main.bzz": head + extra + "function go() { %s }\n" % " ".join(later) + "i = 1\np = {.x = 1, .y = 2}\nt = {}\n" + "\n".join(ls) + "\n"}, events=ev, libs=libs)
