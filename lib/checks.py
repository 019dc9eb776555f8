"""The checks, one per property."""
from driver import *
import robot
from robot import *

K = ["s", "a"]
def model_vstig(ctx, name="vstig", oc=(None, None), ol=True, depth=8, limit=None, gets=True, lossless=True, puts=2):
    """two robots, one key: writes, reads, one-message exchanges in every order"""
    prefix = [("create", 1, 1), ("create", 2, 1)]
    for r in (1, 2):
        if oc[r - 1]: prefix.append(("onconflict", r, 1, oc[r - 1]))
        if ol: prefix.append(("onlost", r, 1, "rec"))
    alpha = []
    for r in (1, 2):
        for x in range(puts): alpha.append((1, ("put", r, 1, K, ["i", 10 * r + x])))
        if gets: alpha.append((1, ("get", r, 1, K)))
        alpha.append((9, ("xfer", r, (3 - r,))))
        alpha.append((9, ("procin", r)))
    if not lossless:
        alpha += [(1, ("xfer", 1, ())), (1, ("put", 2, 1, K, ["n"]))]
    probes = [("all", 1, 1), ("all", 2, 1)] + [("keep", r) for r in (1, 2, 1, 2)]
    return model_scens(ctx, name, [1, 2], prefix, alpha, depth, probes, lossless=lossless, limit=limit)

def model_vstig3(ctx, depth=6, limit=None):
    """three robots in a line"""
    prefix = [("create", r, 1) for r in (1, 2, 3)]
    alpha = [(1, ("put", 1, 1, K, ["i", 1])), (1, ("put", 3, 1, K, ["i", 3])), (1, ("put", 2, 1, K, ["i", 2])),
             (9, ("xfer", 1, (2,))), (9, ("xfer", 2, (1, 3))), (9, ("xfer", 3, (2,)))] + [(9, ("procin", r)) for r in (1, 2, 3)]
    return model_scens(ctx, "line3", [1, 2, 3], prefix, alpha, depth, [("all", r, 1) for r in (1, 2, 3)], lossless=True, limit=limit)

def model_env(ctx, name="env", me=5, oc=None, depth=4, limit=None):
    """one robot against an arbitrary environment: every message kind, version and author around its own"""
    prefix = [("create", me, 1), ("onlost", me, 1, "rec")] + ([("onconflict", me, 1, oc)] if oc else [])
    def m(t, v, ts, rob): return {"t": t, "id": 1, "key": K, "val": v, "ts": ts, "rob": rob}
    alpha = [(2, ("put", me, 1, K, ["i", 1])), (1, ("put", me, 1, K, ["n"])), (1, ("get", me, 1, K)), (9, ("procin", me)), (1, ("keep", me))]
    for t in "PQ":
        for ts in (1, 2):
            for rob in (3, me, 8):
                alpha.append((1, ("feed", me, 9, m(t, ["i", 100 * ts + rob], ts, rob))))
        alpha.append((1, ("feed", me, 9, m(t, ["n"], 1, 8))))
    alpha.append((1, ("feed", me, 9, m("Q", ["n"], 0, 8))))
    return model_scens(ctx, name, [me], prefix, alpha, depth, [("procin", me), ("all", me, 1), ("size", me, 1)] + [("keep", me)] * 3, limit=limit)

def model_swarm(ctx, name="swarm", depth=5, limit=None, own=True):
    """an announcing robot and a robot that hears everything"""
    prefix = [("screate", 1, 1), ("screate", 1, 2)]
    alpha = [(2, ("sjoin", 1, 1)), (1, ("sleave", 1, 1)), (1, ("sselect", 1, 2, 1)), (1, ("sleave", 1, 2)),
             (1, ("sothers", 1, 1, 3)), (1, ("setop", 1, "sinter", 2, 1, 2)), (1, ("setop", 1, "sdiff", 1, 1, 2)),
             (1, ("setop", 1, "sunion", 3, 1, 2)),
             (9, ("xfer", 1, (2,))), (9, ("procin", 2)), (9, ("list", 1))]
    probes = [("sin", 1, 1), ("sin", 1, 2), ("xfer", 1, (2,)), ("xfer", 1, (2,)), ("xfer", 1, (2,)), ("procin", 2), ("members", 2, [1], [1, 2, 3])]
    return model_scens(ctx, name, [1, 2], prefix, alpha, depth, probes, lossless=True, limit=limit)

def model_queue(ctx, depth=5, limit=None):
    prefix = [("create", 1, 1), ("screate", 1, 1), ("screate", 1, 2)]
    alpha = [(1, ("bcast", 1, "t", ["i", 1])), (1, ("bcast", 1, "t", ["i", 2])),
             (2, ("put", 1, 1, K, ["i", 1])), (1, ("put", 1, 1, ["s", "b"], ["i", 2])), (1, ("put", 1, 1, K, ["n"])),
             (1, ("get", 1, 1, K)), (1, ("get", 1, 1, ["s", "b"])),
             (2, ("sjoin", 1, 1)), (1, ("sleave", 1, 1)), (1, ("sjoin", 1, 2)), (1, ("sleave", 1, 2)), (1, ("list", 1)), (9, ("keep", 1))]
    return model_scens(ctx, "queue", [1], prefix, alpha, depth, [("peek", 1), ("qsize", 1)] + [("keep", 1)] * 6, limit=limit)

def model_listen(ctx, depth=5, limit=None):
    def b(t, v): return {"t": "B", "topic": ["s", t], "val": ["i", v]}
    alpha = [(1, ("listen", 1, "a", "rec")), (1, ("listen", 1, "a", "swap")), (1, ("listen", 1, "b", "ign")), (1, ("ignore", 1, "a")),
             (2, ("feed", 1, 2, b("a", 1))), (1, ("feed", 1, 2, b("b", 2))), (1, ("feed", 1, 12, b("a", 3))), (1, ("feed", 1, 3, b("b", 4))), (9, ("procin", 1))]
    return model_scens(ctx, "listen", [1], [], alpha, depth, [("procin", 1), ("procin", 1)], limit=limit)

def rnd(ctx, *specs):
    """seeded random scenarios: (generator, how many, keyword arguments)"""
    out = []
    for q, (g, n, kw) in enumerate(specs):
        f = getattr(robot, "gen_" + g)
        for i in range(n):
            out.append(f("%s-%d-%d" % (g, q, i), ctx.rng(g, i, str(sorted(kw.items()))), **kw))
    return out

def many(ctx, scs, module="RobotTrace", **kw):
    """in batches, so that a thorough run stops early and stays within memory"""
    B = 4000
    for i in range(0, len(scs), B):
        if ctx.viol or ctx.left() < 60: break
        ctx.conform(scs[i:i + B], module, **kw)

@prop("P01")
def p01(ctx):
    scs = model_vstig(ctx, depth=ctx.n(6, 9), limit=ctx.n(600, 6000))
    scs += model_env(ctx, depth=ctx.n(3, 4), limit=ctx.n(700, 8000))
    scs += rnd(ctx, ("vstig", ctx.n(120, 2500), {}), ("conflict", ctx.n(60, 1200), {}), ("wide", ctx.n(24, 300), {"what": "keys"}), ("wide", ctx.n(8, 100), {"what": "ids"}))
    many(ctx, scs)

@prop("P02")
def p02(ctx):
    scs = model_vstig(ctx, depth=ctx.n(7, 10), limit=ctx.n(500, 6000), gets=False, puts=1)
    scs += model_vstig3(ctx, depth=ctx.n(6, 8), limit=ctx.n(500, 5000))
    scs += rnd(ctx, ("net", ctx.n(200, 4000), {}))
    many(ctx, scs)

@prop("P03")
def p03(ctx):
    scs = []
    for i, (me, oc) in enumerate([(5, None), (5, "low"), (5, "own"), (5, "third"), (5, "remote"), (5, "local"), (5, "lmix"), (5, "nil")]):
        scs += model_env(ctx, "env-%s" % oc, me, oc, depth=ctx.n(3, 4), limit=ctx.n(150, 3000))
    scs += model_vstig(ctx, "oc", oc=("low", "low"), depth=ctx.n(6, 8), limit=ctx.n(150, 3000))
    scs += rnd(ctx, ("conflict", ctx.n(250, 5000), {}), ("vstig", ctx.n(40, 1000), {"managers": robot.ALLMAN}))
    many(ctx, scs)

@prop("P04")
def p04(ctx):
    scs = model_env(ctx, depth=ctx.n(3, 4), limit=ctx.n(500, 6000))
    scs += rnd(ctx, ("vstig", ctx.n(150, 3000), {"single": True}), ("vstig", ctx.n(60, 1000), {}), ("wide", ctx.n(24, 300), {"what": "keys"}), ("wide", ctx.n(8, 100), {"what": "ids"}))
    many(ctx, scs)

@prop("P05")
def p05(ctx):
    scs = model_swarm(ctx, depth=ctx.n(4, 6), limit=ctx.n(700, 8000))
    scs += rnd(ctx, ("swarm", ctx.n(250, 4000), {}), ("wide", ctx.n(20, 300), {"what": "swarms"}))
    many(ctx, scs)

@prop("P06")
def p06(ctx):
    scs = model_swarm(ctx, depth=ctx.n(4, 6), limit=ctx.n(600, 8000))
    scs += rnd(ctx, ("swarm", ctx.n(140, 3000), {}), ("age", ctx.n(60, 1000), {}), ("wide", ctx.n(24, 300), {"what": "members"}))
    many(ctx, scs)

@prop("P07")
def p07(ctx):
    scs = model_queue(ctx, depth=ctx.n(4, 6), limit=ctx.n(1000, 10000))
    scs += rnd(ctx, ("queue", ctx.n(200, 4000), {}), ("wide", ctx.n(16, 300), {"what": "queue"}), ("wide", ctx.n(10, 200), {"what": "swarms"}))
    many(ctx, scs)

@prop("P08")
def p08(ctx):
    scs = model_listen(ctx, depth=ctx.n(5, 7), limit=ctx.n(800, 8000))
    scs += rnd(ctx, ("listen", ctx.n(150, 3000), {}), ("fifo", ctx.n(120, 2500), {}), ("wide", ctx.n(24, 300), {"what": "topics"}))
    many(ctx, scs)

import wire
@prop("P09")
def p09(ctx):
    ctx.model("CodecModel", "CodecModel.cfg")
    R = ctx.rng("v")
    scs = [wire.WireScen("val-%d" % i, ctx.rng("v", i)) for i in range(ctx.n(260, 5000))]
    scs += [wire.WireScen("big-%d" % i, ctx.rng("b", i), big=True) for i in range(ctx.n(10, 100))]
    scs += [wire.WireScen("f-%d" % i, ctx.rng("f", i), v=["f", b]) for i, b in enumerate(wire.FLOATS)]
    scs += [wire.WireScen("i-%d" % i, ctx.rng("i", i), v=["i", b]) for i, b in enumerate(wire.INTS)]
    scs += [wire.WireScen("l-%d" % n, ctx.rng("l", n), v=["s", "ab" * (n // 2) + "c" * (n % 2)]) for n in (4095, 65535)]
    scs += [wire.FnScen("fn-%d" % i, ctx.rng("fn", i)) for i in range(ctx.n(80, 1500))]
    many(ctx, scs, "CodecTrace")

@prop("P10")
def p10(ctx):
    reads = []
    scs = []
    R = ctx.rng("cuts")
    for i in range(ctx.n(40, 600)):
        b = encmsg(wire.good_msg(R))
        cs = [b[:k] for k in range(len(b))][:40]
        try:
            for c in cs: 
                try: wire.rmsg(c)
                except Bad: pass
        except wire.Skip: continue
        scs.append(wire.gen_junk("cut-%d" % i, ctx.rng("cut", i), reads, cuts=cs))
    for i in range(ctx.n(2, 12)):     # broadcasts on functions, among them every place a topic's name may have inside the machine
        cs = [b"\0\5" + bytes([i % 2, 0, 0, n // 256, n % 256]) + wire.enc(["i", 6]) for n in range(320)]
        scs.append(wire.gen_junk("topic-%d" % i, ctx.rng("topic", i), reads, cuts=cs))
    scs += [wire.gen_junk("junk-%d" % i, ctx.rng("junk", i), reads) for i in range(ctx.n(400, 8000))]
    # the meaning given to every byte string used is the one of the wire specification
    tr = [{"ops": [{"op": "read", "bytes": list(b), "m": {f: wire.tree(x) if f in ("topic", "val", "key") else x for f, x in m.items()} if m else {"t": "bad"}}
                   for b, m in reads[j:j + 60]]} for j in range(0, len(reads), 60)]
    rej, st = validate("CodecTrace", tr)
    if rej: raise CheckError("byte-level oracle disagrees with Codec.tla: %s %s" % (tr[min(rej)]["ops"][rej[min(rej)][0] - 1], rej[min(rej)][1]))
    ctx.transitions += st[0]; ctx.states += st[1]
    ctx.count("messages", len(reads)); ctx.count("malformed", sum(m is None for _, m in reads))
    many(ctx, scs)
    many(ctx, [wire.WildScen("wild-%d" % i, ctx.rng("wild", i)) for i in range(ctx.n(40, 400))])

import cont
def mk(ctx, g, name, cnt, **kw): return [g("%s-%d" % (name, i), ctx.rng(name, i), **kw) for i in range(cnt)]
@prop("P19")
def p19(ctx):
    q = ctx.n(400, 6000)
    scs = cont.model(ctx, "array", "da", cont.DA, ctx.n(5, 6), q, cont.mk_cont("da"))
    scs += cont.model(ctx, "dict1", "di", cont.DI, ctx.n(5, 6), q, cont.mk_cont("di", buckets=1))
    scs += cont.model(ctx, "dict2", "di", cont.DI, ctx.n(4, 6), q, cont.mk_cont("di", buckets=2))
    scs += cont.model(ctx, "set", "se", cont.SE, ctx.n(4, 6), q, cont.mk_cont("se"))
    scs += mk(ctx, cont.gen_da, "da", ctx.n(250, 5000)) + mk(ctx, cont.gen_di, "di", ctx.n(250, 5000)) + mk(ctx, cont.gen_se, "se", ctx.n(250, 5000))
    many(ctx, scs, "ContTrace")

@prop("P15")
def p15(ctx):
    scs = cont.model(ctx, "strings", "sm", cont.SM, ctx.n(4, 6), ctx.n(900, 8000), cont.mk_sm, "SmGen")
    scs += mk(ctx, cont.gen_sm, "sm", ctx.n(250, 4000)) + mk(ctx, cont.gen_sm, "wrap", ctx.n(16, 150), n=20, wrap=True)
    many(ctx, scs, "ContTrace")

import vm
@prop("P11")
def p11(ctx):
    scs = vm.model(ctx, "data", vm.DATA, ctx.n(4, 5), ctx.n(700, 10000))
    scs += vm.grid(ctx) + mk(ctx, vm.gen_prog, "prog", ctx.n(500, 8000), bad=0)
    many(ctx, scs, "VmTrace")

@prop("P12")
def p12(ctx):
    scs = mk(ctx, vm.gen_garbage, "garbage", ctx.n(600, 10000)) + mk(ctx, vm.gen_prog, "bad", ctx.n(400, 6000), bad=0.03)
    scs += [s for s in vm.grid(ctx) if s.sid.split("-")[0] in ("few", "cut", "mix", "native")]
    many(ctx, scs, "VmTrace")

@prop("P13")
def p13(ctx):
    scs = vm.model(ctx, "calls", vm.CALLS, ctx.n(5, 6), ctx.n(700, 10000))
    scs += mk(ctx, vm.gen_calls, "call", ctx.n(900, 12000))
    many(ctx, scs, "VmTrace")

import lang
@prop("P17")
def p17(ctx):
    scs = lang.model_exprs(ctx, ctx.n(4, 5), ctx.n(400, 6000)) + lang.model_deep(ctx, ctx.n(6, 7), ctx.n(400, 5000))
    scs += lang.model_refs(ctx, ctx.n(5, 7), ctx.n(400, 5000))
    scs += lang.all_pairs(ctx.rng("pairs")) + mk(ctx, lang.gen_chain, "chain", ctx.n(200, 4000)) + mk(ctx, lang.gen_blocks, "blocks", ctx.n(250, 4000))
    scs += mk(ctx, lang.gen_prog, "prog", ctx.n(500, 9000)) + mk(ctx, lang.gen_scope, "scope", ctx.n(350, 5000))
    for w in lang.BIG: scs += mk(ctx, lang.gen_big, "big-" + w, ctx.n(1, 12), what=w)
    many(ctx, scs, "LangTrace")
    lang.known_extra(ctx)

@prop("P22")
def p22(ctx):
    scs = lang.model_stats(ctx, ctx.n(4, 5), ctx.n(900, 9000)) + lang.model_heads(ctx, ctx.n(3, 5), ctx.n(500, 6000))
    scs += mk(ctx, lang.gen_damage, "damage", ctx.n(600, 9000)) + mk(ctx, lang.gen_lex, "lex", ctx.n(400, 6000))
    scs += mk(ctx, lang.gen_prog, "layout", ctx.n(80, 1500), size=5, style="wild") + mk(ctx, lang.gen_include, "inc", ctx.n(120, 2000))
    many(ctx, scs, "LangTrace")

@prop("P16")
def p16(ctx):
    scs = mk(ctx, lang.gen_table, "table", ctx.n(420, 8000)) + mk(ctx, lang.gen_clone, "clone", ctx.n(150, 3000))
    many(ctx, scs, "LangTrace")

@prop("P20")
def p20(ctx):
    scs = mk(ctx, lang.gen_nbr, "nbr", ctx.n(450, 8000))
    many(ctx, scs, "LangTrace")

@prop("P21")
def p21(ctx):
    cs = lang.lib_all() + lang.lib_sub()
    scs = [lang.prog_calls("grid-%d" % i, [c]) for i, c in enumerate(cs)]
    rs = lang.lib_real()
    scs += [lang.prog_calls("real-%d" % i, rs[i:i + 8]) for i in range(0, len(rs), 8)]
    scs += mk(ctx, lang.gen_lib, "lib", ctx.n(400, 8000)) + mk(ctx, lang.gen_rng, "rng", ctx.n(150, 3000))
    many(ctx, scs, "LangTrace")

def with_gc(scs, R):
    """the same scenario with collections at every step, or every few"""
    for s in scs: s.lines.insert(1, "gcmode %d" % R.choice([1, 1, 2, 3])); s.ops.insert(1, None)
    return scs
@prop("P14")
def p14(ctx):
    scs = mk(ctx, lang.gen_gc, "gc", ctx.n(220, 4000)) + mk(ctx, lang.gen_gctable, "table", ctx.n(90, 1500)) + mk(ctx, lang.gen_gcnbr, "nbr", ctx.n(90, 1500))
    scs += mk(ctx, lang.gen_gccalls, "calls", ctx.n(200, 4000)) + mk(ctx, lang.gen_gcmsg, "msgs", ctx.n(60, 1000))
    many(ctx, scs, "LangTrace")
    scs = rnd(ctx, ("vstig", ctx.n(80, 1500), {}), ("conflict", ctx.n(50, 1000), {}), ("listen", ctx.n(60, 1000), {}), ("swarm", ctx.n(50, 1000), {}), ("queue", ctx.n(60, 1000), {}), ("net", ctx.n(30, 500), {}))
    many(ctx, with_gc(scs, ctx.rng("when")))

import asm
@prop("P18")
def p18(ctx):
    scs = asm.each_instr() + asm.big(ctx.rng("big")) + mk(ctx, asm.gen_asm, "asm", ctx.n(300, 5000)) + mk(ctx, asm.gen_dbg, "dbg", ctx.n(150, 3000))
    scs += [asm.CompScen(s) for s in mk(ctx, lang.gen_prog, "cprog", ctx.n(120, 2500)) + mk(ctx, lang.gen_include, "cinc", ctx.n(40, 600)) + mk(ctx, lang.gen_prog, "cwild", ctx.n(40, 600), style="wild")]
    scs += [asm.CompScen(lang.LangScen("cfew-%d" % i, {"main.bzz": t}, "main.bzz")) for i, t in enumerate(["", "\n\n", "# only a comment", "x", "x=1", "function f(){}\n", "return", "\n\nreturn 1\n", "if(1){}", "f=function(){}"])]
    scs += [asm.CompScen(lang.gen_big("cbig-" + w, ctx.rng("cbig", w), what=w)) for w in ("strings", "functions", "blocks", "elses", "chars", "files")]
    many(ctx, scs, "AsmTrace")
    scs = mk(ctx, lang.gen_prog, "err", ctx.n(250, 5000), wrong=0.08) + mk(ctx, lang.gen_include, "einc", ctx.n(40, 600))
    for s in scs: s.places = True
    many(ctx, scs, "LangTrace")

@prop("P23")
def p23(ctx):
    scs = lang.model_files(ctx, ctx.n(4, 5), ctx.n(150, 4000)) + mk(ctx, lang.gen_file, "file", ctx.n(350, 8000))
    many(ctx, scs, "LangTrace")

@prop("P24")
def p24(ctx):
    many(ctx, mk(ctx, lang.gen_bundle, "bundle", ctx.n(700, 12000)), "LangTrace")

@prop("P25")
def p25(ctx):
    scs = vm.model_debug(ctx, ctx.n(5, 6), ctx.n(250, 4000)) + mk(ctx, vm.gen_debug, "debug", ctx.n(500, 8000))
    many(ctx, scs, "VmTrace")
