"""Shared machinery: build the working tree, run the harness, run TLC."""
import os, sys, json, subprocess, tempfile, shutil, atexit, random, time, re, struct, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BUZZ_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
NCPU = min(8, os.cpu_count() or 4)

class CheckError(Exception):
    """The check itself could not run (never a verdict about Buzz)."""

_tmp = None
def tmp():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="bzv.")
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

# ---------------------------------------------------------------- building
_built = {}
FLAGS = {"plain": "-O1 -g -w", "asan": "-O1 -g -w -fsanitize=address -fno-omit-frame-pointer"}
def build(kind="plain"):
    """Configure and build /repo's working tree out of tree; returns the directory."""
    if kind in _built: return _built[kind]
    b = os.path.join(tmp(), "build-" + kind)
    fl = FLAGS[kind]
    r = sh(["cmake", "-S", REPO + "/src", "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
            "-DCMAKE_C_FLAGS=" + fl])
    if r.returncode: raise CheckError("cmake failed\n" + r.stdout[-3000:])
    r = sh(["ninja", "-C", b, "buzz/libbuzz.so", "buzz/libbuzzdbg.so", "bzzparse", "bzzasm", "bzzdeasm", "bzzrun"])
    if r.returncode: raise CheckError("build failed\n" + r.stdout[-3000:])
    r = sh(["gcc"] + fl.split() + ["-std=gnu99", "-D_GNU_SOURCE", "-I" + REPO + "/src", "-I" + b,
            "-I" + VERIF + "/harness", VERIF + "/harness/bzh.c", REPO + "/src/buzz/buzzlex.c",
            REPO + "/src/buzz/buzzparser.c", "-o", b + "/bzh", "-L" + b + "/buzz", "-lbuzzdbg", "-lbuzz",
            "-lm", "-ldl", "-Wl,-rpath," + b + "/buzz"])
    if r.returncode: raise CheckError("harness build failed\n" + r.stdout[-3000:])
    _built[kind] = b
    return b

def build_all(kinds):
    with cf.ThreadPoolExecutor() as ex: list(ex.map(build, kinds))

# ---------------------------------------------------------------- harness
class Result:
    __slots__ = ("id", "out", "end", "err")

def _runchunk(bzh, chunk, work, tmo):
    os.makedirs(work, exist_ok=True)
    fn = os.path.join(work, "scen")
    with open(fn, "w") as f:
        for sid, lines in chunk:
            f.write("S %s\n" % sid)
            for l in lines: f.write(l + "\n")
            f.write("E\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=512")
    efn = os.path.join(work, "stderr")
    with open(efn, "w") as ef:
        p = subprocess.run([bzh, fn, work, str(tmo)], stdout=subprocess.PIPE, stderr=ef, cwd=work, env=env)
    if p.returncode != 0: raise CheckError("harness ended with %d: %s" % (p.returncode, open(efn, errors="replace").read()[-2000:]))
    res, cur = {}, None
    for line in p.stdout.decode("utf-8", "replace").split("\n"):
        if line.startswith("S "):
            cur = Result(); cur.id = line[2:]; cur.out = []; cur.end = None; cur.err = ""
            res[cur.id] = cur
        elif line.startswith("X "): cur.end = line[2:]
        elif line.startswith("{"):
            try: cur.out.append(json.loads(line))
            except ValueError: cur.out.append({"op": "garbled", "raw": line})
    bad = [r for r in res.values() if r.end != "ok"]
    if bad:
        e = open(efn, errors="replace").read()
        m = re.findall(r"ERROR: AddressSanitizer:[^\n]*|runtime error[^\n]*|\[FATAL\][^\n]*|\[BUG\][^\n]*", e)
        for r in bad: r.err = "; ".join(m[:3])
    return res

_runno = [0]
def run(scens, kind="plain", tmo=20, jobs=NCPU):
    """scens: list of (id, [lines]).  Returns {id: Result}."""
    b = build(kind)
    _runno[0] += 1
    n = max(1, min(jobs, len(scens)))
    chunks = [scens[i::n] for i in range(n)]
    out = {}
    with cf.ThreadPoolExecutor(n) as ex:
        fs = [ex.submit(_runchunk, b + "/bzh", c, os.path.join(tmp(), "run%d.%d" % (_runno[0], i)), tmo)
              for i, c in enumerate(chunks)]
        for f in fs: out.update(f.result())
    if any("exit 97" == r.end for r in out.values()):
        raise CheckError("harness rejected a scenario: " + str([r.id for r in out.values() if r.end == "exit 97"][:3]))
    return out

def workfile(name, text):
    d = os.path.join(tmp(), "files"); os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, name)
    with open(fn, "w") as f: f.write(text)
    return fn

# ---------------------------------------------------------------- TLC
_tlcno = [0]
def tlc(module, cfg=None, env=None, workers=1, timeout=600, args=(), heap="2g"):
    _tlcno[0] += 1
    meta = os.path.join(tmp(), "tlc%d" % _tlcno[0])
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp",
           TLAJAR + ":/opt/veriftools/tla/CommunityModules-deps.jar",
           "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-config", os.path.join(SPEC, cfg or module + ".cfg"),
           "-nowarning"] + list(args) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e,
                           timeout=timeout, cwd=tmp())
    except subprocess.TimeoutExpired as x:
        shutil.rmtree(meta, ignore_errors=True)
        raise CheckError("TLC timed out on %s" % module)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout

def tlc_stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

OPEN = [0]     # traces part of which the specification leaves open
def validate(module, traces, cfg=None, jobs=NCPU, timeout=800, env=None, heap="3g"):
    """Run the trace module over the traces.  Returns ({index: (pos, wanted)}, states)."""
    if not traces: return {}, (0, 0)
    n = max(1, min(jobs, (len(traces) + 39) // 40))
    idx = [list(range(len(traces)))[i::n] for i in range(n)]
    def one(k):
        todo = list(idx[k])
        rej, gen, dist = {}, 0, 0
        for attempt in range(6):
            if not todo: break
            _tlcno[0] += 1
            fn = os.path.join(tmp(), "traces.%d.%d.%d.json" % (_tlcno[0], k, attempt))
            with open(fn, "w") as f: json.dump([traces[i] for i in todo], f)
            rc, out = tlc(module, cfg, env=dict(env or {}, TRACES=fn), workers=1, timeout=timeout, heap=heap)
            acc = {int(x) for x in re.findall(r'<<\s*"ACCEPT",\s*(\d+)\s*>>', out)}
            for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', out):
                rej[todo[int(m.group(1)) - 1]] = (int(m.group(2)), m.group(3).replace('\\"', '"'))
            g, d = tlc_stats(out); gen += g; dist += d
            OPEN[0] += len({x for x in re.findall(r'<<\s*"OPEN",\s*(\d+)', out)})
            left = [i for j, i in enumerate(todo) if j + 1 not in acc and i not in rej]
            if rc == 0 and not left: os.unlink(fn); return rej, (gen, dist)
            keep = os.environ.get("BZ_KEEP")
            if keep: shutil.copy(fn, keep)
            i = out.find("Error:")
            bad = re.findall(r"/\\ tid = (\d+)", out[i:])
            pos = re.findall(r"/\\ pos = (\d+)", out[i:])
            if rc == 0 or not bad or not pos or "evaluating" not in out[i:] and "Attempted" not in out[i:] and "overflow" not in out[i:].lower():
                raise CheckError("TLC failed on %s (rc %d, %d accepted, %d rejected of %d):\n%s"
                                 % (module, rc, len(acc), len(rej), len(idx[k]), out[max(0, i):i + 3000]))
            # what was observed there is outside everything the specification can express
            rej[todo[int(bad[-1]) - 1]] = (int(pos[-1]), "(no meaning: %s)" % " ".join(out[i:i + 400].split()))
            todo = [i for i in left if i not in rej]
            os.unlink(fn)
        if todo: raise CheckError("TLC failed repeatedly on %s" % module)
        return rej, (gen, dist)
    rej, g, d = {}, 0, 0
    with cf.ThreadPoolExecutor(n) as ex:
        for r, s in ex.map(one, range(n)):
            rej.update(r); g += s[0]; d += s[1]
    return rej, (g, d)

# ---------------------------------------------------------------- values
def tok(v):
    t = v[0]
    if t == "n": return "n"
    if t == "i": return "i:%d" % v[1]
    if t == "f":
        return "f:%d" % (0 if v[1] == 0x80000000 else v[1])
    if t == "s": return "s:" + v[1]
    if t == "t":
        es = sorted("%s=%s" % (tok(k), tok(x)) for k, x in v[1])
        return "t:{" + ",".join(es) + "}" + ("" if v[2] == len(v[1]) else "#%d" % v[2])
    if t == "c": return "c:%d" % (1 if v[1] else 0)
    return ":".join(str(x) for x in v)

def fbits(x): return struct.unpack("<I", struct.pack("<f", x))[0]
def bitsf(b): return struct.unpack("<f", struct.pack("<I", b))[0]

def lit(v):
    """Buzz source text of a value (finite floats, printable strings)."""
    t = v[0]
    if t == "n": return "nil"
    if t == "i":
        if v[1] == -2147483648: return "(-2147483647-1)"
        return str(v[1]) if v[1] >= 0 else "(-%d)" % -v[1]
    if t == "f":
        x = bitsf(v[1])
        s = "%.12f" % abs(x)
        return s if x >= 0 else "(-%s)" % s
    if t == "s": return '"' + v[1] + '"'
    if t == "t":
        return "{" + ",".join((".%s=%s" % (k[1], lit(x)) if k[0] == "s" and re.match(r"^[a-z]\w*$", k[1]) else
                               ".%d=%s" % (k[1], lit(x))) for k, x in v[1]) + "}"
    raise ValueError(v)

# wire format
def enc(v):
    t = v[0]
    if t == "n": return b"\0"
    if t == "i": return b"\1" + struct.pack(">i", v[1])
    if t == "f":
        x = bitsf(v[1])
        import math
        m, e = math.frexp(x)
        if m == 0: return b"\2" + struct.pack(">ii", 0, 0)
        k = int((abs(m) - 0.5) * 2 * 2147483648) + 1
        return b"\2" + struct.pack(">ii", -k if x < 0 else k, e)
    if t == "s":
        s = v[1].encode("latin1"); return b"\3" + struct.pack(">H", len(s)) + s
    if t == "t":
        return b"\4" + bytes([len(v[1])]) + b"".join(enc(k) + enc(x) for k, x in v[1])
    raise ValueError(v)

class Bad(Exception): pass
def dec(b, p=0):
    if p >= len(b): raise Bad("short")
    t = b[p]; p += 1
    if t == 0: return ["n"], p
    if t == 1:
        if p + 4 > len(b): raise Bad("short")
        return ["i", struct.unpack(">i", b[p:p+4])[0]], p + 4
    if t == 2:
        if p + 8 > len(b): raise Bad("short")
        m, e = struct.unpack(">ii", b[p:p+8])
        if m == 0: return ["f", 0], p + 8
        try:
            x = ((abs(m) - 1) / 4294967296.0 + 0.5) * 2.0 ** e
            return ["f", fbits(-x if m < 0 else x)], p + 8
        except OverflowError: raise Bad("float")
    if t == 3:
        if p + 2 > len(b): raise Bad("short")
        n = struct.unpack(">H", b[p:p+2])[0]; p += 2
        if p + n > len(b): raise Bad("short")
        return ["s", b[p:p+n].decode("latin1")], p + n
    if t == 4:
        if p >= len(b): raise Bad("short")
        n = b[p]; p += 1
        es = []
        for _ in range(n):
            k, p = dec(b, p); v, p = dec(b, p); es.append([k, v])
        return ["t", es, len(es)], p
    if t == 5:
        if p + 5 > len(b): raise Bad("short")
        return ["c", b[p], struct.unpack(">i", b[p+1:p+5])[0]], p + 5
    raise Bad("type %d" % t)

def encmsg(m):
    t = m["t"]
    if t == "B": return b"\0" + enc(m["topic"]) + enc(m["val"])
    if t == "L": return b"\1" + struct.pack(">H", len(m["ids"])) + b"".join(struct.pack(">H", i) for i in m["ids"])
    if t in "PQ":
        return bytes([2 if t == "P" else 3]) + struct.pack(">H", m["id"]) + enc(m["key"]) + enc(m["val"]) + \
               struct.pack(">HH", m["ts"], m["rob"])
    return bytes([4 if t == "J" else 5]) + struct.pack(">H", m["id"])

def decmsg(hexs):
    """hex of an outgoing message -> abstract message with tokens"""
    b = bytes.fromhex(hexs)
    if not b: return {"t": "none"}
    try:
        t = b[0]
        if t == 0:
            k, p = dec(b, 1); v, p = dec(b, p)
            r = {"t": "B", "topic": tok(k), "val": tok(v)}
        elif t == 1:
            n = struct.unpack(">H", b[1:3])[0]; p = 3 + 2 * n
            ids = [struct.unpack(">H", b[3+2*i:5+2*i])[0] for i in range(n)]
            if len(set(ids)) != n: return {"t": "dupids", "raw": hexs}
            r = {"t": "L", "ids": sorted(ids)}
        elif t in (2, 3):
            i = struct.unpack(">H", b[1:3])[0]
            k, p = dec(b, 3); v, p = dec(b, p)
            ts, rob = struct.unpack(">HH", b[p:p+4]); p += 4
            r = {"t": "P" if t == 2 else "Q", "id": i, "key": tok(k), "val": tok(v), "ts": ts, "rob": rob}
        elif t in (4, 5):
            r = {"t": "J" if t == 4 else "V", "id": struct.unpack(">H", b[1:3])[0]}; p = 3
        else: return {"t": "unknown", "raw": hexs}
        if p != len(b): return {"t": "trailing", "raw": hexs}
        return r
    except (Bad, struct.error, IndexError):
        return {"t": "garbled", "raw": hexs}
