"""Shared machinery: building, running the laboratory, checking traces with TLC, verdicts, evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO = os.environ.get("YAMC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
LAB = os.path.join(VERIF, "lab")
JAR = "/opt/veriftools/tla/tla2tools.jar"
NPROC = min(8, os.cpu_count() or 1)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"

class CheckError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def filehash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

def _listdir(d, ext):
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(ext)]

# ------------------------------------------------------------------ building
def build_lab():
    os.makedirs(BUILD, exist_ok=True)
    src = [os.path.join(LAB, f) for f in ("lab.cpp", "lab.hpp", "abi.hpp")]
    out = os.path.join(BUILD, "lab-" + filehash(src))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh(["g++", "-std=c++17", "-O2", "-g", "-rdynamic", "-w", "-fno-threadsafe-statics", src[0], "-o", tmp, "-ldl"])
        if r.returncode: raise CheckError("lab build failed:\n" + r.stdout)
        os.rename(tmp, out)
    return out

def build_sut(name, defs=(), ndebug=True, extra_inc=(), srcname=None, plain=()):
    """Compile lab/sut_<name>.cpp against the headers of the repository's working tree."""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(LAB, "sut_%s.cpp" % (srcname or name))
    if name == "plat": extra_inc = (os.path.join(LAB, "stubs"),); plain = (os.path.join(LAB, "sut_plat_stub.cpp"),)
    deps = _listdir(LAB, ".hpp") + [src] + list(plain) + _listdir(os.path.join(REPO, "include"), ".hpp")
    for d in extra_inc:
        for r, _, fs in os.walk(d): deps += [os.path.join(r, f) for f in fs]
    flags = ["-std=c++11", "-O1", "-g", "-fPIC", "-fsanitize=thread", "-fno-gnu-unique", "-w"] + list(defs)
    if ndebug: flags.append("-DNDEBUG")
    key = filehash(deps) + hashlib.sha256(" ".join(flags).encode()).hexdigest()[:8]
    out = os.path.join(BUILD, "libsut_%s-%s.so" % (name, key))
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        inc = ["-I" + d for d in extra_inc] + ["-I" + os.path.join(REPO, "include"), "-I" + LAB]
        r = sh(["g++"] + flags + inc + ["-c", src, "-o", tmp + ".o"])
        if r.returncode: raise CheckError("build of the library under test failed:\n" + r.stdout[-4000:])
        objs = [tmp + ".o"]
        for i, f in enumerate(plain):    # not instrumented: its calls are atomic steps
            objs.append(tmp + ".p%d.o" % i)
            r = sh(["g++", "-std=c++11", "-O1", "-g", "-fPIC", "-w"] + inc + ["-c", f, "-o", objs[-1]])
            if r.returncode: raise CheckError("build failed:\n" + r.stdout[-4000:])
        r = sh(["g++", "-shared", "-Wl,-z,now", "-o", tmp + ".so"] + objs)
        if r.returncode: raise CheckError("link failed:\n" + r.stdout[-4000:])
        for o in objs: os.remove(o)
        os.rename(tmp + ".so", out)
    return out

def build_suts(specs):
    with ThreadPoolExecutor(NPROC) as ex:
        fs = [ex.submit(lambda kw: build_sut(**kw), s) for s in specs]
        l = ex.submit(build_lab)
        return l.result(), [f.result() for f in fs]

# ------------------------------------------------------------------ laboratory runs
class Rec:
    __slots__ = ("n", "type", "prog", "mode", "choices", "trace", "sut", "progtext", "opts")

def run_lab(sut, programs, types, work, tag, maxr=2000, rand=50, pb=2, hb=0, uad=0, wall=300, steps=30000, seed=None):
    """programs: list of program texts (first line starts with 'P <id>').  Returns records of distinct traces."""
    lab = build_lab()
    pf = os.path.join(work, tag + ".prog")
    open(pf, "w").write("\n".join(programs) + "\n")
    byid = {p.split()[1]: p for p in programs}
    def one(i):
        out = os.path.join(work, "%s.%d.out" % (tag, i))
        cmd = [lab, "--sut", sut, "--prog", pf, "--types", ",".join(types), "--out", out, "--max", str(maxr), "--rand", str(rand),
               "--pb", str(pb), "--hb", str(hb), "--uad", str(uad), "--seed", str(seed if seed is not None else SEED), "--shard", str(i), "--nshard", str(NPROC), "--wall", str(wall), "--steps", str(steps)]
        r = sh(cmd)
        if r.returncode: raise CheckError("laboratory failed (%d): %s" % (r.returncode, r.stdout[-2000:]))
        return out
    with ThreadPoolExecutor(NPROC) as ex: outs = list(ex.map(one, range(NPROC)))
    recs = []; stats = dict(total=0, unique=0, truncated=0, maxdepth=0, timeup=0, jobs=0)
    for o in outs:
        with open(o) as f:
            head = f.readline()
            for k, v in re.findall(r"(\w+)=(\d+)", head):
                if k in ("maxdepth",): stats[k] = max(stats[k], int(v))
                elif k == "jobs": stats[k] = int(v)
                else: stats[k] += int(v)
            for line in f:
                a = line.rstrip("\n").split("\t")
                r = Rec(); r.n = int(a[0]); r.type, r.prog, r.mode, r.choices, r.trace = a[1], a[2], a[3], a[4], a[5]
                r.sut = sut; r.progtext = byid[r.prog]; r.opts = dict(pb=pb, hb=hb, uad=uad, steps=steps)
                recs.append(r)
        os.remove(o)
    os.remove(pf)
    return recs, stats

def build_driver(name, std="c++11", defs=(), ndebug=True, extra_inc=(), libs=(), instrument=False):
    """Compile lab/drv_<name>.cpp, a driver that replays call sequences on the real classes."""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(LAB, "drv_%s.cpp" % name)
    deps = [src] + _listdir(LAB, ".hpp") + ([src[:-4] + "_rt.cpp"] if instrument else []) + _listdir(os.path.join(REPO, "include"), ".hpp")
    flags = ["-std=" + std, "-O1", "-g", "-w", "-pthread"] + (["-DINSTR"] if instrument else []) + list(defs) + (["-DNDEBUG"] if ndebug else [])
    out = os.path.join(BUILD, "drv_%s-%s%s" % (name, filehash(deps), hashlib.sha256(" ".join(flags).encode()).hexdigest()[:8]))
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        inc = ["-I" + d for d in extra_inc] + ["-I" + os.path.join(REPO, "include")]
        if instrument:   # the driver itself implements the instrumentation's interface
            r = sh(["g++"] + flags + inc + ["-fsanitize=thread", "-fno-sanitize-recover", "-c", src, "-o", tmp + ".o"])
            if not r.returncode: r = sh(["g++", "-O1", "-w", "-pthread", tmp + ".o", src[:-4] + "_rt.cpp", "-o", tmp] + list(libs)); os.remove(tmp + ".o")
        else: r = sh(["g++"] + flags + inc + [src, "-o", tmp] + list(libs))
        if r.returncode: raise CheckError("build of the driver failed:\n" + r.stdout[-4000:])
        os.rename(tmp, out)
    return out

def run_driver(exe, programs, typ):
    """programs: (id, text of operations).  Returns records."""
    r = subprocess.run([exe], input="".join("%s %s\n" % p for p in programs), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode: raise CheckError("driver failed (%d): %s" % (r.returncode, r.stderr[-1000:]))
    res = dict(l.split("\t", 1) if "\t" in l else (l, "") for l in r.stdout.splitlines())
    recs = []
    for i, text in programs:
        if i not in res: raise CheckError("driver lost program %s" % i)
        c = Rec(); c.n = 1; c.type = typ; c.prog = i; c.mode = "driver"; c.choices = ""; c.trace = res[i]; c.sut = exe; c.progtext = text; c.opts = {}
        recs.append(c)
    return recs

def replay(rec, work, verbose=0):
    if rec.mode == "driver": return run_driver(rec.sut, [("r", rec.progtext)], rec.type)[0].trace, ""
    lab = build_lab()
    fd, pf = tempfile.mkstemp(suffix=".prog", dir=work); os.close(fd)
    open(pf, "w").write(rec.progtext + "\n")
    r = subprocess.run([lab, "--sut", rec.sut, "--prog", pf, "--types", rec.type, "--replay", rec.choices or ",", "--mode", rec.mode,
            "--pb", str(rec.opts["pb"]), "--hb", str(rec.opts["hb"]), "--uad", str(rec.opts["uad"]), "--steps", str(rec.opts["steps"]), "--verbose", str(verbose)],
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    os.remove(pf)
    lines = r.stdout.strip("\n").split("\n")
    return (lines[1] if rec.opts["hb"] and len(lines) > 1 else lines[0]), r.stderr

# ------------------------------------------------------------------ tries and TLC
# An event is a tuple (k, t, o, op, m, f, a, s): kind, thread, object, operation, mode, flag, number, set of threads.
FIELDS = ("k", "t", "o", "op", "m", "f", "a", "s")
def event(k, t=0, o=0, op="", m="", f=False, a=0, s=()):
    return (k, t, o, op, m, f, a, tuple(s))

def build_trie(traces, calls=("c",)):
    """traces: list of lists of events.  Returns (json object, leaf index per trace)."""
    evs, evidx = [], {}
    kid = [[]]; nev = [1]; child = [dict()]
    leafof = []
    for tr in traces:
        cur = 0
        for e in tr:
            ei = evidx.get(e)
            if ei is None:
                ei = evidx[e] = len(evs) + 1; evs.append(e)
            nx = child[cur].get(ei)
            if nx is None:
                nx = len(kid); kid.append([]); nev.append(ei); child.append({})
                child[cur][ei] = nx; kid[cur].append(nx + 1)
            cur = nx
        leafof.append(cur + 1)
    intl = [any(evs[nev[c - 1] - 1][0] not in calls for c in k) for k in kid]
    leaves = sorted(set(leafof))
    return dict(ev=[dict(zip(FIELDS, e)) for e in evs], kid=kid, nev=nev, int=intl, leaf=leaves), leafof

def tlc(module, cfg, work, env=None, workers=1, heap="2g", timeout=800, extra=()):
    """Run TLC in a private directory with copies of the specification modules."""
    d = tempfile.mkdtemp(prefix="tlc", dir=work)
    for f in _listdir(SPEC, ".tla"): os.symlink(f, os.path.join(d, os.path.basename(f)))
    open(os.path.join(d, "run.cfg"), "w").write(cfg)
    e = dict(os.environ); e.update(env or {})
    cp = ":".join([JAR] + [os.path.join(os.path.dirname(JAR), f) for f in os.listdir(os.path.dirname(JAR)) if f.endswith(".jar") and f != os.path.basename(JAR)])
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Djava.io.tmpdir=" + d, "-Xss16m", "-XX:TieredStopAtLevel=1", "-cp", cp, "tlc2.TLC", "-metadir", os.path.join(d, "meta"),
           "-workers", str(workers), "-config", "run.cfg", "-noGenerateSpecTE"] + list(extra) + [module]
    try:
        r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or ""), -9
    return rc, out, d

def tlc_counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def cfg_text(spec, consts, constraint=None, invariants=(), properties=(), post=None, view=None, deadlock=False, actionprops=()):
    s = "SPECIFICATION %s\n" % spec
    if consts:
        s += "CONSTANTS\n" + "".join("  %s <- %s\n" % (k, v[1]) if isinstance(v, tuple) else "  %s = %s\n" % (k, v) for k, v in consts.items())
    if constraint: s += "CONSTRAINT %s\n" % constraint
    if invariants: s += "INVARIANTS " + " ".join(invariants) + "\n"
    if properties: s += "PROPERTIES " + " ".join(properties) + "\n"
    if post: s += "POSTCONDITION %s\n" % post
    if view: s += "VIEW %s\n" % view
    s += "CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE")
    return s

def check_traces(module, consts, traces, work, chunks=None, calls=("c",), timeout=800):
    """Check event lists against a trace specification.  Returns (set of rejected indices, generated, distinct)."""
    if not traces: return set(), 0, 0
    uniq = {}
    for i, t in enumerate(traces): uniq.setdefault(tuple(t), []).append(i)
    keys = sorted(uniq)
    ntot = sum(len(traces[uniq[k][0]]) for k in keys)
    nch = chunks or max(1, min(NPROC, ntot // 40000 + 1))
    groups = [keys[len(keys) * i // nch: len(keys) * (i + 1) // nch] for i in range(nch)]
    cfg = cfg_text("TSpec", consts, constraint="Mark", post="TraceResult")
    def one(g):
        if not g: return set(), 0, 0
        trs = [traces[uniq[k][0]] for k in g]
        trie, leafof = build_trie(trs, calls)
        f = tempfile.NamedTemporaryFile("w", suffix=".json", dir=work, delete=False)
        json.dump(trie, f); f.close()
        rc, out, d = tlc(module, cfg, work, env=dict(TRIE=f.name), timeout=timeout)
        m = re.search(r'UNREACHED \{([^}]*)\}', out)
        if m is None or "Error:" in out:
            raise CheckError("TLC failed on %s (rc %s):\n%s" % (module, rc, out[-3000:]))
        bad_leaves = set(trie["leaf"][int(x) - 1] for x in m.group(1).split(",") if x.strip())
        gen, dist = tlc_counts(out)
        shutil.rmtree(d, ignore_errors=True); os.remove(f.name)
        bad = set()
        for k, lf in zip(g, leafof):
            if lf in bad_leaves: bad.update(uniq[k])
        return bad, gen, dist
    bad, gen, dist = set(), 0, 0
    with ThreadPoolExecutor(NPROC) as ex:
        for b, g, d in ex.map(one, groups): bad |= b; gen += g; dist += d
    return bad, gen, dist

def longest_prefix(module, consts, trace, work, calls=("c",)):
    """How many events of a rejected trace the specification can follow."""
    lo, hi = 0, len(trace)
    # all prefixes in one trie: the trace itself; mark inner nodes as leaves
    trie, _ = build_trie([trace], calls)
    trie["leaf"] = list(range(1, len(trie["nev"]) + 1))
    f = tempfile.NamedTemporaryFile("w", suffix=".json", dir=work, delete=False); json.dump(trie, f); f.close()
    rc, out, d = tlc(module, cfg_text("TSpec", consts, constraint="Mark", post="TraceResult"), work, env=dict(TRIE=f.name))
    shutil.rmtree(d, ignore_errors=True); os.remove(f.name)
    m = re.search(r'UNREACHED \{([^}]*)\}', out)
    if not m: return -1
    bad = [int(x) for x in m.group(1).split(",") if x.strip()]
    return (min(bad) - 2) if bad else len(trace)
