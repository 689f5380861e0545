"""The lock family: types, programs from YamcLockGen, recorded executions -> YamcLock events."""
import random, re
from vlib import *

EXCL = {}   # type -> (policy, recursive)
for f in ("spin", "spin_weak", "spin_ttas"):
    for b in ("mutex", "exp2", "yield", "busy"): EXCL["%s.%s" % (f, b)] = ("none", False)
for fam, pol in (("checked", "none"), ("fair", "fifo"), ("alternate", "none")):
    for m in ("mutex", "timed_mutex"): EXCL["%s.%s" % (fam, m)] = (pol, False)
    for m in ("recursive_mutex", "recursive_timed_mutex"): EXCL["%s.%s" % (fam, m)] = (pol, True)
EXCL["posix.native_mutex"] = EXCL["posix.spinlock"] = ("none", False)
EXCL["posix.native_recursive_mutex"] = ("none", True)
SHARED = {}
for m in ("shared_mutex", "shared_timed_mutex"):
    for fam in ("checked", "alternate"):
        SHARED["%s.%s" % (fam, m)] = SHARED["%s.%s.rp" % (fam, m)] = ("reader", False)
        SHARED["%s.%s.wp" % (fam, m)] = ("writer", False)
    SHARED["fair." + m] = SHARED["fair.%s.phase" % m] = ("phase", False)
    SHARED["fair.%s.task" % m] = ("task", False)
SHARED["posix.rwlock"] = ("none", False)
POSIX_TIMED = ["posix.native_mutex", "posix.native_recursive_mutex", "posix.rwlock"]
def sut_of(t): return "shared" if t in SHARED else "excl"
def config(t): return SHARED.get(t) or EXCL[t]
def timed(t): return "timed" in t or t in POSIX_TIMED
def spin(t): return t.startswith("spin")
ALL = list(EXCL) + list(SHARED)

ALLOBL = ("excl", "order", "liveX", "liveS", "share", "tryX", "tryS", "block", "early", "false", "late")
def setlit(xs): return "{" + ", ".join('"%s"' % x for x in xs) + "}"

# ------------------------------------------------------------------ programs
def gen_cfg(pol, rec, shared, tm, n, depth, races, mem, spec="GSpec"):
    return ("SPECIFICATION %s\n" % spec + "CONSTANTS\n  Threads = {%s}\n  Policy = \"%s\"\n  Recursive = %s\n  Obl = %s\n  Depth = %d\n  MaxNest = 3\n  Shared = %s\n"
            "  Timed = %s\n  Races = %d\n  Memory = %d\nVIEW gview\nSYMMETRY Sym\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" %
            (",".join("t%d" % i for i in range(n)), pol, str(rec).upper(), setlit(ALLOBL), depth, str(shared).upper(), str(tm).upper(), races, mem))

def gen_programs(work, pol, rec, shared, tm, n=3, depth=6, races=2, mem=0, sample=None, seed=0, simulate=None, module="YamcLockGen", spec="GSpec"):
    """Operation histories printed by TLC: list of steps, each a list of (thread, op, mode)."""
    extra = []
    if simulate: extra = ["-simulate", "num=%d" % simulate, "-depth", str(depth * 12), "-seed", str(SEED * 7919 + seed)]
    cfg = gen_cfg(pol, rec, shared, tm, n, depth, races, mem, spec)
    if simulate: cfg = cfg.replace("SYMMETRY Sym\n", "")
    rc, out, d = tlc(module, cfg, work, extra=extra)
    shutil.rmtree(d, ignore_errors=True)
    progs = sorted(set(re.findall(r'<<"PROG", "(.*)">>', out)))
    if not progs or "Error:" in out: raise CheckError("no programs generated:\n" + out[-2000:])
    hs = []
    for p in progs:
        p = p.replace("\\", "")
        steps = []
        for g in re.findall(r"\{([^}]*)\}", p):
            steps.append([(int(a), b, c) for a, b, c in re.findall(r'<<t(\d+), "(\w+)", "(\w*)">>', g)])
        hs.append(steps)
    st = tlc_counts(out)
    if simulate:   # keep maximal histories only
        keep = []
        hs.sort(key=lambda h: json.dumps(h))
        for a, b in zip(hs, hs[1:] + [None]):
            if b is None or b[:len(a)] != a: keep.append(a)
        hs = keep
    if sample and len(hs) > sample:
        rnd = random.Random(SEED * 1000003 + seed); rnd.shuffle(hs); hs = hs[:sample]
    return hs, st

CODE = {("lock", "X"): 1, ("try", "X"): 2, ("unlock", "X"): 3, ("lock", "S"): 4, ("try", "S"): 5, ("unlock", "S"): 6}
MS = 1000000
def render(hist, pid, n, rnd, timedtype, rec, shared, follow=True, probe=True, flags="", jump=False, merge=0.0, warm=()):
    """Turn a history into a laboratory program.  warm: operations of thread 0 beforehand.  With probability merge a step does not wait for the previous one to settle."""
    T = [[] for _ in range(n)]; C = []; b = len(warm); g = b; ing = set()
    for i, w in enumerate(warm): T[0].append("%s:%d" % (w, i))
    def put(t, txt):
        T[t].append(txt if t in ing else "%s:%d" % (txt, g)); ing.add(t)
    for i, step in enumerate(hist):
        race = len(step) > 1
        if i == 0 or rnd.random() >= merge: g = b + i; ing = set()
        for (t, op, m) in step:
            if op == "tick": C.append("91:0:0:%d" % g); continue
            if op in ("timed", "timedlong"):
                base = 7 if m == "X" else 11
                v = base + rnd.randrange(4)
                if race: arg = rnd.choice([0, -5 * MS, 10 * MS, 10 * MS, -10**16])
                else: arg = (10 if op == "timed" else 1000) * MS + i * MS
                put(t, "%d:0:%d" % (v, arg))
            else:
                put(t, "%d:0:0" % CODE[(op, m)])
            if race and follow:
                # what the thread does next, without waiting for the others
                k = rnd.randrange(5)
                rel = 3 if m == "X" else 6
                if op != "unlock" and k <= 2: T[t].append("%d:0:0" % rel)
                elif op == "unlock" and k == 0: T[t].append("%d:0:0" % rnd.choice([1, 2, 4, 5] if shared else [1, 2]))
                elif op == "unlock" and k == 1: T[t] += ["2:0:0", "3:0:0"]
    if jump: C.append("92:0:%d:%d" % (jump, rnd.randrange(len(hist) + 1)))
    order = list(range(n)); rnd.shuffle(order)
    for i, t in enumerate(order): T[t].append("90:0:0:%d" % (1000 + i))
    if probe:
        t = order[0]; T[t] += ["2:0:0:2000", "3:0:0:2001"]
        if shared: T[order[-1]] += ["5:0:0:2002", "6:0:0:2003"]
    C.sort(key=lambda c: int(c.split(":")[3]))
    return "P %s objs=* %s\n" % (pid, flags) + "\n".join("T " + " ".join(x) for x in T) + ("\nC " + " ".join(C) if C else "")

# ------------------------------------------------------------------ conversion
OPS = {1: ("lock", "X"), 2: ("try", "X"), 3: ("unlock", "X"), 4: ("lock", "S"), 5: ("try", "S"), 6: ("unlock", "S")}
OPS.update({15: ("lock", "X"), 16: ("unlock", "X"), 17: ("lock", "S"), 18: ("unlock", "S"), 27: ("cycle", "X"), 28: ("cycle", "S")}); WEIGHTED = (15, 16, 17, 18, 27, 28)
for _o in (7, 8, 9, 10): OPS[_o] = ("timed", "X")
for _o in (11, 12, 13, 14): OPS[_o] = ("timed", "S")
_tok = {}
def convert(trace):
    toks = trace.split()
    evs = []; openc = {}
    for i, tok in enumerate(toks):
        k = tok[0]
        if k == "c":
            a = tok.split(".")
            if int(a[3]) not in OPS: raise CheckError("token %s in %s" % (tok, trace))
            k2, m = OPS[int(a[3])]
            openc[a[1]] = len(evs)
            evs.append(event("c", int(a[1]), 0, k2, m, k2 == "timed" and a[4] == "1", int(a[4]) if int(a[3]) in WEIGHTED else 1))
        elif k == "r":
            a = tok.split(".")
            if a[3] == "1":   # a spurious compare-exchange failure happened during this call
                j = openc[a[1]]
                if evs[j][3] == "try": evs[j] = event("c", int(a[1]), 0, "try", evs[j][4], True, 1)
            if int(a[2]) >= 2: evs.append(event("e", int(a[1]), a=int(a[2])))
            else: evs.append(event("r", int(a[1]), f=a[2] == "1"))
        elif k in "qk":
            mk = int(tok[2:]); evs.append(event(k, s=[b for b in range(16) if mk >> b & 1]))
        elif k == "x": evs.append(event("x"))
        elif k == "j": pass
        else: evs.append(event("?"))
    return evs

def consts(pol, rec, n, obl):
    return {"Threads": "{" + ",".join(str(i) for i in range(n)) + "}", "Policy": '"%s"' % pol, "Recursive": str(rec).upper(), "Obl": setlit(obl)}
