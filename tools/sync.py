"""Semaphores, latches, barriers: programs and conversion of recorded executions."""
import random, re
from vlib import *
MS = 1000000
SEMS = {"sem.counting": 6, "sem.counting5": 5, "sem.binary": 1, "posix.counting_semaphore": 6, "posix.counting_semaphore5": 5, "posix.binary_semaphore": 1}
BARRIERS = ["barrier.callback", "barrier.default"]

def gen(work, module, consts, depth, races, mem, n=3, sample=None, seed=0, simulate=None, hist_ok=None, subst={}, entry=r'<<t(\d+), "(\w+)", (-?\d+)>>', fixsets=False, spec="GSpec"):
    c = {"Threads": "{%s}" % ",".join("t%d" % i for i in range(n)), "Depth": depth, "Races": races, "Memory": mem}; c.update(consts)
    cfg = "SPECIFICATION %s\nCONSTANTS\n" % spec + "".join("  %s = %s\n" % kv for kv in c.items()) + "".join("  t%d = t%d\n" % (i, i) for i in range(n)) + "".join("  %s <- %s\n" % kv for kv in subst.items())
    cfg += "VIEW gview\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" + ("" if simulate else "SYMMETRY Sym\n")
    extra = ["-simulate", "num=%d" % simulate, "-depth", str(depth * 12), "-seed", str(SEED * 7919 + seed)] if simulate else []
    rc, out, d = tlc(module, cfg, work, extra=extra)
    shutil.rmtree(d, ignore_errors=True)
    progs = sorted(set(re.findall(r'<<"PROG", "(.*)">>', out)))
    if not progs or "Error:" in out: raise CheckError("no programs generated by %s:\n%s" % (module, out[-2000:]))
    if fixsets: progs = [re.sub(r"\{([\d, ]*)\}", r"[\1]", p) for p in progs]     # sets of numbers inside the steps
    hs = [[[(int(a[0]), a[1]) + tuple(int(v) if re.fullmatch(r"-?\d+", v) else v for v in a[2:]) for a in re.findall(entry, g)] for g in re.findall(r"\{([^}]*)\}", p.replace("\\", ""))] for p in progs]
    if simulate:
        keep = []; hs.sort(key=lambda h: json.dumps(h))
        for a, b in zip(hs, hs[1:] + [None]):
            if b is None or b[:len(a)] != a: keep.append(a)
        hs = keep
    if hist_ok: hs = [h for h in hs if hist_ok(h)]
    if sample and len(hs) > sample:
        rnd = random.Random(SEED * 1000003 + seed); rnd.shuffle(hs); hs = hs[:sample]
    return hs

# large numbers are represented as HI per 2^31 (TLC's integers have 32 bits)
HI = 100000
def enc(v):
    h = (v + (1 << 30)) >> 31
    return h * HI + (v - (h << 31))

SOPS = {20: "acq", 21: "try", 22: "rel", 23: "timed", 24: "timed", 25: "timed", 26: "timed"}
LOPS = {30: "cdown", 31: "try", 32: "wait", 33: "arrwait"}
BOPS = {40: "arrive", 41: "wait", 42: "arrwait", 43: "drop", 44: "cycle", 45: "cycle"}
def convert(ops, cycles=None):
    def conv(trace):
        # the laboratory's programs declare the initial value in a prefix added by the caller: "i.<value> ..."
        evs = []; skip = {}
        for tok in trace.split():
            a = tok.split("."); k = tok[0]
            if k == "i": evs.append(event("i", a=enc(int(a[1]))))
            elif k == "c":
                o = int(a[3])
                if o not in ops: raise CheckError("token %s in %s" % (tok, trace))
                if ops[o] == "cycle": skip[a[1]] = 4 if o == 45 else int(a[4]); continue
                timed = ops[o] == "timed"
                evs.append(event("c", int(a[1]), 0, ops[o], "", timed and a[4] == "1", 0 if timed or ops[o] in ("acq", "try", "wait") else 1 if o in (42, 43) else enc(int(a[4]))))
            elif k == "r":
                if a[1] in skip: del skip[a[1]]; continue
                if int(a[2]) >= 2: evs.append(event("e", int(a[1]), a=int(a[2])))
                else: evs.append(event("r", int(a[1]), f=a[2] == "1"))
            elif k in "qk": evs.append(event(k, s=[b for b in range(16) if int(a[1]) >> b & 1]))
            elif k == "Y": evs.append(event("Y", int(a[1]), f=int(a[2]) == skip[a[1]], a=skip[a[1]]))
            elif k in "BE": evs.append(event(k, int(a[1])))
            elif k == "j": pass
            elif k == "x": evs.append(event("x"))
            else: evs.append(event("?"))
        return evs
    conv.name = "sync:convert:" + {20: "SOPS", 30: "LOPS", 40: "BOPS"}[min(ops)]
    return conv
def keyed(r):   # put the initial value in front
    return "i.%s " % re.search(r"args=(\S+)", r.progtext).group(1) + r.trace

def prog(pid, T, arg, flags="", C=None):
    return "P %s objs=* args=%d %s\n" % (pid, arg, flags) + "\n".join("T " + " ".join(t) for t in T) + ("\nC " + " ".join(C) if C else "")

class Steps:
    """Operations per thread; with probability merge a step does not wait until the previous one has settled."""
    def __init__(self, n, rnd, merge): self.T = [[] for _ in range(n)]; self.rnd = rnd; self.merge = merge; self.g = 0; self.ing = set()
    def step(self, i):
        if i == 0 or not self.merge or self.rnd.random() >= self.merge: self.g = i; self.ing = set()
    def put(self, t, txt): self.T[t].append(txt if t in self.ing else "%s:%d" % (txt, self.g)); self.ing.add(t)

def render_sem(hist, pid, n, n0, maxn, rnd, follow=True, flags="", merge=0.0):
    S = Steps(n, rnd, merge); T = S.T; C = []
    big = maxn > 2
    for i, step in enumerate(hist):
        race = len(step) > 1; S.step(i)
        for t, op, a in step:
            if op == "tick": C.append("91:0:0:%d" % S.g); continue
            if op == "timed":
                arg = rnd.choice([0, -5 * MS, 10 * MS, 10 * MS, -10**16]) if race else 10 * MS + i * MS
                S.put(t, "%d:0:%d" % (23 + rnd.randrange(4), arg))
            else: S.put(t, "%d:0:%d" % (dict(acq=20, rel=22)[op] if op != "try" else 21, a))
            if race and follow:
                k = rnd.randrange(5)
                if op == "acq" and k <= 1: T[t].append("22:0:1")
                elif big and op in ("try", "timed") and k == 0: T[t].append("22:0:1")
                elif op == "rel" and k <= 1: T[t].append("%d:0:%d" % (rnd.choice([(20, 0), (21, 0), (23, 10 * MS), (23, 0)])))
    d = []
    if big: d += ["22:0:1:%d" % (1000 + i) for i in range(3)]
    d += ["21:0:0:%d" % (2000 + i) for i in range(8 if big else 2)]
    return prog(pid, T + [d], n0, flags, C)

def render_latch(hist, pid, n, c0, rnd, flags="", merge=0.0):
    S = Steps(n, rnd, merge); T = S.T
    code = dict(cdown=30, wait=32, arrwait=33); code["try"] = 31
    left = c0 - sum(a for s in hist for _, _, a in s)
    for i, step in enumerate(hist):
        S.step(i)
        for t, op, a in step:
            S.put(t, "%d:0:%d" % (code[op], a))
            if len(step) > 1:
                k = rnd.randrange(4)
                if k == 0: T[t].append("31:0:0")
                elif k == 1: T[t].append("32:0:0")
                elif k == 2 and left > 0: left -= 1; T[t].append("%d:0:1" % rnd.choice([30, 33]))
    d = ["31:0:0:1000"] + ["30:0:1:%d" % (1001 + i) for i in range(left)] + ["31:0:0:2000", "32:0:0:2001"]
    return prog(pid, T + [d], c0, flags)

def render_barrier(hist, pid, n, e0, rnd, flags="", order=None, merge=0.0):
    S = Steps(n, rnd, merge); T = S.T
    code = dict(arrive=40, wait=41, arrwait=42, drop=43)
    drops = sum(1 for s in hist for _, op, _ in s if op == "drop")
    if e0 - drops < 1 or any(x > 1 for s in hist for _, _, x in s): S.merge = 0     # another order could break the precondition
    for i, step in enumerate(hist):
        S.step(i)
        for t, op, a in step:
            S.put(t, "%d:0:%d" % (code[op], a))
            if len(step) > 1 and e0 - drops >= 1 and all(x <= 1 for _, _, x in step):
                k = rnd.randrange(6)
                if op == "arrive" and k <= 2: T[t].append("41:0:0")
                elif k == 3: T[t].append("42:0:1")
                elif k == 4: T[t] += ["40:0:1", "41:0:0"]
                elif k == 5: T[t] += ["42:0:1", "42:0:1"]
    # afterwards one more thread completes phases as long as that is legal, then everybody waits with its token
    d = []
    if e0 - drops >= 1: d = ["40:0:1:%d" % (1000 + i) for i in range(2 * (e0 - drops))]
    for i in range(n): T[i].append("41:0:0:%d" % (2000 + i))
    return prog(pid, T + [d], e0, flags)
