"""C11 and C12: the checked mutexes, misuse and deadlock detection, against YamcChecked."""
import collections, random
from framework import *
import sync
from checks_sync import par, setlit, threads
from locks import OPS, MS

CONF = {1: [("x", False)] * 3, 2: [("reader", False), ("x", False), ("writer", False)], 3: [("x", True), ("writer", False), ("reader", False)], 4: [("writer", False), ("reader", False), ("x", True)]}
KIND = {("x", False): ["mutex", "timed_mutex"], ("x", True): ["recursive_mutex", "recursive_timed_mutex"],
        ("reader", False): ["shared_mutex", "shared_timed_mutex", "shared_mutex.rp", "shared_timed_mutex.rp"], ("writer", False): ["shared_mutex.wp", "shared_timed_mutex.wp"]}
CFG = {t: k for k, ts in KIND.items() for t in ts}
OBL = ("excl", "live", "try", "misuse", "report", "detect")

def gen(ck, conf, nobj, n, misuse, tm, depth, races, mem=0, **kw):
    c = {"Objects": "{%s}" % ",".join(str(i + 1) for i in range(nobj)), "Obl": setlit(OBL), "Abort": "FALSE", "Detect": "TRUE", "WithMisuse": str(misuse).upper(), "Timed": str(tm).upper(), "MaxNest": 2}
    return sync.gen(ck.work, "YamcCheckedGen", c, depth, races, mem, n=n, subst={"Pols": "Conf%d" % conf}, entry=r'<<t(\d+), "(\w+)", "(\w*)", (\d+)>>', **kw)

CODE = {("lock", "X"): 1, ("try", "X"): 2, ("unlock", "X"): 3, ("lock", "S"): 4, ("try", "S"): 5, ("unlock", "S"): 6, ("dtor", "X"): 50}
def render(hist, pid, n, conf, nobj, tm, rnd, force, follow, flags=""):
    objs = [rnd.choice([t for t in KIND[CONF[conf][i]] if not tm or "timed" in t]) for i in range(nobj)]
    T = [[] for _ in range(n)]; C = []
    sfx = ":1" if force else ""
    for i, step in enumerate(hist):
        race = len(step) > 1
        for t, op, m, o in step:
            if op == "tick": C.append("91:0:0:%d" % i); continue
            o -= 1
            if op == "timed":
                arg = rnd.choice([0, -5 * MS, 10 * MS, 10 * MS, -10**16]) if race else 10 * MS + i * MS
                T[t].append("%d:%d:%d:%d%s" % ((7 if m == "X" else 11) + rnd.randrange(4), o, arg, i, sfx))
            else: T[t].append("%d:%d:0:%d%s" % (CODE[(op, m)], o, i, sfx))
            if race and follow:
                k = rnd.randrange(6)
                if op in ("lock", "try", "timed") and k <= 1: T[t].append("%d:%d:0" % (3 if m == "X" else 6, o))
                elif op == "unlock" and k <= 2: T[t].append("%d:%d:0" % (rnd.choice([1, 1, 2, 4, 4, 5]), rnd.randrange(nobj)))
                elif k == 5: T[t].append("%d:%d:0" % (rnd.choice([1, 4]), rnd.randrange(nobj)))
    for i in range(n): T[i].append("90:0:0:%d" % (1000 + i))
    for o in range(nobj): T[0] += ["2:%d:0:%d" % (o, 2000 + 2 * o), "3:%d:0:%d" % (o, 2001 + 2 * o)]
    return "P %s objs=%s %s\n" % (pid, ",".join(objs), flags) + "\n".join("T " + " ".join(x) for x in T) + ("\nC " + " ".join(C) if C else "")

def keyed(r): return "i." + re.search(r"objs=(\S+)", r.progtext).group(1).replace(".", "/") + " " + r.trace
def convert(trace):
    evs = []
    for tok in trace.split():
        a = tok.split("."); k = tok[0]
        if k == "i":
            for o, t in enumerate(a[1].replace("/", ".").split(",")):
                pol, rec = CFG[t]; evs.append(event("i", 0, o, pol, "", rec))
        elif k == "c":
            op = int(a[3])
            if op == 50: evs.append(event("c", int(a[1]), int(a[2]), "dtor", "X")); continue
            k2, m = OPS[op]
            evs.append(event("c", int(a[1]), int(a[2]), k2, m, k2 == "timed" and a[4] == "1"))
        elif k == "r": evs.append(event("r", int(a[1]), a=int(a[2])))
        elif k in "qk": evs.append(event(k, s=[b for b in range(16) if int(a[1]) >> b & 1]))
        elif k == "x" and a[2] == "a": evs.append(event("a", int(a[1])))
        elif k == "j": pass
        else: evs.append(event("x"))
    return evs

def go(ck, sut, jobs, obl, nobj, nthr, what, abort=False, detect=True, maxr=150, rand=15, pb=2, build=None):
    recs, st = run_lab(sut, jobs, ["mutex"], ck.work, "d", maxr=maxr, rand=rand, pb=pb, wall=ck.pick(100, 400))
    for r in recs: r.type = "checked"
    ck.add_stats(recs, st, len(jobs))
    for r in recs: r.type = "mutex"
    ck.validate("YamcCheckedTrace", {"Threads": threads(nthr), "Objects": threads(nobj), "Obl": setlit(obl), "Abort": str(abort).upper(), "Detect": str(detect).upper()}, recs, convert, what=what, build=build, tracekey=keyed)

MODES = {"checked": ((), False, True), "checked_abort": (("-DYAMC_CHECKED_CALL_ABORT=1",), True, True), "checked_nodet": (("-DYAMC_CHECKED_DETECT_DEADLOCK=0",), False, False),
         "checked_abort_nodet": (("-DYAMC_CHECKED_CALL_ABORT=1", "-DYAMC_CHECKED_DETECT_DEADLOCK=0"), True, False)}
def suts(names):
    _, ps = build_suts([dict(name=n, defs=MODES[n][0], srcname="checked") for n in names])
    return dict(zip(names, ps))

def mc(ck, confs):
    for conf, nobj, n, mis, tm in confs:
        ck.model_check("YamcCheckedMC", {"Threads": threads(n), "Objects": "{%s}" % ",".join(str(i + 1) for i in range(nobj)), "Obl": setlit(OBL), "Abort": "FALSE", "Detect": "TRUE", "Pols": ("<-", "Conf%d" % conf),
                       "WithMisuse": str(mis).upper(), "Timed": str(tm).upper(), "MaxNest": 2}, ["TypeOK", "NoDeadlock", "SomebodyCanGo"], ["MisuseChangesNothing", "CorrectUseNotReported", "ReportChangesNothing"], spec="MSpec",
                       name="conf=%d objects=%d threads=%d misuse=%s timed=%s" % (conf, nobj, n, mis, tm))

def C11(ck):
    mc(ck, [(2, 1, 3, True, True), (3, 1, 3, True, True), (2, 2, 2, True, False), (1, 2, 2, True, True)])
    S = suts(list(MODES)); k = ck.pick(1, 6)
    what = "misuse was not reported as documented, had an effect, or correct use was reported"
    # every state of one or two mutexes, then any operation at all, by any two threads at once
    confs = [(1, 1), (2, 1), (3, 1), (4, 1), (1, 2), (2, 2), (3, 2)]
    hs = par([lambda c=c: gen(ck, c[0], c[1], 3, True, True, 4 if c[1] == 1 else ck.pick(3, 4), 2, ck.pick(0, 1) if c[1] == 1 else 0, sample=150 * k, seed=c[0]) for c in confs])
    hs += par([lambda c=c: gen(ck, c[0], c[1], 3, True, True, 12, 2, 0, sample=50 * k, simulate=60 * k, seed=c[0] + 10) for c in confs])
    progs = collections.defaultdict(list)
    rnd = random.Random(SEED)
    for j, ((conf, nobj), h) in enumerate(zip(confs + confs, hs)):
        for i, x in enumerate(h):
            mode = "checked" if i % 2 else rnd.choice(list(MODES))
            progs[mode].append(render(x, "C11.%d.%d" % (j, i), 3, conf, nobj, rnd.random() < 0.8, rnd, True, False, "rtick=%d" % (i % 2)))
    for mode, ps in progs.items():
        go(ck, S[mode], ps, ("excl", "live", "try", "misuse"), 2, 3, what, MODES[mode][1], MODES[mode][2], maxr=ck.pick(80, 400), rand=ck.pick(8, 40), build=dict(name=mode, defs=MODES[mode][0], srcname="checked"))

def C12(ck):
    mc(ck, [(1, 2, 3, False, False), (2, 2, 3, False, False), (3, 2, 3, False, False)] + ([(1, 3, 3, False, False)] if ck.thorough else []))
    S = suts(["checked", "checked_abort"]); k = ck.pick(1, 6)
    what = "a deadlock was not reported, or reported although waiting closed no cycle, or left a trace"
    obl = ("excl", "live", "report", "detect")
    nlock = lambda h: sum(1 for s in h for _, o, _, _ in s if o in ("lock", "timed")) >= 3
    confs = [(1, 2, 3, False), (2, 2, 3, True), (3, 2, 3, False), (4, 2, 3, True), (1, 3, 3, False), (2, 3, 3, False), (3, 3, 3, False), (4, 3, 3, False)]
    hs = par([lambda c=c: gen(ck, c[0], c[1], c[2], False, c[3], 5 if c[1] == 2 or c[0] == 1 else 4, 2, 0, sample=130 * k, seed=c[0], hist_ok=nlock) for c in confs])
    hs += par([lambda c=c: gen(ck, c[0], c[1], c[2], False, c[3], 5, 3, 0, sample=100 * k, seed=c[0] + 5, hist_ok=nlock) for c in confs[4:5]])
    hs += par([lambda c=c: gen(ck, c[0], c[1], 4, False, c[3], 14, 2, 0, sample=50 * k, simulate=60 * k, seed=c[0] + 10, hist_ok=nlock) for c in confs])
    cs = confs + confs[4:5] + [(a, b, 4, d) for a, b, _, d in confs]
    progs = collections.defaultdict(list)
    rnd = random.Random(SEED + 1)
    for j, (c, h) in enumerate(zip(cs, hs)):
        for i, x in enumerate(h):
            mode = "checked_abort" if i % 6 == 0 else "checked"
            progs[mode].append(render(x, "C12.%d.%d" % (j, i), c[2], c[0], c[1], c[3], rnd, False, True, "spur=%d" % (i % 2)))
    for mode, ps in progs.items():
        go(ck, S[mode], ps, obl, 3, 4, what, MODES[mode][1], MODES[mode][2], maxr=ck.pick(120, 600), rand=ck.pick(12, 60), build=dict(name=mode, defs=MODES[mode][0], srcname="checked"))
    # rings: everybody owns one mutex and asks for the next one; or nearly so
    rings = []
    for n in range(2, 9):
        for i in range(ck.pick(14, 60)):
            kind = rnd.choice(["x", "x", "mixed"]); order = list(range(n)); rnd.shuffle(order)
            objs = [rnd.choice(KIND[("x", bool(rnd.randrange(2)))] if kind == "x" else sum(KIND.values(), [])) for _ in range(n)]
            broken = rnd.choice([None, None, "open", "timed"]); b = rnd.randrange(n); T = []
            for t in range(n):
                so = "shared" in objs[t] and rnd.random() < .5; nx = (t + 1) % n; sn = "shared" in objs[nx] and rnd.random() < .5
                ops = ["%d:%d:0:%d" % (4 if so else 1, t, t)]
                if t == b and broken == "open": pass
                elif t == b and broken == "timed" and "timed" in objs[nx]: ops.append("%d:%d:%d:%d" % (11 if sn else 7, nx, 3600000 * MS, n + order[t]))
                else: ops.append("%d:%d:0:%d" % (4 if sn else 1, nx, n + order[t]))
                T.append(ops + ["90:0:0:%d" % (3 * n + order[(t * 7 + i) % n])])
            if i % 3 == 0 and n > 2:     # everybody asks at the same time
                T = [[re.sub(r":\d+$", ":%d" % n, x) if j == 1 and not x.startswith("90") else x for j, x in enumerate(ops)] for ops in T]
            rings.append("P C12r%d.%d objs=%s spur=%d\n" % (n, i, ",".join(objs), i % 2) + "\n".join("T " + " ".join(x) for x in T))
    go(ck, S["checked"], rings, obl, 8, 8, what, maxr=ck.pick(12, 60), rand=ck.pick(4, 30), pb=1, build=dict(name="checked", srcname="checked"))
