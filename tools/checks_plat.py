"""C23: the wrappers for Windows and Apple over native primitives provided by the laboratory (YamcPlatLock, YamcPlatSem)."""
import random, re
from framework import *
import locks, sync
from locks import MS, consts, gen_programs, render
from checks_sync import par, threads, setlit, SEMALL

LOCKS = {"win.native_mutex": (True, False, True), "win.timed_mutex": (True, False, True), "win.recursive_timed_mutex": (True, False, True), "win.native_mutex/handle": (True, False, True),
         "win.critical_section": (True, False, False), "win.mutex": (True, False, False), "win.recursive_mutex": (True, False, False), "win.critical_section/handle": (True, False, False),
         "win.slim_rwlock": (False, True, False), "win.shared_mutex": (False, True, False), "win.slim_rwlock/handle": (False, True, False),
         "apple.unfair_lock": (False, False, False), "apple.unfair_lock/handle": (False, False, False)}     # recursive, shared, timed
SEMS = {"win.counting_semaphore": 6, "win.counting_semaphore6": 6, "win.binary_semaphore": 1, "gcd.counting_semaphore": 6, "gcd.counting_semaphore6": 6, "gcd.binary_semaphore": 1}
OBL = ("excl", "liveX", "liveS", "share", "tryX", "tryS", "block", "early", "false", "late")
DAY = 24 * 3600 * 1000 * MS

def lconvert(trace):
    evs = []; broken = set()
    for tok in trace.split():
        a = tok.split("."); k = tok[0]
        if k == "c" and a[3] == "80": broken.add(a[1])
        elif k == "r" and a[1] in broken: broken.discard(a[1]); evs.append(event("b", int(a[1]), a=int(a[2])))
        elif k == "F": evs.append(event("F", int(a[1])))
        else: evs += locks.convert(tok) if k != "r" else [event("e", int(a[1]), a=int(a[2])) if int(a[2]) >= 2 else event("r", int(a[1]), f=a[2] == "1")]
    return evs
_sc = sync.convert(sync.SOPS)
def sconvert(trace):
    evs = []; broken = {}
    for tok in trace.split():
        a = tok.split("."); k = tok[0]
        if k == "i": evs.append(event("i", int(a[2]), a=int(a[1])))
        elif k == "c" and a[3] == "80": broken[a[1]] = sync.SOPS[int(a[4])]
        elif k == "r" and a[1] in broken: evs.append(event("b", int(a[1]), op=broken.pop(a[1]), a=int(a[2])))
        elif k == "F": evs.append(event("F", int(a[1])))
        else: evs += _sc(tok)
    return evs
def keyed(r): return "i.%d.%d " % (int(re.search(r"args=(\S+)", r.progtext).group(1)) % 1000, SEMS[r.type] if r.type.startswith("win.") else 0) + r.trace
# start at some distance from a clock tick, as programs do
def shift(p, ns):
    if not ns: return p
    return p.replace("\nC ", "\nC 91:0:%d:0 " % ns) if "\nC " in p else p + "\nC 91:0:%d:0" % ns
OFFS = [0, 1, 300000, 500000, 999999]

def C23(ck):
    for rec, sh in ((True, False), (False, True)):
        c = consts("none", rec, 2 if not ck.thorough else 3, OBL); c.update(MaxNest=2, Shared=str(sh).upper(), MaxFaults=2)
        ck.model_check("YamcPlatLockMC", c, ["Exclusion"], ["FaultNoEffect", "NoLostWakeup", "TimedEnds"], spec="PSpec", name="recursive=%s shared=%s" % (rec, sh))
    ck.model_check("YamcPlatSemMC", {"Threads": threads(2), "Obl": setlit(SEMALL), "N0": 1, "MaxRel": 2, "MaxFaults": 2, "Cap": 2}, ["Conservation"], ["FaultNoEffect", "TimedEnds"], spec="PSpec", constraint="Bound", name="permits=1")
    lab, (sut,) = build_suts([dict(name="plat")]); build = dict(name="plat")
    rnd = random.Random(SEED); k = ck.pick(1, 8); what = "a platform wrapper did not keep the contract"
    # --- mutexes
    kinds = sorted(set(LOCKS.values()))
    plans = {}
    for rec, sh, tm in kinds:
        jobs = [lambda tm2=tm2: gen_programs(ck.work, "none", rec, sh, tm2, n=3, depth=6, races=2, mem=1, sample=90 * k, seed=23)[0] for tm2 in ([False, True] if tm else [False])]
        jobs.append(lambda: gen_programs(ck.work, "none", rec, sh, tm, n=4, depth=14, races=3, mem=0, simulate=40 * k, sample=40 * k, seed=24)[0])
        plans[(rec, sh, tm)] = jobs
    flat = par([j for key in kinds for j in plans[key]]); i = 0
    for rec, sh, tm in kinds:
        js = plans[(rec, sh, tm)]; hs = flat[i:i + len(js)]; i += len(js)
        ps = []
        for j, h in enumerate(hs):
            n = 4 if j == len(hs) - 1 else 3
            for q, x in enumerate(h):
                p = render(x, "C23.%d.%d" % (j, q), n, rnd, tm, rec, sh, flags="args=%d rtick=%d" % (1000 * (q % 3) if tm else 0, int(tm)))
                ps.append(shift(p, rnd.choice(OFFS) if tm else 0))
        if tm:
            # nothing else to wait for: deadlines in the past, now, within and beyond a tick, far and very far away
            for w in (7, 8, 9, 10):
                for a in (0, -1, -1000, -999999, -MS, -MS - 1, -2 * MS, -5 * MS, -3600 * 1000 * MS, -100 * DAY, -10**16, 1000, 400000, MS, MS + 1000, 3 * MS + 500000, 25 * MS, 49 * DAY, 50 * DAY, 4294967295 * MS, 4294967296 * MS, 4294967297 * MS, 100 * DAY, 9 * 4294967296 * MS):
                    for off in rnd.sample(OFFS, 2):
                        # held by the other thread, and free
                        ps.append(shift("P C23.t%d objs=* args=0\nT 1:0:0:1 3:0:0:9\nT %d:0:%d:2 3:0:0 2:0:0:10 3:0:0:11" % (len(ps), w, a), off))
                        ps.append(shift("P C23.t%d objs=* args=0 rtick=1\nT 1:0:0:1 3:0:0:2\nT %d:0:%d:2 3:0:0:3" % (len(ps), w, a), off))
                        ps.append(shift("P C23.t%d objs=* args=0\nT %d:0:%d:1 3:0:0:2" % (len(ps), w, a), off))
                    ps.append("P C23.t%d objs=* args=1000\nT 1:0:0:1 3:0:0:2\nT %d:0:%d:2 3:0:0:3\nT 2:0:0:2 3:0:0" % (len(ps), w, a))
            # adjustments of the wall clock are none of a relative timeout's business
            for w in (7, 8, 10):
                for jmp in (3600 * 1000 * MS, -3600 * 1000 * MS, 15 * MS, -15 * MS):
                    for off in rnd.sample(OFFS, 2):
                        ps.append(shift("P C23.j%d objs=* args=0\nT 1:0:0:1 3:0:0:20\nT %d:0:%d:2 3:0:0:21\nC 92:0:%d:3 91:0:%d:4 91:0:%d:5" % (len(ps), w, 20 * MS, jmp, 10 * MS, 11 * MS), off))
                        ps.append(shift("P C23.j%d objs=* args=0\nT 1:0:0:1 3:0:0:5\nT %d:0:%d:2 3:0:0:21\nC 92:0:%d:3 91:0:%d:4" % (len(ps), w, 20 * MS, jmp, 10 * MS), off))
            ps.append("P C23.b objs=* args=0\nT 80:0:0:0 1:0:0 3:0:0")
        ts = [t for t in LOCKS if LOCKS[t] == (rec, sh, tm)]
        r, st = run_lab(sut, ps, ts, ck.work, "p", maxr=ck.pick(100, 800), rand=ck.pick(10, 60), pb=2, wall=ck.pick(60, 300)); ck.add_stats(r, st, len(ps) * len(ts))
        ck.validate("YamcPlatLockTrace", consts("none", rec, 4, OBL), r, lconvert, what=what, build=build)
    # --- semaphores
    recs = []
    for mx in (6, 1):
        confs = [(n0, tm, sim) for n0 in ((0, 1, 3) if mx > 1 else (0, 1)) for tm in (False, True) for sim in (False, True)]
        hs = par([lambda c=c: sync.gen(ck.work, "YamcSemGen", {"Obl": setlit(SEMALL), "N0": c[0], "MaxN": 5 if mx > 1 else 1, "Timed": str(c[1]).upper()}, 12 if c[2] else 5, 3 if c[2] else 2, 0 if c[2] else 1, n=4 if c[2] else 3, sample=(25 if c[2] else 60) * k, seed=29, simulate=30 * k if c[2] else None) for c in confs])
        ps = []
        for (n0, tm, sim), h in zip(confs, hs):
            for q, x in enumerate(h):
                p = sync.render_sem(x, "C23s%d.%d.%d.%d" % (n0, tm, sim, q), 4 if sim else 3, n0, mx, rnd, flags="rtick=%d" % int(tm))
                p = p.replace("args=%d" % n0, "args=%d" % (n0 + 1000 * (q % 3) * (mx > 1)), 1)   # a failed acquire must not make a later release exceed the maximum
                ps.append(shift(p, rnd.choice(OFFS) if tm else 0))
        for w in (23, 24, 25, 26):
            for a in (0, -1, -999999, -MS - 1, -5 * MS, -100 * DAY, -10**16, 1000, MS, 3 * MS + 500000, 25 * MS, 49 * DAY, 4294967296 * MS, 100 * DAY):
                off = rnd.choice(OFFS)
                ps.append(shift("P C23x%d objs=* args=0\nT %d:0:%d:1 21:0:0:10\nT 22:0:1:9" % (len(ps), w, a), off))
                ps.append(shift("P C23x%d objs=* args=0 rtick=1\nT %d:0:%d:1\nT 22:0:1:1 20:0:0:2" % (len(ps), w, a), off))
                ps.append(shift("P C23x%d objs=* args=1\nT %d:0:%d:1 21:0:0:2" % (len(ps), w, a), off))
        for w in (23,):     # an absolute deadline is converted once, as documented by neither platform
            for jmp in (3600 * 1000 * MS, -3600 * 1000 * MS, 15 * MS, -15 * MS):
                off = rnd.choice(OFFS)
                ps.append(shift("P C23j%d objs=* args=0\nT %d:0:%d:1 21:0:0:10\nT 22:0:1:9\nC 92:0:%d:2 91:0:%d:4 91:0:%d:5" % (len(ps), w, 20 * MS, jmp, 10 * MS, 11 * MS), off))
                ps.append(shift("P C23j%d objs=* args=0\nT %d:0:%d:1 21:0:0:10\nT 22:0:1:5\nC 92:0:%d:2 91:0:%d:4" % (len(ps), w, 20 * MS, jmp, 10 * MS), off))
        ps += ["P C23b%d objs=* args=0\nT 80:0:%d:0 21:0:0 22:0:1 20:0:0" % (o, o) for o in (20, 21, 22, 23, 24, 25, 26)]
        ps += ["P C23z objs=* args=0\nT 22:0:0:0 21:0:0:1 22:0:0:2\nT 20:0:0:0\nT 22:0:1:5"]
        if mx == 1:
            for q, w in enumerate(("20:0:0", "21:0:0", "23:0:%d" % MS, "24:0:%d" % MS, "25:0:%d" % MS, "26:0:%d" % MS)):
                for f in (1, 2):
                    ps += ["P C23f%d%d objs=* args=%d rtick=1\nT %s:0 22:0:1::2 %s:1 22:0:1::2 %s:2 22:0:1::2\nT 21:0:0:4" % (q, f, 1000 * f + 1, w, w, w)]
                    ps += ["P C23f%d%d objs=* args=%d rtick=1\nT %s:0 22:0:1::2 %s:1 22:0:1::2\nT %s:0 22:0:1::2 %s:1 22:0:1::2" % (q, f, 1000 * f + 1, w, w, w, w)]
        if mx > 1: ps += ["P C23m%d objs=* args=%d\nT 22:0:%d:0 21:0:0:1 20:0:0:1 21:0:0:2 21:0:0 21:0:0 21:0:0 21:0:0 21:0:0\nT 20:0:0:0" % (a, b, a) for a, b in ((2, 0), (6, 0), (3, 2), (5, 1))]
        ts = [t for t in SEMS if SEMS[t] == mx]
        r, st = run_lab(sut, ps, ts, ck.work, "q%d" % mx, maxr=ck.pick(100, 800), rand=ck.pick(10, 60), pb=2, wall=ck.pick(60, 300)); ck.add_stats(r, st, len(ps) * len(ts)); recs += r
    ck.validate("YamcPlatSemTrace", {"Threads": threads(6), "Obl": setlit(SEMALL)}, recs, sconvert, what=what, build=build, tracekey=keyed)
