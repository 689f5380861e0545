"""C13-C17: semaphores against YamcSem, latch against YamcLatch, barrier against YamcBarrier."""
import collections
from framework import *
from sync import *
import sync

def par(fs):
    with ThreadPoolExecutor(8) as ex: return [f.result() for f in [ex.submit(f) for f in fs]]

SEMINV = (["TypeOK", "Conservation", "NeverWaits", "BlocksOnlyEmpty"], ["HandedOver", "GiveUp", "FailsEmpty", "OnlyAfterDeadline"])
SEMALL = ("count", "live", "try", "block", "early", "false", "late", "noexc")
def setlit(xs): return "{" + ", ".join('"%s"' % x for x in xs) + "}"
def threads(n): return "{" + ",".join(map(str, range(n))) + "}"

def mc_sem(ck, names):
    for n0, n in ((0, 3), (2, 2)):
        ck.model_check("YamcSemMC", {"Threads": threads(n), "Obl": setlit(SEMALL), "N0": n0, "MaxN": 5, "MaxRel": 3}, SEMINV[0], SEMINV[1], spec="FairSpec", constraint="Bound", name="permits=%d threads=%d" % (n0, n))

def sem_programs(ck, timed, sample, depth=5, races=2, mem=1, n=3, simulate=None, seed=0, hist_ok=None, flags=None, tag="", line=False, merge=0.4):
    """type -> programs"""
    out = {}
    confs = [(n0, mx) for mx in (6, 1) for n0 in ((0, 1, 3) if mx > 1 else (0, 1))]
    hists = dict(zip(confs, par([lambda c=c: gen(ck.work, "YamcSemLine" if line else "YamcSemGen", {"Obl": setlit(SEMALL), "N0": c[0], "MaxN": 5 if c[1] > 1 else 1, "Timed": str(timed).upper()}, depth, races, mem, n=n, sample=sample, seed=seed, simulate=simulate, hist_ok=hist_ok, spec="LSpec" if line else "GSpec") for c in confs])))
    for mx in (6, 1):
        ps = []
        for (n0, m), hs in hists.items():
            if m != mx: continue
            rnd = random.Random(SEED * 17 + seed + n0)
            for i, h in enumerate(hs): ps.append(render_sem(h, "%s%s%d.%d" % (ck.pid, tag, n0, i), n, n0, m, rnd, flags=flags(i) if flags else "", merge=merge if i % 2 else 0.0))
        out[mx] = ps
    return out

# large numbers, and many permits at once
def sem_big(native):
    B = 1 << 32
    ps = [prog("big1", [["20:0:0:0", "21:0:0:1", "21:0:0:2", "21:0:0:3"]], 300), prog("big2", [["22:0:300:1"] + ["21:0:0"] * 5, ["20:0:0:0"], ["20:0:0:0"]], 0)]
    ps += [prog("many", [["22:0:5:1"], ["20:0:0:0", "20:0:0:2"], ["20:0:0:0", "20:0:0:2"], ["21:0:0:3", "21:0:0:4"]], 0)]
    ps += [prog("exact", [["22:0:%d:0" % k] + ["21:0:0"] * (k + 2)], 0) for k in (3, 16, 130, 260)]
    if not native:
        for v in (B, B + 1, B - 1 + (1 << 31), 3 * B): ps.append(prog("v%d" % v, [["21:0:0:0", "20:0:0:1", "22:0:2:2", "20:0:0:3"], ["21:0:0:0"]], v))
        ps += [prog("w%d" % v, [["22:0:%d:1" % v, "20:0:0:2", "21:0:0"], ["20:0:0:0", "20:0:0:2"], ["20:0:0:0"]], 0) for v in (B, 2 * B, (1 << 31) + 7, 70000)]
    else:
        ps += [prog("m", [["20:0:0:0", "21:0:0:1"]], 0x7fffffff), prog("m2", [["20:0:0:0", "22:0:1", "21:0:0:1"]], 0x7fffffff)]
    return ps

def run_sem(ck, progs, obl, n, maxr=150, rand=15, pb=2, what="", types=None):
    sut = build_sut("sync")
    recs = []
    for mx, ps in progs.items():
        ts = [t for t, m in SEMS.items() if (m == 1) == (mx == 1) and (types is None or t in types)]
        r, st = run_lab(sut, ps, ts, ck.work, "s%d" % mx, maxr=maxr, rand=rand, pb=pb, wall=ck.pick(60, 300))
        ck.add_stats(r, st, len(ps) * len(ts)); recs += r
    ck.validate("YamcSemTrace", {"Threads": threads(n), "Obl": setlit(obl)}, recs, sync.convert(SOPS), what=what, build=dict(name="sync"), tracekey=keyed)

def sem_check(ck, timed, obl, what, hist_ok=None, flags=None, tag=""):
    k = ck.pick(1, 8)
    run_sem(ck, sem_programs(ck, timed, 130 * k, hist_ok=hist_ok, flags=flags, tag=tag), obl, 4, maxr=120 * ck.pick(1, 4), rand=ck.pick(12, 60), pb=ck.pick(2, 3), what=what)
    run_sem(ck, sem_programs(ck, timed, 40 * k, depth=12, races=3, n=4, simulate=60 * k, seed=3, hist_ok=hist_ok, flags=flags, tag=tag + "L"), obl, 5, maxr=60, rand=ck.pick(12, 60), what=what)
    run_sem(ck, sem_programs(ck, timed, 60 * k, depth=8, races=1, n=4, simulate=120 * k, seed=4, flags=flags, tag=tag + "W", line=True, merge=0.7), obl, 5, maxr=60, rand=ck.pick(6, 40), what=what)
    run_sem(ck, sem_programs(ck, timed, 20 * k, depth=24, races=1, n=9, simulate=40 * k, seed=6, flags=flags, tag=tag + "X", line=True, merge=0.2), obl, 10, maxr=10, rand=ck.pick(3, 30), what=what)

def C13(ck):
    mc_sem(ck, None)
    obl = ["count", "try", "live", "block"]; what = "a permit was lost or invented, or not handed to a waiting acquirer"
    sem_check(ck, False, obl, what, flags=lambda i: "spur=%d" % (i % 2))
    sut = build_sut("sync"); recs = []
    for ts, nat in ((["sem.counting"], False), (["posix.counting_semaphore"], True)):
        ps = sem_big(nat); r, st = run_lab(sut, ps, ts, ck.work, "b", maxr=40, rand=5); ck.add_stats(r, st, len(ps)); recs += r
    ck.validate("YamcSemTrace", {"Threads": threads(4), "Obl": setlit(obl)}, recs, sync.convert(SOPS), what=what, build=dict(name="sync"), tracekey=keyed)

def C14(ck):
    mc_sem(ck, None)
    obl = ["early", "false", "late", "count", "live", "noexc"]; what = "a timed or interrupted acquisition was not truthful"
    has = lambda h: any(o == "timed" for s in h for _, o, _ in s) or len(h) % 3 == 0
    sem_check(ck, True, obl, what, hist_ok=has, flags=lambda i: "rtick=%d spur=%d eintr=%d" % (1 + i % 2, i % 3 == 0, i % 2))
    # the generic semaphore does not notice adjustments of the wall clock
    H = 3600 * 1000 * MS; ps = []
    for w in (23, 24, 26):
        for j in (H, -H, 15 * MS, -15 * MS):
            ps += [prog("J%d.%d.%d" % (w, j, e), [["%d:0:%d:1" % (w, 20 * MS), "21:0:0:9"], ["22:0:1:%d" % (3 if e else 20)]], 0, "rtick=0 eintr=%d" % e, ["92:0:%d:2" % j, "91:0:%d:%d" % (10 * MS, 4), "91:0:%d:5" % (11 * MS)]) for e in (0, 1)]
    ws = []
    for j in (H, -H, 15 * MS, -15 * MS, 20 * MS, 20 * MS - 1):
        for e in (0, 1):
            ws += [prog("K%d.%d" % (j, e), [["25:0:%d:1" % (20 * MS), "21:0:0:9"], ["22:0:1:%d" % (3 if e else 20)]], 0, "rtick=0 eintr=%d" % e, ["92:0:%d:2" % j, "91:0:%d:%d" % (10 * MS, 4), "91:0:%d:5" % (11 * MS)]),
                   prog("L%d.%d" % (j, e), [["25:0:%d:1" % (20 * MS), "21:0:0:9"], ["22:0:1:%d" % (6 if e else 20)]], 0, "rtick=1 eintr=%d" % e, ["92:0:%d:2" % j, "92:0:%d:3" % -j, "91:0:%d:4" % (10 * MS), "92:0:%d:5" % j, "92:0:%d:6" % -j])]
    run_sem(ck, {6: ws, 1: ws}, obl, 4, maxr=30, rand=3, what="a deadline on the wall clock was not judged by that clock")
    run_sem(ck, {6: ps}, obl, 4, maxr=30, rand=0, what="a relative timeout was disturbed by a wall clock adjustment", types=["sem.counting", "sem.counting5"])

LATCHALL = ("early", "try", "live", "block")
def C15(ck):
    for c0, n in ((2, 3), (3, 3), (0, 3)):
        ck.model_check("YamcLatchMC", {"Threads": threads(n), "Obl": setlit(LATCHALL), "C0": c0}, ["TypeOK", "Exact", "CountDownNeverBlocks"], ["Monotone", "NotBeforeOpen", "TryTruth", "AllReleased"], spec="FairSpec", name="count=%d" % c0)
    k = ck.pick(1, 8); sut = build_sut("sync"); progs = []
    confs = [(c0, dict(depth=4, races=2, mem=1, sample=200 * k)) for c0 in (0, 1, 2, 3, 4)] + [(c0, dict(depth=6, races=3, mem=0, n=4, sample=80 * k, seed=5, simulate=100 * k)) for c0 in (3, 5)]
    hs = par([lambda c=c: gen(ck.work, "YamcLatchGen", {"Obl": setlit(LATCHALL), "C0": c[0]}, **c[1]) for c in confs])
    rnd = random.Random(SEED)
    for j, ((c0, kw), h) in enumerate(zip(confs, hs)):
        for i, x in enumerate(h): progs.append(render_latch(x, "C15.%d.%d" % (j, i), kw.get("n", 3), c0, rnd, "spur=%d" % (i % 2), merge=0.3 if i % 2 else 0.0))
    B = 1 << 32
    for a, b in ((B, 1), (1, B), (B, B), (2 * B, 3), (300, 1), (255, 1), ((1 << 31) + 9, 2)):
        progs.append(prog("big%d.%d" % (a, b), [["30:0:%d:1" % a, "31:0:0:2", "33:0:%d:3" % b], ["32:0:0:0"], ["31:0:0:0", "31:0:0:4", "32:0:0:5"]], a + b))
    recs, st = run_lab(sut, progs, ["latch"], ck.work, "l", maxr=ck.pick(300, 3000), rand=ck.pick(20, 100), pb=ck.pick(2, 3)); ck.add_stats(recs, st, len(progs))
    ck.validate("YamcLatchTrace", {"Threads": threads(5), "Obl": setlit(LATCHALL)}, recs, sync.convert(LOPS), what="the latch let a waiter pass too early or held it back", build=dict(name="sync"), tracekey=keyed)
    # ten threads
    progs = []
    for i in range(40 * k):
        c = rnd.randrange(1, 10); T = [["%d:0:1:%d" % (rnd.choice([30, 33, 33]), rnd.randrange(4, 9))] for _ in range(c)] + [[rnd.choice(["32:0:0:%d", "31:0:0:%d", "31:0:0:%d 32:0:0"]) % rnd.randrange(4)] for _ in range(10 - c)]
        rnd.shuffle(T); progs.append(prog("C15.m%d" % i, T, c, "spur=%d" % (i % 2)))
    recs, st = run_lab(sut, progs, ["latch"], ck.work, "m", maxr=ck.pick(20, 200), rand=ck.pick(5, 30), pb=1); ck.add_stats(recs, st, len(progs))
    ck.validate("YamcLatchTrace", {"Threads": threads(10), "Obl": setlit(LATCHALL)}, recs, sync.convert(LOPS), what="the latch let a waiter pass too early or held it back", build=dict(name="sync"), tracekey=keyed)

BARALL = ("once", "early", "live", "block")
def barrier(ck, drop, what):
    safe = ["CompletesWhenAllArrived", "NotBeforePhaseEnd", "ExpectedOnlyDrops", "NextPhaseExpects"]; live = ["NoArrivalLost", "EveryWaiterReleased"]
    for e0, n, ph, sp, pr in ((3, 3, 2, "SafeSpec", safe), (2, 3, 1, "FairSpec", safe + live), (2, 2, 2, "FairSpec", safe + live)) + (((3, 3, 2, "FairSpec", safe + live), (4, 4, 1, "SafeSpec", safe)) if ck.thorough else ()):
        ck.model_check("YamcBarrierMC", {"Threads": threads(n), "Obl": setlit(BARALL), "E0": e0, "MaxPhase": ph}, ["TypeOK", "OncePerPhase"], pr, spec=sp, name="expected=%d threads=%d phases=%d %s" % (e0, n, ph + 1, sp), timeout=800)
    k = ck.pick(1, 8); sut = build_sut("sync"); progs = []; long = []
    ok = (lambda h: any(o == "drop" for s in h for _, o, _ in s)) if drop else None
    confs = [(e0, dict(depth=5 + drop, races=2, mem=1 + drop, sample=(250 + 150 * drop) * k), False) for e0 in (1, 2, 3, 4)] + [(e0, dict(depth=10, races=3, mem=0, n=4, sample=80 * k, seed=5, simulate=200 * k), e0 == 4) for e0 in (3, 4)]
    if not drop: confs.append((3, dict(depth=5, races=2, mem=2, sample=300 * k, seed=7), True))
    hs = par([lambda c=c: gen(ck.work, "YamcBarrierGen", {"Obl": setlit(BARALL), "E0": c[0], "Drop": str(bool(drop) or c[2]).upper()}, hist_ok=ok, **c[1]) for c in confs])
    rnd = random.Random(SEED)
    for j, ((e0, kw, _), h) in enumerate(zip(confs, hs)):
        for i, x in enumerate(h): progs.append(render_barrier(x, "%s.%d.%d" % (ck.pid, j, i), kw.get("n", 3), e0, rnd, "spur=%d" % (i % 2), merge=0.3 if i % 2 else 0.0))
    if not drop:
        B = 1 << 32
        for a, b in ((B, 1), (1, B), (2 * B, 3), (300, 1), ((1 << 31) + 9, 2)):
            progs.append(prog("big%d.%d" % (a, b), [["40:0:%d:1" % a, "41:0:0:2", "40:0:%d:4" % a], ["40:0:%d:3" % b, "41:0:0:5", "40:0:%d:6" % b, "41:0:0:7"]], a + b))
        # a token is kept while many phases pass; the phase counter passes the limits of narrower types and its own
        for c in (1, 2, 255, 256, 257, 65535, 65536, 131072):
            long.append(prog("cyc%d" % c, [["40:0:1:1", "41:0:0:5"], ["40:0:1:2", "44:0:%d:4" % c, "40:0:1:7"], ["42:0:1:6"]], 2, "max=5 rnd=0"))
        for back in (1, 2, 3):
            progs.append(prog("far%d" % back, [["42:0:1:1", "42:0:1:2", "42:0:1:3", "42:0:1:4"], ["45:0:%d:0" % back, "42:0:1:1", "42:0:1:2", "42:0:1:3", "42:0:1:4"]], 2, "max=100 spur=1"))
            progs.append(prog("fart%d" % back, [["40:0:1:1", "41:0:0:2", "40:0:1:3", "41:0:0:4", "40:0:1:5", "41:0:0:6", "40:0:1:7", "41:0:0:8"], ["45:0:%d:0" % back, "40:0:1:2", "41:0:0", "40:0:1:4", "41:0:0", "40:0:1:6", "41:0:0", "40:0:1:8", "41:0:0"]], 2, "max=100"))
    for t in BARRIERS:
        recs, st = run_lab(sut, progs, [t], ck.work, "b", maxr=ck.pick(250, 2500), rand=ck.pick(20, 100), pb=ck.pick(2, 3)); ck.add_stats(recs, st, len(progs))
        if long: r, st = run_lab(sut, long, [t], ck.work, "b", steps=4000000); ck.add_stats(r, st, len(long)); recs += r
        ck.validate("YamcBarrierTrace", {"Threads": threads(5), "Obl": setlit(BARALL), "Silent": str(t.endswith("default")).upper()}, recs, sync.convert(BOPS), what=what, build=dict(name="sync"), tracekey=keyed)
    # nine participants, some of which leave
    progs = []
    for i in range(30 * k):
        n = rnd.choice([7, 8, 9]); T = []; left = n - 2
        for t in range(n):
            ops = []; stay = True
            for ph in range(3):
                if drop and left > 0 and rnd.random() < 0.25: left -= 1; ops.append("43:0:0:%d" % (10 * ph + rnd.randrange(4))); break
                g = 10 * ph + rnd.randrange(4)
                ops += ["42:0:1:%d" % g] if rnd.random() < 0.6 else ["40:0:1:%d" % g, "41:0:0" + rnd.choice(["", ":%d" % (10 * ph + 5)])]
            T.append(ops)
        progs.append(prog("%s.m%d" % (ck.pid, i), T, n, "spur=%d" % (i % 2)))
    for t in BARRIERS:
        recs, st = run_lab(sut, progs, [t], ck.work, "m", maxr=ck.pick(15, 150), rand=ck.pick(4, 30), pb=1); ck.add_stats(recs, st, len(progs))
        ck.validate("YamcBarrierTrace", {"Threads": threads(9), "Obl": setlit(BARALL), "Silent": str(t.endswith("default")).upper()}, recs, sync.convert(BOPS), what=what, build=dict(name="sync"), tracekey=keyed)

def C16(ck): barrier(ck, 0, "a barrier phase did not complete once, in order, for everybody")
def C17(ck): barrier(ck, 1, "dropping out did not lower the expected count by exactly one")
