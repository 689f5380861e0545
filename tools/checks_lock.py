"""C01-C10 and C24: the lock family against YamcLock."""
import collections
from framework import *
from locks import *

def mc(ck, pol, rec, shared, tm, inv, prop, n=3):
    c = consts(pol, rec, n, ALLOBL); c.update(MaxNest=3 if rec else 1, Shared=str(shared).upper(), Timed=str(tm).upper())
    ck.model_check("YamcLockMC", c, ["TypeOK"] + list(inv), prop, spec="FairSpec", name="policy=%s recursive=%s shared=%s timed=%s threads=%d" % (pol, rec, shared, tm, n))

def explore(ck, types, obl, tm_filter=None, sample=300, maxr=150, rand=15, pb=2, mem=1, races=2, n=3, flags=None, relevant=None, hist_ok=None, jump=False, what="", depth=6, simulate=None, follow=True, seed=0, merge=0.0, line=False):
    """Generate programs for each configuration, run them on every type of it and validate the executions."""
    T0 = time.time()
    groups = collections.defaultdict(list)
    for t in types: groups[config(t) + (t in SHARED, timed(t))].append(t)
    if ck.late(): return
    suts = {}
    need = sorted(set(sut_of(t) for t in types))
    _, paths = build_suts([dict(name=s) for s in need])
    suts = dict(zip(need, paths))
    def gen(k):
        pol, rec, sh, tm = k
        hs, st = gen_programs(ck.work, pol, rec, sh, tm, n=n, depth=depth, races=races, mem=mem, sample=None if hist_ok else sample, seed=seed, simulate=simulate, **(dict(module="YamcLockLine", spec="LSpec") if line else {}))
        if hist_ok:
            hs = [h for h in hs if hist_ok(h)]
            if sample and len(hs) > sample: rnd = random.Random(SEED * 1000003 + seed); rnd.shuffle(hs); hs = hs[:sample]
        return hs
    keys = sorted(groups)
    with ThreadPoolExecutor(NPROC) as ex: hists = dict(zip(keys, ex.map(gen, keys)))
    jobs = []
    T1 = time.time()
    for k in keys:
        pol, rec, sh, tm = k
        rnd = random.Random(SEED * 31 + seed)
        progs = []
        for i, h in enumerate(hists[k]):
            fl = flags(i) if flags else "rtick=%d spur=%d wf=%d" % (int(tm), i % 2, i % 2)
            j = rnd.choice([-3600000, 3600000]) * 1000000 if jump and i % 2 else 0
            progs.append(render(h, "%s%d" % (ck.pid, i), n, rnd, tm, rec, sh, follow=follow, flags=fl, jump=j, merge=merge if i % 2 else 0.0))
        recs, stats = run_lab(suts["shared" if sh else "excl"], progs, groups[k], ck.work, "x", maxr=maxr, rand=rand, pb=pb, wall=ck.pick(60, 300))
        ck.add_stats(recs, stats, len(progs) * len(groups[k]))
        jobs.append((pol, rec, recs))
    if os.environ.get("YAMC_TIMES"): print("   generate %.1f s, execute %.1f s" % (T1 - T0, time.time() - T1), flush=True)
    merged = collections.defaultdict(list)
    for pol, rec, recs in jobs: merged[(pol, rec)] += recs
    def val(kv):
        (pol, rec), recs = kv
        ck.validate("YamcLockTrace", consts(pol, rec, n, obl), recs, convert, relevant=relevant, what=what, build=dict(name=sut_of(recs[0].type) if recs else ""))
    with ThreadPoolExecutor(8) as ex: list(ex.map(val, merged.items()))

def weights(ck, types, obl, cyc, what):
    """Deep nesting, crowds of readers and long histories: one operation with a large weight."""
    groups = collections.defaultdict(list)
    for t in types: groups[config(t) + (t in SHARED,)].append(t)
    suts = {s: build_sut(s) for s in sorted(set(sut_of(t) for t in types))}
    def one(item):
        ((pol, rec, sh), tl), big = item
        ns = (65535, 65536) if big else (127, 128, 255, 256, 257)
        if big: tl = [t for t in tl if not t.startswith("checked")]     # the checked readers are listed: quadratic
        ps = []
        for n in ns:
            if rec:
                ps.append("P W%d objs=*\nT 1:0:0:0 15:0:%d:0 16:0:%d:2 3:0:0:4 90:0:0:20\nT 2:0:0:1 2:0:0:3 1:0:0:4 3:0:0:6 90:0:0:21\nT 2:0:0:5 3:0:0" % (len(ps), n, n))
                ps.append("P W%d objs=*\nT 1:0:0:0 15:0:%d:0 16:0:%d:3 16:0:1:5 90:0:0:20\nT 1:0:0:1 15:0:2:7 16:0:2 3:0:0:8\nT 7:0:10000000:2 2:0:0:4 3:0:0 1:0:0:6 3:0:0:9\nC 91:0:0:2" % (len(ps), n - 1, n - 1))
                ps.append("P W%d objs=*\nT 1:0:0:0 15:0:%d:0 16:0:%d:1 3:0:0:1 2:0:0:2 3:0:0\nT 1:0:0:1 3:0:0" % (len(ps), n, n))
            if sh:
                ps.append("P W%d objs=*\nT 17:0:%d:0 18:0:%d:3 18:0:1:5 17:0:%d:7 18:0:%d:9\nT 2:0:0:1 1:0:0:2 3:0:0:6\nT 2:0:0:4 2:0:0:8 2:0:0:10 3:0:0 5:0:0:11 6:0:0" % (len(ps), n, n - 1, n, n))
                ps.append("P W%d objs=*\nT 17:0:%d:0 18:0:%d:3 4:0:0:9 6:0:0\nT 4:0:0:1 6:0:0:5\nT 2:0:0:2 3:0:0 2:0:0:4 3:0:0 2:0:0:6 3:0:0:7" % (len(ps), n - 1, n - 1))
            if cyc and n != ns[0]:
                # so many acquisitions before: tickets and counters of that width begin anew within the history
                for d in (0, 1, 2):
                    ps.append("P W%d objs=*\nT 27:0:%d:0 1:0:0:1 3:0:0:5 1:0:0:9 3:0:0:10\nT 1:0:0:2 3:0:0:6 2:0:0:11 3:0:0:12\nT 1:0:0:3 3:0:0:7\nT 1:0:0:4 3:0:0:8" % (len(ps), n - d))
                    if sh: ps.append("P W%d objs=*\nT 28:0:%d:0 27:0:%d:0 4:0:0:1 6:0:0:5 1:0:0:9 3:0:0:11\nT 1:0:0:2 3:0:0:6 4:0:0:10 6:0:0:13\nT 4:0:0:3 6:0:0:7 4:0:0:10 6:0:0:13\nT 1:0:0:4 3:0:0:8 1:0:0:10 3:0:0:12" % (len(ps), n - d, n - d))
        if not ps or not tl: return
        recs, stats = run_lab(suts["shared" if sh else "excl"], ps, tl, ck.work, "w%d%s%d%d" % (big, pol, rec, sh), maxr=ck.pick(4 if big else 20, 40), rand=ck.pick(1 if big else 6, 20), pb=1)
        with ck.lock: ck.add_stats(recs, stats, len(ps) * len(tl))
        ck.validate("YamcLockTrace", consts(pol, rec, 4, obl), recs, convert, what=what, build=dict(name="shared" if sh else "excl"))
    with ThreadPoolExecutor(4) as ex: list(ex.map(one, [(it, big) for it in sorted(groups.items()) for big in (False, True)]))

def waiting_crowd(ck, types, obl, what):
    """Hundreds of waiting threads that ask for the same: one request of the specification, which is granted and not given back."""
    groups = collections.defaultdict(list)
    for t in types:
        if t.startswith(("yamc.spin", "spin", "posix", "win")): continue
        groups[config(t) + (t in SHARED,)].append(t)
    suts = {s: build_sut(s) for s in sorted(set(sut_of(t) for t in types))}
    def one(item):
        (pol, rec, sh), tl = item
        ps = []
        for n in ck.pick((128, 255, 256), (127, 128, 129, 254, 255, 256, 257)):
            ps.append("P V%d objs=*\nT 1:0:0:0 3:0:0:6\nT 2:0:0:2 7:0:10000000:3 2:0:0:7\nT 36:0:%d:1\nT 1:0:0:5\nC 91:0:0:4" % (len(ps), n))
            ps.append("P V%d objs=*\nT 1:0:0:0 3:0:0:4\nT 1:0:0:1 3:0:0:5\nT 36:0:%d:2\nT 1:0:0:3" % (len(ps), n))
            if sh:
                ps.append("P V%d objs=*\nT 4:0:0:0 6:0:0:5\nT 5:0:0:2 6:0:0:3 4:0:0:4 6:0:0:6\nT 36:0:%d:1\nT 5:0:0:7" % (len(ps), n))
                ps.append("P V%d objs=*\nT 1:0:0:0 3:0:0:3\nT 2:0:0:4 2:0:0:8 1:0:0:9\nT 37:0:%d:1\nT 5:0:0:2 5:0:0:6 6:0:0:7" % (len(ps), n))
                ps.append("P V%d objs=*\nT 4:0:0:0 6:0:0:4\nT 1:0:0:1 3:0:0:5 2:0:0:8 1:0:0:9\nT 37:0:%d:2\nT 4:0:0:3 6:0:0:6 5:0:0:7" % (len(ps), n))
        recs, stats = run_lab(suts["shared" if sh else "excl"], ps, tl, ck.work, "v%s%d%d" % (pol, rec, sh), maxr=ck.pick(2, 8), rand=ck.pick(1, 8), pb=1)
        with ck.lock: ck.add_stats(recs, stats, len(ps) * len(tl))
        ck.validate("YamcLockTrace", consts(pol, rec, 4, obl), recs, convert, what=what, build=dict(name="shared" if sh else "excl"))
    with ThreadPoolExecutor(4) as ex: list(ex.map(one, sorted(groups.items())))

def scale(ck, **kw):
    """Deeper parameters in the thorough tier."""
    if ck.thorough:
        kw["sample"] = kw.get("sample", 300) * 10
        kw["maxr"] = kw.get("maxr", 150) * 4; kw["rand"] = 60; kw["mem"] = kw.get("mem", 1) + 1
        kw["pb"] = 3
    return kw

def both(ck, types, obl, **kw):
    """Pairwise races after every history; and long random histories of four threads."""
    explore(ck, types, obl, **scale(ck, **kw))
    kw4 = dict(kw); kw4.update(n=4, depth=14, races=3, simulate=ck.pick(150, 1000), seed=1, rand=10, maxr=60, sample=ck.pick(150, 1000))
    explore(ck, types, obl, merge=0.4, **kw4)
    # five threads in line, served one after another
    kw5 = dict(kw); kw5.update(n=5, depth=20, races=1, simulate=ck.pick(600, 3000), seed=3, rand=4, maxr=20, sample=ck.pick(500 if len(types) < 20 else 250, 3000), line=True, hist_ok=None)
    explore(ck, types, obl, merge=0.3, **kw5)
    # and more of them (the fewer obligations, the more possibilities)
    m = 10 if "excl" in obl else 7
    kw10 = dict(kw); kw10.update(n=m, depth=5 * m, races=1, simulate=ck.pick(60, 400), seed=5, rand=2, maxr=8, sample=ck.pick(40, 400), line=True, hist_ok=None)
    explore(ck, types, obl, merge=0.15, **kw10)
    if ck.thorough:
        kw3 = dict(kw); kw3.update(races=3, mem=0, seed=2, sample=1500, rand=40, maxr=400, pb=2)
        explore(ck, types, obl, **kw3)

def C01(ck):
    mc(ck, "none", False, False, True, ["Exclusion"], []); mc(ck, "none", True, False, True, ["Exclusion"], ["NestExact"]); mc(ck, "none", False, True, True, ["Exclusion"], [])
    both(ck, ALL, ["excl"], sample=ck.pick(120, 120), what="exclusive ownership was granted while another thread owned the mutex")
    weights(ck, ALL, ["excl"], True, "exclusive ownership was granted while another thread owned the mutex")
    waiting_crowd(ck, ALL, ["excl"], "exclusive ownership was granted while another thread owned the mutex")

def C02(ck):
    ts = [t for t in EXCL if EXCL[t][1]]
    for p in ("none", "fifo"): mc(ck, p, True, False, True, ["Exclusion", "TryNeverBlocks"], ["NestExact"])
    both(ck, ts, ["excl", "tryX", "liveX", "block"], sample=500, mem=2, what="nested ownership was not counted exactly")
    weights(ck, ts, ["excl", "tryX", "liveX", "block"], True, "nested ownership was not counted exactly")
    waiting_crowd(ck, ts, ["excl", "tryX", "liveX", "block"], "nested ownership was not counted exactly")

def C03(ck):
    for p, sh in (("none", False), ("fifo", False), ("reader", True), ("writer", True), ("task", True), ("phase", True)):
        mc(ck, p, False, sh, True, [], ["NoLostWakeup"] + (["StarvationFree"] if p in ("fifo", "task", "phase") else []))
    both(ck, ALL, ["liveX", "liveS"], sample=120, what="a request was left waiting although it could be granted")
    weights(ck, ALL, ["liveX", "liveS"], True, "a request was left waiting although it could be granted")
    waiting_crowd(ck, ALL, ["liveX", "liveS"], "a request was left waiting although it could be granted")

def C04(ck):
    for p, sh in (("none", False), ("fifo", False), ("reader", True), ("writer", True), ("task", True), ("phase", True)): mc(ck, p, False, sh, False, ["TryNeverBlocks"], [])
    both(ck, ALL, ["tryX", "tryS", "block"], sample=150, what="a try operation (or a release) waited, or a try operation failed untruthfully",
         hist_ok=lambda h: any(o == "try" for s in h[-1:] for _, o, _ in s) or len(h) > 6)

def C05(ck):
    ts = [t for t in ALL if timed(t)]
    for p, sh in (("none", False), ("fifo", False), ("reader", True), ("writer", True), ("task", True), ("phase", True)): mc(ck, p, False, sh, True, [], ["GiveUp"])
    has = lambda h: any(o.startswith("timed") for s in h for _, o, _ in s)
    both(ck, ts, ["early", "false", "late"], sample=250, hist_ok=has, flags=lambda i: "rtick=%d spur=%d eintr=0" % (1 + i % 2, i % 3 == 0), what="a timed acquisition failed early, outlasted its deadline or failed although the mutex could be had")
    # wall clock adjustments: relative timeouts and steady deadlines must not notice
    own = [t for t in ts if t not in POSIX_TIMED]
    explore_jump(ck, own, (7, 8, 10, 11, 12, 14), "a relative timeout was disturbed by a wall clock adjustment")
    # a deadline on the wall clock means that clock, however it is adjusted
    explore_jump(ck, ts, (9, 13), "a deadline on the wall clock was not judged by that clock")

def explore_jump(ck, types, ops, what):
    groups = collections.defaultdict(list)
    for t in types: groups[config(t) + (t in SHARED,)].append(t)
    suts = {s: build_sut(s) for s in ("excl", "shared")}
    H = 3600 * 1000 * MS
    for (pol, rec, sh), tl in sorted(groups.items()):
        progs = []
        k = 0
        holds = [(1, 3), (4, 6)] if sh else [(1, 3)]
        waits = [w for w in ops if sh or w < 11]
        for hold, rel in holds:
            for w in waits:
                if hold == 4 and w > 10: continue
                for j in (H, -H, 15 * MS, -15 * MS, 20 * MS, 20 * MS - 1):
                    # jump while waiting; then either the deadline passes or the owner releases
                    progs.append("P J%d objs=* rtick=0\nT %d:0:0:0 %d:0:0:20\nT %d:0:%d:1 90:0:0:30\nC 92:0:%d:2 91:0:%d:3 91:0:%d:4" % (k, hold, rel, w, 20 * MS, j, 10 * MS, 11 * MS)); k += 1
                    progs.append("P J%d objs=* rtick=0\nT %d:0:0:0 %d:0:0:5\nT %d:0:%d:1 90:0:0:30\nC 92:0:%d:2 91:0:%d:3" % (k, hold, rel, w, 20 * MS, j, 10 * MS)); k += 1
                    # there and back again; and the owner releases while the clock moves
                    progs.append("P J%d objs=* rtick=1\nT %d:0:0:0 %d:0:0:6\nT %d:0:%d:1 90:0:0:30\nC 92:0:%d:2 92:0:%d:3 91:0:%d:4 92:0:%d:5 92:0:%d:6" % (k, hold, rel, w, 20 * MS, j, -j, 10 * MS, j, -j)); k += 1
        recs, stats = run_lab(suts["shared" if sh else "excl"], progs, tl, ck.work, "j", maxr=30, rand=ck.pick(3, 20), pb=1)
        ck.add_stats(recs, stats, len(progs) * len(tl))
        ck.validate("YamcLockTrace", consts(pol, rec, 3, ["early", "false", "late"]), recs, convert, what=what, build=dict(name="shared" if sh else "excl"))

def C06(ck):
    ts = [t for t in EXCL if EXCL[t][0] == "fifo"]
    for r in (False, True): mc(ck, "fifo", r, False, True, [], ["Fifo", "NoBarging", "LineKept", "NewcomersLast"] if not r else ["NoBarging", "LineKept", "NewcomersLast"])
    both(ck, ts, ["excl", "order"], sample=800, mem=2, what="a request overtook an earlier waiting request")
    weights(ck, ts, ["excl", "order"], True, "a request overtook an earlier waiting request")
    waiting_crowd(ck, ts, ["excl", "order"], "a request overtook an earlier waiting request")

def C07(ck):
    ts = list(SHARED)
    for p in ("none", "reader", "writer", "task", "phase"): mc(ck, p, False, True, False, ["Exclusion"], [])
    both(ck, ts, ["excl", "share"], sample=300, what="readers did not share, or a writer was not excluded / not let in")
    weights(ck, ts, ["excl", "share"], True, "readers did not share, or a writer was not excluded / not let in")
    waiting_crowd(ck, ts, ["excl", "share"], "readers did not share, or a writer was not excluded / not let in")

def C08(ck):
    ts = [t for t in SHARED if SHARED[t][0] in ("reader", "writer")]
    mc(ck, "reader", False, True, True, ["ReaderNeverDelayed"], ["NoLostWakeup"]); mc(ck, "writer", False, True, True, ["ReadersAfterWriters"], ["WriterFirst", "NoLostWakeup"])
    both(ck, ts, ["excl", "order", "liveS", "tryS", "liveX"], sample=400, what="the ReaderPrefer/WriterPrefer policy was not followed")
    weights(ck, ts, ["excl", "order", "liveS", "tryS", "liveX"], True, "the ReaderPrefer/WriterPrefer policy was not followed")
    waiting_crowd(ck, ts, ["excl", "order", "liveS", "tryS", "liveX"], "the ReaderPrefer/WriterPrefer policy was not followed")

def C09(ck):
    ts = [t for t in SHARED if SHARED[t][0] == "task"]
    mc(ck, "task", False, True, True, [], ["TaskOrder", "LineKept", "NewcomersLast", "StarvationFree"])
    both(ck, ts, ["excl", "order", "liveX", "liveS", "tryX", "tryS"], sample=1200, mem=2, what="requests were not served first-come first-served")
    weights(ck, ts, ["excl", "order", "liveX", "liveS", "tryX", "tryS"], True, "requests were not served first-come first-served")
    waiting_crowd(ck, ts, ["excl", "order", "liveX", "liveS", "tryX", "tryS"], "requests were not served first-come first-served")

def C10(ck):
    ts = [t for t in SHARED if SHARED[t][0] == "phase"]
    mc(ck, "phase", False, True, True, [], ["TaskOrder", "WritersKept", "NewcomersLast", "PhaseChange", "StarvationFree"])
    both(ck, ts, ["excl", "order", "liveX", "liveS", "tryX", "tryS"], sample=1200, mem=2, what="reader and writer phases did not alternate as specified")
    weights(ck, ts, ["excl", "order", "liveX", "liveS", "tryX", "tryS"], True, "reader and writer phases did not alternate as specified")
    waiting_crowd(ck, ts, ["excl", "order", "liveX", "liveS", "tryX", "tryS"], "reader and writer phases did not alternate as specified")

def C24(ck):
    ts = [t for t in ALL if timed(t)]
    for p, sh in (("none", False), ("fifo", False), ("reader", True), ("writer", True), ("task", True), ("phase", True)): mc(ck, p, False, sh, True, [], ["GiveUp", "GrantableStaysIfOthersGiveUp"])
    has = lambda h: any(o == "tick" for s in h for _, o, _ in s) or any(len(s) > 1 and any(o.startswith("timed") for _, o, _ in s) for s in h)
    def rel(evs, lp):   # only if a request has given up before
        return any(e[0] == "r" and not e[5] for e in evs[:lp + 1]) or any(e[0] == "k" for e in evs[:lp + 1])
    both(ck, ts, ["excl", "order", "liveX", "liveS", "tryX", "tryS"], sample=300, mem=2, hist_ok=has, relevant=rel, what="a request that gave up left a trace")
    # semaphores
    import checks_sync
    sh_ = lambda h: any(o in ("tick", "timed") for s in h for _, o, _ in s)
    checks_sync.run_sem(ck, checks_sync.sem_programs(ck, True, ck.pick(100, 800), hist_ok=sh_, flags=lambda i: "rtick=1", tag="S"), ["count", "live", "try", "block"], 4, maxr=120, rand=10, what="a semaphore acquisition that gave up left a trace")
