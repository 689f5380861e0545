"""C20-C22: memory publication (YamcHB), backoff (YamcBackoff), destruction (YamcLifetime)."""
import collections, itertools, random
from framework import *
import locks, sync
from locks import SHARED, EXCL, ALL, gen_programs, render, timed, config
from checks_sync import par, threads

# ------------------------------------------------------------------ C20
def hb_convert(trace):
    evs = []
    for tok in trace.split():
        k, t, l, mo = tok.split("."); t = int(t)
        # what matters of a memory order
        evs.append(event(k, t, int(l), a=int(mo)))
    return evs

def hb_sync_programs(rnd):
    ps = {"sem": [], "bin": [], "latch": [], "barrier": []}
    ms = sync.MS
    def P(kind, T, args, objs="*", flags="spur=1 rtick=1"):
        n = len(ps[kind]); ps[kind].append("P %s%d objs=%s args=%s %s\n" % (kind, n, objs, args, flags) + "\n".join("T " + t for t in T))
    acqs = ["20:0:0", "21:0:0", "23:0:%d" % (10 * ms), "24:0:0", "25:0:%d" % (10 * ms), "26:0:%d" % (10 * ms)]
    # used as a mutex around the data
    for kind in ("sem", "bin"):
        for a, b in itertools.product(acqs, repeat=2):
            P(kind, [x + " 96:0:0 95:0:0 22:0:1::2 " + y + " 95:0:0 22:0:1::2" for x, y in ((a, b), (b, a), (a, a))], 1)
        # handing data over, in both directions
        for a in ("20:%d:0", "23:%%d:%d" % (100 * ms), "25:%%d:%d" % (100 * ms)):
            P(kind, [" ".join(["95:0:0", "22:0:1::2", a % 1 + "::2", "96:0:1", "95:0:0"] * 2), " ".join([a % 0 + "::2", "96:0:0", "95:0:1", "22:1:1::2"] * 2)], "0,0", "*,*")
        P(kind, ["95:0:0 22:0:1", "20:0:0 96:0:0 95:0:1 22:1:1", "20:1:0 96:0:0 96:0:1 95:0:0"], "0,0", "*,*")
    for a in acqs:
        for b in acqs[:3]:
            P("sem", ["95:0:0 22:0:1", "95:0:1 22:0:1", "20:0:0 20:0:0 96:0:0 96:0:1 95:0:0"], 0)
            P("sem", ["95:0:0 22:0:2", a + " 96:0:0", b + " 96:0:0"], 0)
            P("sem", ["95:0:0 22:0:3", a + " 96:0:0", b + " 96:0:0", "20:0:0 96:0:0"], 0)
            P("sem", ["95:0:0 22:0:1", "95:0:1 22:0:2", a + "", b + "", "20:0:0:5"], 0)
    waits = ["32:0:0", "31:0:0", "31:0:0 31:0:0", "32:0:0 31:0:0"]
    for c in ("30:0:1", "33:0:1"):
        for w in waits:
            rd = " 96:0:0 96:0:1"
            P("latch", ["95:0:0 " + c, "95:0:1 30:0:1", w + rd], 2)
            P("latch", ["95:0:0 " + c + (rd if c[:2] == "33" else ""), "95:0:1 33:0:1" + rd, w + rd, "32:0:0" + rd + " 31:0:0"], 2)
            P("latch", ["95:0:0 95:0:1 30:0:2", w + rd, "31:0:0" + rd], 2)
            P("latch", ["95:0:0 " + c + " 31:0:0" + rd, "95:0:1 30:0:1 32:0:0" + rd, w + rd], 2)
            P("latch", ["95:0:0 30:0:1 95:0:1 30:0:1", w + rd, "33:0:1::0"], 3)
    def phases(v, i, n, np):
        s = []
        for p in range(np):
            q = p % 2
            s.append("95:0:%d" % (8 * q + i))
            s += [{"w": "42:0:1", "a": "40:0:1 41:0:0"}[v[p % len(v)]]]
            s += ["96:0:%d" % (8 * q + j) for j in range(n)] + ["96:0:100"]
        return " ".join(s)
    for n in (2, 3):
        for vs in itertools.product(("w", "a", "wa"), repeat=n):
            P("barrier", [phases(v, i, n, 3) for i, v in enumerate(vs)], n)
    # leaving: what was done before is still seen by those who stay
    for v in ("w", "a"):
        P("barrier", ["95:0:0 43:0:0", phases(v, 1, 2, 1) + " 96:0:0 95:0:0 42:0:1 96:0:100"], 2)
        P("barrier", [phases(v, 0, 3, 1) + " 95:0:8 43:0:0", phases(v, 1, 3, 2) + " 96:0:8", phases("w", 2, 3, 2) + " 96:0:8"], 3)
    return ps

def C20(ck):
    base = {"Threads": "{1,2,3}", "Rounds": 2}
    for nm, c, f, s, t in (("spin", 5, 5, 5, False), ("spin_weak", 2, 0, 3, False), ("spin_ttas", 2, 2, 3, True)):
        ck.model_check("YamcHBSpin", dict(base, CasMO=c, FailMO=f, StoreMO=s, Test=str(t).upper(), **({"Threads": "{1,2}"} if t or not ck.thorough else {})), ["Exclusion", "Published"], [], spec="SSpec", name="design of " + nm)
    what = "an access is not ordered after a conflicting one (nothing synchronises them)"
    k = ck.pick(1, 6); rnd = random.Random(SEED)
    _, suts = build_suts([dict(name=s) for s in ("excl", "shared", "sync")])
    suts = dict(zip(("excl", "shared", "sync"), suts))
    groups = collections.defaultdict(list)
    for t in ALL: groups[config(t) + (t in SHARED, timed(t))].append(t)
    keys = sorted(groups)
    hists = dict(zip(keys, par([lambda key=key: gen_programs(ck.work, *key, n=3, depth=6, races=2, mem=0, sample=24 * k, seed=11)[0] for key in keys])))
    allrecs = []
    for key in keys:
        pol, rec, sh, tm = key
        ps = [render(h, "C20.%d" % i, 3, rnd, tm, rec, sh, flags="rtick=%d spur=%d wf=%d" % (int(tm), i % 2, i % 2)) for i, h in enumerate(hists[key])]
        # nothing but contention
        for i in range(3):
            T = []
            for t in range(3):
                T.append(" ".join("%d:0:0 %d:0:0" % ((1, 3) if not sh or rnd.random() < .5 else (4, 6)) for _ in range(2 if i else 3)))
            ps.append("P C20.c%d objs=* spur=1 wf=1\n" % i + "\n".join("T " + t for t in T))
        if tm:
            for i in range(2):
                ps.append("P C20.t%d objs=* spur=1 rtick=2\n" % i + "\n".join("T " + " ".join("%d:0:%d 90:0:0" % (rnd.choice([7, 8, 9, 10] + ([11, 12, 13, 14] if sh else [])), rnd.choice([0, 10, 20]) * sync.MS) for _ in range(2)) for t in range(3)))
        r, st = run_lab(suts["shared" if sh else "excl"], ps, groups[key], ck.work, "h", maxr=ck.pick(24, 80), rand=ck.pick(8, 40), pb=2, hb=1, wall=ck.pick(40, 300)); ck.add_stats(r, st, len(ps) * len(groups[key])); allrecs.append((r, dict(name="shared" if sh else "excl")))
    sp = hb_sync_programs(rnd); ss = []
    for kind, ts in (("sem", ["sem.counting", "sem.counting5", "posix.counting_semaphore"]), ("bin", ["sem.binary", "posix.binary_semaphore"]), ("latch", ["latch"]), ("barrier", ["barrier.callback", "barrier.default"])):
        r, st = run_lab(suts["sync"], sp[kind], ts, ck.work, "h", maxr=ck.pick(100, 500), rand=ck.pick(30, 150), pb=2, hb=1, wall=ck.pick(40, 300)); ck.add_stats(r, st, len(sp[kind]) * len(ts)); ss += r
    allrecs.append((ss, dict(name="sync")))
    n = collections.Counter()
    for r, b in allrecs: n[b["name"]] += len(r)
    for nm in n:
        rs = sum((r for r, b in allrecs if b["name"] == nm), [])
        ck.validate("YamcHBTrace", {"Threads": threads(6)}, rs, hb_convert, calls=("A", "R", "a", "r", "l", "s", "u", "f", "L", "W"), what=what, build=dict(name=nm))

# ------------------------------------------------------------------ C21
def bo_convert(trace):
    evs = []
    for tok in trace.split():
        a = tok.split(".")
        if a[0] == "p": evs.append(event("p", op=a[1], a=int(a[2])))
        else: evs.append(event(a[0], a=int(a[1]) if len(a) > 1 else 0))
    return evs
EXPS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 100, 255, 256, 257, 1000, 4000, 65535, 65536, 100000]

def C21(ck):
    for per in (1, 2): ck.model_check("YamcBackoff", {"Per": per}, ["NeverUnbounded", "BusyNever", "YieldAlways"], ["Halving", "DownToOne"], spec="MCSpec", name="one consultation per %d attempts" % per)
    rnd = random.Random(SEED)
    # (macro definitions, initial count of exponential<>, the default policy)
    for defs, dn, dp in (((), 4000, ("exp", 4000)), (("-DYAMC_BACKOFF_EXPONENTIAL_INITCOUNT=10",), 10, ("exp", 10)), (("-DYAMC_BACKOFF_SPIN_DEFAULT=yamc::backoff::yield",), 4000, ("yield", 0)),
                         (("-DYAMC_BACKOFF_SPIN_DEFAULT=yamc::backoff::exponential<33>",), 4000, ("exp", 33))):
        exe = build_driver("backoff", defs=defs, instrument=True)
        P = {1: [], 2: []}; want = {}
        names = [("exp:%d" % n, ("exp", n)) for n in EXPS] + [("exp:default", ("exp", dn)), ("yield", ("yield", 0)), ("busy", ("busy", 0))]
        def add(per, text, w): i = "b%d.%d" % (per, len(P[per])); P[per].append((i, text)); want[i] = w
        for nm, w in names:
            for k in {0, 1, 2, w[1], w[1] + 1, w[1] + 2, 2 * w[1] + 5, 2 * w[1] + 60, 100 + rnd.randrange(100)}: add(1, "policy.%s.%d" % (nm, k), w)
        for fam in ("spin", "spin_weak", "spin_ttas"):
            for nm, w in names + [("default", dp), ("probe", ("user", 0))]:
                if defs and nm not in ("default", "exp:default", "exp:100"): continue
                n = w[1]
                add(2, "lock.%s:%s..0" % (fam, nm), w)
                for k in sorted({1, 2, 3, n, n + 1, n + 2, 2 * n + 5, 2 * n + 40} | {rnd.randrange(1, 2 * n + 60) for _ in range(ck.pick(4 if n > 300 else 8, 100))}):
                    if k < 1: continue
                    add(2, "lock.%s:%s.%d.1" % (fam, nm, k), w)
                    if k < ck.pick(150, 2000):
                        # given back and taken again, right before or right after an attempt
                        for a in (1, 2):
                            for b in (1, 2, 3): add(2, "lock.%s:%s.%d,%d,%d.1" % (fam, nm, k, k + a, k + a + b), w)
                        add(2, "lock.%s:%s.%d,%d.0" % (fam, nm, 1, 1 + k), w)
        for per in (1, 2):
            recs = run_driver(exe, P[per], "policy" if per == 1 else "spinlock")
            ck.runs += len(recs); ck.traces += len(recs); ck.programs += len(recs)
            ck.per_type[recs[0].type + " " + " ".join(defs)] = len(recs)
            ck.validate("YamcBackoffTrace", {"Per": per}, recs, bo_convert, calls=("p", "c", "f", "y", "w", "o", "g", "d"), what="the spinning thread did not yield (or keep trying) as the policy says", tracekey=lambda r: "p.%s.%d " % want[r.prog] + r.trace, build=dict(driver="backoff", defs=defs, instrument=True))

# ------------------------------------------------------------------ C22
def life_convert(trace):
    evs = []
    for tok in trace.split():
        a = tok.split("."); k = tok[0]
        if k == "c": evs.append(event("c", int(a[1]), 0, "dtor" if a[3] == "50" else "op"))
        elif k == "r": evs.append(event("r" if int(a[2]) <= 1 else "e", int(a[1])))
        elif k in "qx": evs.append(event(k))
    return evs

def C22(ck):
    ck.model_check("YamcLifetimeMC", {"Threads": "{0,1,2}", "Release": ("<-", "GoodOrder")}, ["Safe", "OneOwner"], ["Destroyed"], spec="MSpec", name="notify before the guard is dropped")
    # notifying, or even touching the guard, after the resource was given away is what the property forbids: the model must show why
    ck.model_check("YamcLifetimeMC", {"Threads": "{0,1,2}", "Release": ("<-", "BadOrder")}, ["Safe"], [], spec="MSpec", name="(must fail) notify after the guard is dropped", expect_violation=True)
    ms = sync.MS; rnd = random.Random(SEED)
    _, suts = build_suts([dict(name=s) for s in ("excl", "shared", "sync")]); suts = dict(zip(("excl", "shared", "sync"), suts))
    what = "an operation touched the object after its destruction, or was still inside"
    def run(name, types, programs, maxr, rand, pb):
        ps = ["P C22.%d objs=* %s\n" % (i, fl) + "\n".join("T " + t for t in T) for i, (T, fl) in enumerate(programs)]
        r, st = run_lab(suts[name], ps, types, ck.work, "u", maxr=maxr, rand=rand, pb=pb, uad=1, wall=ck.pick(60, 300)); ck.add_stats(r, st, len(ps) * len(types))
        return r
    out = {n: [] for n in suts}
    X = "97:0:0 3:0:0 50:0:0::4"      # the last reference is dropped under the lock; then release, and destroy
    S = "97:0:0 6:0:0"; SX = "1:0:0::4 3:0:0::4 50:0:0::4"   # dropped under a shared lock: the writer that comes last destroys
    for sh in (False, True):
        for tm in (False, True):
            for rec in (False, True):
                ts = [t for t in ALL if (t in SHARED) == sh and timed(t) == tm and config(t)[1] == rec]
                if not ts: continue
                P = []
                pre = ["", "1:0:0 3:0:0 ", "2:0:0 90:0:0 "] + (["7:0:%d 90:0:0 " % (10 * ms), "9:0:%d 90:0:0 " % (5 * ms)] if tm else []) + (["4:0:0 6:0:0 ", "5:0:0 90:0:0 "] if sh else []) + (["1:0:0 1:0:0 3:0:0 3:0:0 "] if rec else []) + (["11:0:%d 90:0:0 " % (10 * ms)] if tm and sh else [])
                nest = ["97:0:0 1:0:0 3:0:0 3:0:0 50:0:0::4"] if rec else []
                for n in (2, 3):
                    for i in range(ck.pick(14 if n == 2 else 24, 80)):
                        T = [rnd.choice(pre) + "1:0:0 " + rnd.choice([X] + nest) for _ in range(n)]
                        P.append((T, "spur=%d rtick=%d wf=%d" % (i % 2, tm, i % 2)))
                    for i in range(ck.pick(6, 40) if sh else 0):
                        T = [rnd.choice(pre) + (rnd.choice(["4:0:0 " + S + " " + SX, "4:0:0 " + S + " " + SX, "1:0:0 97:0:0 3:0:0 " + SX])) for _ in range(n)]
                        P.append((T, "spur=%d rtick=%d" % (i % 2, tm)))
                for nd in ("excl", "shared"):
                    if (nd == "shared") == sh: out[nd] += run(nd, ts, P, ck.pick(400, 3000), ck.pick(80, 300), 2)
    # semaphores, latch, barrier
    a = ["20:0:0", "21:0:0", "23:0:%d" % (10 * ms), "25:0:%d" % (10 * ms)]
    fl = "spur=1 rtick=1"
    sem1 = [(["20:0:0 97:0:0 22:0:1 50:0:0::4"] * n, fl + " args=1") for n in (2, 3)]
    sem0 = [(["22:0:1", x + " 50:0:0::2"], fl + " args=0") for x in a] + [(["22:0:1", "22:0:1", "20:0:0 " + x + " 50:0:0::2"], fl + " args=0") for x in a]
    sem6 = [(["22:0:2", "20:0:0 " + x + " 50:0:0::2"], fl + " args=0") for x in a] + [(["22:0:3", "22:0:1", "20:0:0 20:0:0 20:0:0 " + x + " 50:0:0::2"], fl + " args=0") for x in a]
    bin0 = [x for x in sem0 if len(x[0]) == 2]
    out["sync"] += run("sync", ["sem.counting", "sem.counting5", "posix.counting_semaphore"], sem1 + sem0 + sem6, ck.pick(300, 3000), ck.pick(40, 300), 3)
    out["sync"] += run("sync", ["sem.binary", "posix.binary_semaphore"], sem1 + bin0, ck.pick(300, 3000), ck.pick(40, 300), 3)
    L = [(["30:0:1"] * n + [w + " 50:0:0::2"], fl + " args=%d" % n) for n in (1, 2, 3) for w in ("32:0:0", "31:0:0", "31:0:0 31:0:0")] + [(["30:0:2", "30:0:1", "33:0:1 50:0:0::2"], fl + " args=4"), (["30:0:1", "33:0:1 50:0:0"], fl + " args=2"), (["30:0:1 30:0:1", "32:0:0 50:0:0"], fl + " args=2")]
    out["sync"] += run("sync", ["latch"], L, ck.pick(600, 5000), ck.pick(80, 300), 3)
    # (arrive_and_drop waits for its phase in this library: whoever destroys the barrier is the dropper itself, or knows that it is gone)
    B = [(["40:0:1", w + " 50:0:0"], fl + " args=2") for w in ("42:0:1", "43:0:0", "40:0:1 41:0:0")] + [(["40:0:1", "40:0:1", w + " 50:0:0"], fl + " args=3") for w in ("42:0:1", "43:0:0", "40:0:1 41:0:0")] + [(["40:0:2", "42:0:1 50:0:0"], fl + " args=3")]
    B += [(["42:0:1 40:0:1", "42:0:1 42:0:1 50:0:0"], fl + " args=2"), (["42:0:1 40:0:1", "42:0:1 43:0:0 50:0:0"], fl + " args=2"), (["43:0:0", "42:0:1 42:0:1:1 50:0:0"], fl + " args=2"), (["42:0:1 43:0:0", "42:0:1 42:0:1 50:0:0:1"], fl + " args=2")]
    out["sync"] += run("sync", ["barrier.callback", "barrier.default"], B, ck.pick(600, 5000), ck.pick(80, 300), 3)
    for nm, rs in out.items():
        ck.validate("YamcLifetimeTrace", {"Threads": threads(4)}, rs, life_convert, calls=("c", "r", "q"), what=what, build=dict(name=nm))
