"""C18, C19: shared_lock against YamcSharedLock, scoped_lock against YamcScoped."""
import itertools, random
from framework import *
import sync
from checks_sync import par, threads

# ------------------------------------------------------------------ shared_lock
def sl_gen(ck, nslot, nmtx, depth, mem, raw, simulate=None, seed=0):
    cfg = cfg_text("GSpec", {"Slots": "{%s}" % ",".join(map(str, range(1, nslot + 1))), "Mutexes": "{%s}" % ",".join(map(str, range(1, nmtx + 1))), "Depth": depth, "Memory": mem, "MaxRaw": raw}, invariants=["TypeOK", "Accounted", "OwnsHasMutex"], view="gview")
    cfg += "ACTION_CONSTRAINT Emit\n"
    rc, out, d = tlc("YamcSharedLockGen", cfg, ck.work, workers=1, heap="6g", extra=["-simulate", "num=%d" % simulate, "-depth", str(3 * depth), "-seed", str(SEED * 7919 + seed)] if simulate else [])
    shutil.rmtree(d, ignore_errors=True)
    ps = set(re.findall(r'<<"PROG", "(.*)">>', out))
    if not ps or "Error:" in out: raise CheckError("generation of shared_lock programs failed:\n" + out[-3000:])
    hs = sorted(tuple((a, int(b), int(c), int(e), int(f)) for a, b, c, e, f in re.findall(r'<<"(\w+)", (\d+), (\d+), (\d+), (-?\d+)>>', p.replace("\\", ""))) for p in ps)
    # a sequence that is the beginning of another one need not be run
    keep = [a for a, b in zip(hs, hs[1:] + [None]) if b is None or b[:len(a)] != a]
    with ck.lock:
        if not simulate:
            g, n = tlc_counts(out); ck.states += n; ck.transitions += g
            ck.mc.append(dict(module="YamcSharedLockGen", config="slots=%d mutexes=%d depth=%d memory=%d" % (nslot, nmtx, depth, mem), states=n, transitions=g, invariants=["TypeOK", "Accounted", "OwnsHasMutex"], properties=[]))
    return keep

def sl_convert(trace):
    evs = []
    for tok in trace.split():
        a = tok.split("."); k = tok[0]
        if k == "c": evs.append(event("c", int(a[2]), int(a[3]), a[1], "", False, int(a[4]), (int(a[5]),)))
        elif k == "u": evs.append(event("u", int(a[3]), int(a[2]), a[1], "", False, int(a[4])))
        elif k == "r": evs.append(event("r", a=int(a[1])))
        elif k == "v": evs.append(event("v", int(a[1]), int(a[2]), "", "", a[3] == "1"))
        elif k == "h": evs.append(event("h", 0, int(a[1]), a=int(a[2])))
        else: evs.append(event("x"))
    return evs

def C18(ck):
    k = ck.pick(1, 6)
    hs = par([lambda: sl_gen(ck, 2, 2, 5, 1, 1), lambda: sl_gen(ck, 3, 2, 25, 0, 1, simulate=200 * k, seed=1)] + ([lambda: sl_gen(ck, 2, 1, 5, 2, 1)] if not ck.thorough else [lambda: sl_gen(ck, 2, 2, 6, 2, 1), lambda: sl_gen(ck, 3, 2, 5, 1, 1)]))
    rnd = random.Random(SEED); progs = []
    cap = ck.pick(40000, 400000)
    for j, h in enumerate(hs):
        if os.environ.get('YAMC_TIMES'): print('   sequences', len(h))
        if len(h) > cap: rnd.shuffle(h); h = h[:cap]
        for i, x in enumerate(h): progs.append(("p%d.%d" % (j, i), " ".join("%s.%d.%d.%d.%d" % o for o in x)))
    ck.programs += len(progs)
    for nd in (True, False):
        exe = build_driver("guard", ndebug=nd)
        chunk = [progs[i::NPROC] for i in range(NPROC)]
        recs = sum(par([lambda c=c: run_driver(exe, c, "shared_lock" + ("" if nd else " (assertions on)")) for c in chunk if c]), [])
        ck.runs += len(recs); ck.traces += len(recs); ck.per_type[recs[0].type] = len(recs)
        ck.validate("YamcSharedLockTrace", {"Slots": "{1,2,3}", "Mutexes": "{1,2}"}, recs, sl_convert, calls=("c", "u", "r", "v", "h"), what="shared_lock did not track its ownership, or did not call its mutex as required", build=dict(driver="guard", ndebug=nd))

# ------------------------------------------------------------------ scoped_lock
OPN = {60: "ctor", 61: "dtor", 62: "lock", 63: "try", 64: "unlock", 65: "adopt"}
def sc_convert(trace):
    evs = []
    for tok in trace.split():
        a = tok.split("."); k = tok[0]
        if k == "c":
            op = OPN[int(a[3])]; v = int(a[4])
            ms = tuple(sorted(int(x) for x in str(v % 1000))) if op in ("ctor", "adopt") else ()
            evs.append(event("c", int(a[1]), 0, op, "", False, v if op in ("lock", "try", "unlock") else 0, ms))
        elif k == "r": evs.append(event("r", int(a[1]), a=int(a[2])))
        elif k == "q": evs.append(event("q"))
        elif k in "jk": pass
        else: evs.append(event("x"))
    return evs
def rec_convert(trace):
    evs = []
    for tok in trace.split():
        a = tok.split("."); k = tok[0]
        if k == "c" and a[1] == "dtor": evs.append(event("c", 0, 0, "dtor"))
        elif k == "c": evs.append(event("c", 0, 0, a[1], s=tuple(int(x) for x in a[2].split(",") if x not in ("-", ""))))
        elif k == "u": evs.append(event("u", 0, int(a[2]), a[1], a=int(a[4])))
        elif k == "r": evs.append(event("r", 0, a=int(a[1])))
        else: evs.append(event("x"))
    return evs

def sc_render(h, pid, n, rnd, own):
    T = [[] for _ in range(n)]
    for i, step in enumerate(h):
        for t, op, ms in step:
            ms = list(ms); rnd.shuffle(ms); code = "".join(map(str, ms)) or "0"
            if own and op == "ctor": code = "1%03d" % int(code)
            T[t].append("%d:0:%s:%d" % (dict(ctor=60, dtor=61, adopt=65, unlock=64)[op] if op != "try" else rnd.choice([62, 63]) if len(step) > 1 and not own else 63, code, i))
            if len(step) > 1 and op == "ctor" and rnd.random() < 0.7: T[t].append("61:0:0")
            elif len(step) > 1 and op == "dtor" and rnd.random() < 0.5:
                ms = rnd.sample([1, 2, 3], rnd.choice([2, 2, 3])); T[t] += ["60:0:" + "".join(map(str, ms)), "61:0:0"]
    return T

def C19(ck):
    for n, m in ((2, 3), (3, 2)): ck.model_check("YamcScoped", {"Threads": threads(n), "Mutexes": "{%s}" % ",".join(map(str, range(1, m + 1)))}, ["TypeOK", "GuardOwns", "Disjoint"], ["AllOrNothing"], name="threads=%d mutexes=%d" % (n, m))
    # every arity, every answer of the mutexes, one thread
    rnd = random.Random(SEED); progs = []; L = ck.pick(7, 9)
    for ty in (0, 1):
        for n in range(0 if ty == 0 else 2, 6 if ty == 0 else 5):
            progs.append(("a%d%d" % (ty, n), "scoped.%d.1.%s" % (ty, ",".join(map(str, range(1, n + 1))))))
            outs = [()] if n == 0 else [(1,), (9,)] if n == 1 else list(itertools.product((1, 0, 9), repeat=L))
            if len(outs) > ck.pick(1500, 20000): outs = rnd.sample(outs, ck.pick(1500, 20000))
            # one failure, anywhere in a long negotiation
            if n >= 2: outs += [tuple([rnd.choice((0, 1)) for _ in range(i)] + [9]) for i in range(1, 30) for _ in range(10)]
            for i, o in enumerate(sorted(set(outs))):
                order = list(range(1, n + 1))
                if ty == 0: rnd.shuffle(order)
                progs.append(("s%d%d.%d" % (ty, n, i), "scoped.%d.0.%s.%s" % (ty, ",".join(map(str, order)), ",".join(map(str, o)))))
    for nd in (True, False):
        recs = run_driver(build_driver("guard", ndebug=nd), progs, "scoped_lock")
        ck.runs += len(recs); ck.traces += len(recs); ck.programs += len(progs)
        ck.validate("YamcScopedTrace", {"Threads": "{0}", "Mutexes": "{1,2,3,4,5}", "Visible": "TRUE"}, recs, rec_convert, calls=("c", "u", "r"), what="scoped_lock did not acquire all or nothing, or did not release exactly what it owns", build=dict(driver="guard", ndebug=nd))
    # several threads in different orders
    k = ck.pick(1, 8); entry = r'<<t(\d+), "(\w+)", \[([\d, ]*)\]>>'
    def gen(own, n, depth, races, sample, **kw):
        hs = sync.gen(ck.work, "YamcScopedGen", {"Mutexes": "{1,2,3}", "Own": str(own).upper()}, depth, races, 0, n=n, sample=sample, entry=entry, fixsets=True, **kw)
        return [[[(t, op, [int(x) for x in re.findall(r"\d", str(ms))]) for t, op, ms in s] for s in h] for h in hs]
    sut = build_sut("scoped")
    types = ["scoped.alternate", "scoped.fair", "scoped.checked", "scoped.checked_timed", "scoped.spin", "scoped.ttas", "scoped.shared", "scoped.fair_shared"]
    for own, ts in ((False, types), (True, types[2:4])):
        hs = gen(own, 3, 4, 2, 200 * k) + gen(own, 3, 4, 3, 200 * k)
        ps = []
        for i, h in enumerate(hs):
            T = sc_render(h, "C19", 3, rnd, own)
            for t in range(3): T[t] += ["61:0:0:%d" % (1000 + 10 * t)] + ["64:0:%d:%d" % (m, 1001 + 10 * t) for m in (1, 2, 3)]
            T[0] += ["63:0:%d:%d" % (m, 2000 + m) for m in (1, 2, 3)]
            ps.append("P C19.%d.%d objs=* spur=%d\n" % (own, i, i % 2) + "\n".join("T " + " ".join(t) for t in T))
        r, st = run_lab(sut, ps, ts, ck.work, "g", maxr=ck.pick(100, 600), rand=ck.pick(12, 60), pb=ck.pick(2, 3), wall=ck.pick(80, 400)); ck.add_stats(r, st, len(ps) * len(ts))
        ck.validate("YamcScopedTrace", {"Threads": threads(3), "Mutexes": "{1,2,3}", "Visible": "FALSE"}, r, sc_convert, what="threads using scoped_lock in different orders stopped, or a failed construction kept a mutex", build=dict(name="scoped"))
