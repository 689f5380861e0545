"""A check: accumulates coverage, model-checking runs, validated traces and violations; writes evidence; decides the exit code."""
import random, threading, traceback
from vlib import *

KNOWN = os.path.join(VERIF, "known_findings.txt")

class Check:
    def __init__(self, pid, tier=None, level="model_checking"):
        self.pid = pid; self.tier = tier or TIER; self.level = level
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="yamc-%s-" % pid)
        self.states = self.transitions = 0          # of the specification alone, explored exhaustively
        self.tstates = self.ttrans = 0              # while validating traces
        self.runs = self.traces = self.validated = 0
        self.programs = 0; self.truncated = 0
        self.corrupted = [0, 0]; self.jt = 0.0; self.skipped = 0
        self.samples = []; self.notes = []; self.violations = []; self.known = []; self.mc = []
        self.types = set(); self.per_type = {}
        self.pool = ThreadPoolExecutor(4); self.pending = []; self.lock = threading.Lock()
        self.known_keys = {}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", l.strip())
                if m and m.group(1) == pid: self.known_keys[m.group(2)] = m.group(3)
    @property
    def thorough(self): return self.tier == "thorough"
    def pick(self, quick, thorough): return thorough if self.thorough else quick

    def late(self):
        """The quick tier must answer in time, also on a tree that makes it slow: what is left then is left out (and counted in the evidence)."""
        t = time.time() - self.t0
        return not self.thorough and (t > 660 or (t > 300 and bool(self.violations)))

    # -- the specification by itself
    def model_check(self, *a, **kw):
        self.pending.append(self.pool.submit(self._model_check, *a, **kw))
    def join(self):
        p, self.pending = self.pending, []
        for f in p: f.result()
    def _model_check(self, module, consts, invariants=(), properties=(), spec="MCSpec", name="", heap="6g", timeout=600, expect_violation=False, constraint=None):
        rc, out, d = tlc(module, cfg_text(spec, consts, invariants=invariants, properties=properties, constraint=constraint), self.work, workers=self.pick(2, 4), heap=heap, timeout=timeout)
        shutil.rmtree(d, ignore_errors=True)
        g, n = tlc_counts(out)
        ok = "No error has been found" in out
        if not ok and not expect_violation: raise CheckError("the specification %s violates its own properties or TLC failed:\n%s" % (module, out[-4000:]))
        if expect_violation and 'is violated' not in out: raise CheckError("%s: expected a violation of %s %s, none found" % (module, invariants, properties))
        with self.lock:
          self.states += n; self.transitions += g
          self.mc.append(dict(module=module, config=name, states=n, transitions=g, invariants=list(invariants), properties=list(properties)))

    # -- executions of the code
    def add_stats(self, recs, stats, nprog):
        self.runs += stats["total"]; self.traces += len(recs); self.programs += nprog; self.truncated += stats["truncated"]
        for r in recs: self.per_type[r.type] = self.per_type.get(r.type, 0) + r.n; self.types.add(r.type)

    def validate(self, module, consts, recs, convert, calls=("c",), relevant=None, what="", limit=3, build=None, tracekey=lambda r: r.trace):
        """recs: laboratory records; convert: trace text -> events."""
        if self.late(): self.skipped += len(recs); return set()
        t0 = time.time(); uniq = {}; which = []
        for r in recs: which.append(uniq.setdefault(tracekey(r), len(uniq)))     # many types behave alike
        uevs = [convert(k) for k in uniq]; evs = [uevs[u] for u in which]; t1 = time.time()
        ubad, g, d = check_traces(module, consts, uevs, self.work, calls=calls)
        bad = {i for i, u in enumerate(which) if u in ubad}
        if os.environ.get("YAMC_TIMES"): print("   validate %s %s: %d traces, %d events, %d distinct states, convert %.1f s, TLC %.1f s" % (module, consts.get("Policy", ""), len(recs), sum(map(len, uevs)), d, t1 - t0, time.time() - t1), flush=True)
        self.lock.acquire()
        try: self._judge(module, consts, recs, convert, calls, relevant, what, limit, build, evs, bad, g, d, tracekey)
        finally: self.lock.release()
        self.pending.append(self.pool.submit(self._corrupt, module, consts, [e for u, e in enumerate(uevs) if u not in ubad], calls))
        return bad
    def _corrupt(self, module, consts, evs, calls, n=120):
        """Is the judgement able to say no?  Falsify one recorded event of accepted executions and judge them again."""
        rnd = random.Random(SEED); out = []
        for e in rnd.sample(evs, min(n, len(evs))):
            # a result, a flag or a number; or an event is lost; or two neighbours change places
            js = [j for j, x in enumerate(e) if x[0] not in ("i", "p")]
            if not js: continue
            j = rnd.choice(js); x = e[j]; how = rnd.randrange(4)
            if how == 0 and j + 1 < len(e) and e[j + 1] != x: f = e[:j] + [e[j + 1], x] + e[j + 2:]
            elif how == 1: f = e[:j] + e[j + 1:]
            elif how == 2 and x[0] in ("r", "h", "v"): f = e[:j] + [x[:5] + (not x[5], 1 - x[6] if x[6] in (0, 1) else 0) + x[7:]] + e[j + 1:]
            else: f = e[:j] + [x[:1] + (x[1] + 1 if x[1] == 0 else x[1] - 1,) + x[2:]] + e[j + 1:]
            out.append(f)
        if not out: return
        try: bad, g, d = check_traces(module, consts, out, self.work, calls=calls, chunks=1)
        except CheckError: return       # an event outside the specification's vocabulary
        with self.lock: self.corrupted[0] += len(out); self.corrupted[1] += len(bad)
    def _judge(self, module, consts, recs, convert, calls, relevant, what, limit, build, evs, bad, g, d, tracekey):
        self.tstates += d; self.ttrans += g
        self.validated += len(recs) - len(bad)
        if len(self.samples) < 3 and recs:
            i = max(range(len(recs)), key=lambda i: (i not in bad, len(evs[i]) if len(evs[i]) < 40 else 0))
            self.samples.append(dict(type=recs[i].type, program=recs[i].progtext.split("\n"), recorded=recs[i].trace, verdict="accepted" if i not in bad else "rejected"))
        done = {}; tries = 0
        for i in sorted(bad, key=lambda i: len(evs[i])):
            r = recs[i]
            if done.get(r.type, 0) >= limit or sum(done.values()) >= 4 * limit or tries >= 60: continue
            if not self.thorough and self.jt > (60 if self.violations else 240): break
            tries += 1; t0 = time.time()
            lp = longest_prefix(module, consts, evs[i], self.work, calls)
            self.jt += time.time() - t0
            if relevant and not relevant(evs[i], lp): continue
            # confirm: run the schedule again and judge it again
            t2, err = replay(r, self.work)
            r2 = Rec(); r2.progtext = r.progtext; r2.type = r.type; r2.prog = r.prog; r2.trace = t2
            e2 = convert(tracekey(r2))
            if e2 != evs[i]:
                b2, _, _ = check_traces(module, consts, [e2], self.work, calls=calls)
                if not b2:
                    self.notes.append("not reproducible, ignored: %s %s" % (r.type, r.trace)); print("NOTE: not reproducible, ignored: %s %s" % (r.type, r.trace)); continue
            done[r.type] = done.get(r.type, 0) + 1
            self.violation(dict(property=self.pid, what=what, type=r.type, sut=os.path.basename(r.sut), build=build, program=r.progtext, mode=r.mode, choices=r.choices,
                                opts=r.opts, module=module, constants=consts, calls=list(calls), prefix=tracekey(r)[:-len(r.trace)] if r.trace else tracekey(r), converter=getattr(convert, "name", convert.__module__ + ":" + convert.__qualname__), recorded=r.trace, accepted_prefix=lp, events=[dict(zip(FIELDS, e)) for e in evs[i]]))

    def violation(self, info, key=None):
        key = key or hashlib.sha256((info.get("type", "") + "|" + info.get("recorded", "")).encode()).hexdigest()[:12]
        if key in self.known_keys:
            self.known.append((key, self.known_keys[key])); return
        d = os.path.join(VERIF, "evidence", "replay"); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.json" % (self.pid, key))
        json.dump(info, open(p, "w"), indent=1, default=list)
        self.violations.append(p)
        if len(self.violations) <= 10:
            toks = info.get("recorded", "").split(); lp = info.get("accepted_prefix", -1)
            print("  %s: %s" % (info.get("type", ""), info.get("what", "")))
            for l in info.get("program", "").split("\n"): print("    | " + l)
            print("    execution: " + (" ".join(toks) if lp < 0 else info.get("recorded", "")) + "   (events accepted: %s)" % lp)

    def finish(self, extra=None):
        self.join()
        ev = dict(property=self.pid, tier=self.tier, seed=SEED, level=self.level, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.validated, samples=self.samples,
                   spec_runs=self.mc, executions_of_the_code=self.runs, distinct_traces=self.traces, programs=self.programs, programs_with_truncated_search=self.truncated,
                   trace_validation_states=self.tstates, trace_validation_transitions=self.ttrans, executions_per_type=self.per_type, left_out_for_lack_of_time=self.skipped, falsified_executions=dict(judged=self.corrupted[0], rejected=self.corrupted[1]), notes=self.notes)
        cov.update(extra or {})
        ev["coverage"] = cov
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        f = os.path.join(VERIF, "evidence", self.pid + ".json")
        json.dump(ev, open(f + ".tmp", "w"), indent=1, default=list); os.rename(f + ".tmp", f)
        shutil.rmtree(self.work, ignore_errors=True)
        for k, txt in sorted(set(self.known)): print("KNOWN-FINDING: property=%s %s" % (self.pid, txt))
        for p in self.violations: print("VIOLATION property=%s replay=%s" % (self.pid, p))
        if not self.violations:
            print("OK %s (%s): %d specification states, %d executions, %d distinct traces validated, %.1f s" % (self.pid, self.tier, self.states, self.runs, self.validated, time.time() - self.t0))
        return 1 if self.violations else 0
