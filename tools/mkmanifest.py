#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks."""
import importlib, json, os, sys
from vlib import VERIF
TECH = dict(
  lock="TLA+ specification YamcLock checked with TLC; test programs generated by TLC from it, run in a deterministic schedule laboratory; recorded executions validated against it by TLC",
  checked="TLA+ specification YamcChecked (ownership, misuse, wait-for graph) checked with TLC; TLC-generated programs; recorded executions validated by TLC",
  sem="TLA+ specification YamcSem checked with TLC; recorded executions (with timeouts, spurious wakeups, EINTR) validated by TLC",
  latch="TLA+ specification YamcLatch checked with TLC; recorded executions validated by TLC",
  barrier="TLA+ specification YamcBarrier checked with TLC; recorded executions validated by TLC",
  guard="TLA+ specification YamcGuard of shared_lock and scoped_lock checked with TLC; TLC-generated call sequences replayed on the real classes over a recording mutex; validated by TLC",
  hb="TLA+ specification YamcHB (vector-clock happens-before over the recorded synchronisation operations); executions validated by TLC",
  backoff="TLA+ specification YamcBackoff; recorded retry/yield sequences of the spinlocks validated by TLC",
  destroy="TLA+ specifications of the primitives with a destroy action; executions that destroy as early as allowed are recorded with a use-after-destroy monitor and validated by TLC",
  plat="the portable TLA+ specifications applied to the Windows/Apple wrappers compiled over specified native primitives; executions validated by TLC")
LOCK = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C24".split()
KIND = {**{p: "lock" for p in LOCK}, "C11": "checked", "C12": "checked", "C13": "sem", "C14": "sem", "C15": "latch", "C16": "barrier", "C17": "barrier",
        "C18": "guard", "C19": "guard", "C20": "hb", "C21": "backoff", "C22": "destroy", "C23": "plat"}
NOTE = ("The specification is explored exhaustively for small numbers of threads. The code is bound to it by validating recorded executions of the unmodified headers: "
        "every schedule up to a preemption bound for thousands of generated small programs, plus random schedules. Trusted: the laboratory's model of pthread primitives, clocks and "
        "sequentially consistent atomics, g++'s instrumentation, TLC. Not covered: more than 16 threads (apart from crowds of threads that make the same request), executions outside the bounds.")
sys.path.insert(0, os.path.join(VERIF, "tools"))
checks, na = [], []
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
mods = [importlib.import_module(m) for m in ("checks_lock", "checks_checked", "checks_sync", "checks_guard", "checks_mem", "checks_plat") if os.path.exists(os.path.join(VERIF, "tools", m + ".py"))]
for p in props:
    i = p["id"]
    if any(hasattr(m, i) for m in mods):
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i, thorough_cmd="python3 tools/check.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
                           technique=TECH[KIND[i]], level="model_checking", level_note=NOTE))
    else: na.append(dict(property=i, reason="check under construction"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         hooks=dict(guard="none", enable="no hook is needed: the checks compile the unmodified headers of /repo/include and observe the public API", source_commits=[]),
         notes="See DESIGN.md. Replay a reported violation with: python3 tools/replay.py <path>")
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
