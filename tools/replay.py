#!/usr/bin/env python3
"""replay.py <violation file>: builds the code from the current tree, runs the recorded schedule (or call sequence) again and judges it again.
Exit 1 if the specification rejects it, 0 if it accepts it."""
import importlib, sys
from framework import *

def main(path):
    info = json.load(open(path))
    work = tempfile.mkdtemp(prefix="yamc-replay-")
    try:
        b = dict(info.get("build") or {})
        if "driver" in b:
            sut = build_driver(b["driver"], defs=b.get("defs", ()), ndebug=b.get("ndebug", True), instrument=b.get("instrument", False))
        else: sut = build_sut(**{k: tuple(v) if isinstance(v, list) else v for k, v in b.items()})
        r = Rec(); r.n = 1; r.type = info["type"]; r.mode = info["mode"]; r.choices = info["choices"]; r.sut = sut; r.progtext = info["program"]; r.opts = info["opts"]
        t, err = replay(r, work, verbose=1)
        print(info["program"]); print(t); sys.stderr.write(err)
        print("the execution is the recorded one" if t == info["recorded"] else "the execution differs from the recorded one:\n" + info["recorded"])
        a = info["converter"].split(":"); m = importlib.import_module(a[0]); conv = getattr(m, a[1])
        if len(a) > 2: conv = conv(getattr(m, a[2]))
        evs = conv(info["prefix"] + t); calls = tuple(info["calls"])
        bad, _, _ = check_traces(info["module"], info["constants"], [evs], work, calls=calls)
        if bad:
            n = longest_prefix(info["module"], info["constants"], evs, work, calls)
            print("REJECTED by %s after %d of %d events; the next one was %s" % (info["module"], n, len(evs), dict(zip(FIELDS, evs[n])) if 0 <= n < len(evs) else "-"))
        else: print("accepted by " + info["module"])
        return 1 if bad else 0
    finally: shutil.rmtree(work, ignore_errors=True)
if __name__ == "__main__": sys.exit(main(sys.argv[1]))
