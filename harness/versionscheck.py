"""Histories of changing code, checked against spec/Versions.tla."""
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp
import time

from common import *


def validate(traces, scratch, module="VersionsTrace", timeout=800):
    fails, results = [], []
    for ch in range(0, len(traces), 400):
        part = traces[ch:ch + 400]
        path = os.path.join(scratch, "versions_%d.json" % ch)
        with open(path, "w") as f:
            json.dump({"traces": [{k: t[k] for k in ("events", "code", "body", "value", "ops", "tg")} for t in part]}, f)
        r = run_tlc(module, module + ".cfg", scratch, env={"TRACE_FILE": path}, timeout=timeout)
        os.remove(path)
        results.append(r)
        r.done = [json.loads(x) for x in r.lines("@@DONE")]
        for x in r.lines("@@FAIL"):
            b = json.loads(x)
            b["trace"] += ch - 1
            fails.append(b)
        if len(r.done) != len(part):
            if not r.evalerror():
                raise CheckError("TLC did not finish:\n" + r.out[-3000:])
            # an observation outside what the specification can even describe
            k = min(set(range(1, len(part) + 1)) - {x["t"] for x in r.done})
            fails.append({"trace": ch + k - 1, "event": 0, "ev": "?", "fails": [["undescribable", r.evalerror(), ""]]})
    return fails, results


def record(items, scratch):
    import versions_world
    with ProcessPoolExecutor(8, mp_context=mp.get_context("fork")) as ex:
        return list(ex.map(versions_world.gen_trace, [(s, p, scratch) for s, p in items], chunksize=2))


def versions_part(run, scratch, profile, quick, thorough):
    from driver import seeds
    n = thorough if run.thorough else quick
    items = [(s, profile) for s in seeds(run, "versions" + profile, n)]
    t0 = time.time()
    for ch in range(0, n, 400):
        if run.violations or time.time() - t0 > (3000 if run.thorough else 500):
            return
        part = items[ch:ch + 400]
        traces = record(part, scratch)
        judge(run, *validate(traces, scratch), traces, part)
        if ch == 0:
            run.samples.append([{k: v for k, v in e.items() if k not in ("o", "calls")} for e in traces[0]["events"][:8]])


def judge(run, fails, results, traces, items):
    run.traces += len(traces)
    for r in results:
        run.model(r)
        for x in r.done:
            for k, v in (x["n"] or {}).items():
                run.count("event_" + k, v)
    byt = {}
    for f in fails:
        byt.setdefault(f["trace"], []).append(f)
    for k, fs in sorted(byt.items()):
        first = min(fs, key=lambda f: f["event"])
        run.violate("versions: event %d (%s) of %s: %s" % (first["event"], first["ev"], traces[k]["seed"], str(first["fails"][0])[:400]),
                    {"kind": "versionscheck", "item": items[k], "trace": traces[k], "fails": fs})


def replay(run, data, scratch):
    item = tuple(data["item"])
    if "path" in data["trace"]:
        import versions_replay
        t = [versions_replay.perform((data["trace"]["path"], data["trace"]["world"], item[2], scratch))]
    else:
        t = record([item], scratch)
    judge(run, *validate(t, scratch), t, [item])
