"""Computation frames, checked against spec/CF.tla."""
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp
import time

from common import *


def validate(traces, scratch, module="CFTrace", timeout=800):
    fails, results = [], []
    for ch in range(0, len(traces), 400):
        part = traces[ch:ch + 400]
        path = os.path.join(scratch, "cf_%d.json" % ch)
        with open(path, "w") as f:
            json.dump({"traces": [{"events": t["events"], "g": t["g"]} for t in part]}, f)
        r = run_tlc(module, module + ".cfg", scratch, env={"TRACE_FILE": path}, timeout=timeout)
        os.remove(path)
        results.append(r)
        r.done = [json.loads(x) for x in r.lines("@@DONE")]
        for x in r.lines("@@FAIL"):
            b = json.loads(x)
            b["trace"] += ch - 1
            fails.append(b)
        if len(r.done) != len(part):
            if not r.evalerror():
                raise CheckError("TLC did not finish:\n" + r.out[-3000:])
            # an observation outside what the specification can even describe
            k = min(set(range(1, len(part) + 1)) - {x["t"] for x in r.done})
            fails.append({"trace": ch + k - 1, "event": 0, "ev": "?", "fails": [["undescribable", r.evalerror(), ""]]})
    return fails, results


def record(items, scratch):
    import cf_world
    with ProcessPoolExecutor(8, mp_context=mp.get_context("fork")) as ex:
        return list(ex.map(cf_world.gen_trace, [(s, p, scratch) for s, p in items], chunksize=2))


def cf_part(run, scratch, profile, quick, thorough):
    from driver import seeds
    n = thorough if run.thorough else quick
    items = [(s, profile) for s in seeds(run, "cf" + profile, n)]
    t0 = time.time()
    for ch in range(0, n, 400):
        if run.violations or time.time() - t0 > (3000 if run.thorough else 500):
            return
        part = items[ch:ch + 400]
        traces = record(part, scratch)
        judge(run, *validate(traces, scratch), traces, part)
        if ch == 0:
            run.samples.append([{k: v for k, v in e.items() if k not in ("res", "changed", "twin")} for e in traces[0]["events"][:8]])


def cases_part(run, scratch, views, ops):
    """a slice of all uses of the operations on all restrictions of small frames, enumerated by TLC;
    views, ops: (quick, thorough) which part of the restrictions and of the operations on each"""
    import cf_cases
    kinds = cf_cases.KINDS[run.prop]
    m = ops[run.thorough]
    path = os.path.join(scratch, "cases.json")
    with open(path, "w") as f:
        json.dump({"worlds": cf_cases.worlds(scratch), "vmod": views[run.thorough], "seed": SEED, "kinds": list(kinds),
                   "omod": {k: max(1, n // m) for k, n in kinds.items()}}, f)
    r = run_tlc("CFCases", "CFCases.cfg", scratch, env={"CASES_FILE": path}, timeout=600)
    if r.rc != 0:
        raise CheckError("no cases:\n" + r.out[-3000:])
    cases = sorted((json.loads(x) for x in r.lines("@@C")), key=lambda c: (c["w"], c["k"]))
    run.model(r)
    run.count("enumerated_frames", len(cases))
    run.count("enumerated_uses", sum(len(c["ops"]) for c in cases))
    for ch in range(0, len(cases), 2000):
        part = cases[ch:ch + 2000]
        with ProcessPoolExecutor(8, mp_context=mp.get_context("fork")) as ex:
            traces = list(ex.map(cf_cases.case_trace, [(c, scratch) for c in part], chunksize=2))
        judge(run, *validate(traces, scratch), traces, part)
        if run.violations:
            break


def judge(run, fails, results, traces, items):
    run.traces += len(traces)
    for r in results:
        run.model(r)
        for x in r.done:
            for k, v in (x["n"] or {}).items():
                run.count("op_" + k, v)
    byt = {}
    for f in fails:
        byt.setdefault(f["trace"], []).append(f)
    for k, fs in sorted(byt.items()):
        first = min(fs, key=lambda f: f["event"])
        run.violate("frames: event %d (%s) of %s: %s" % (first["event"], first["ev"], traces[k]["seed"], str(first["fails"][0])[:400]),
                    {"kind": "cfcheck", "item": items[k], "trace": traces[k], "fails": fs})


def replay(run, data, scratch):
    if isinstance(data["item"], dict):
        import cf_cases
        t, item = [cf_cases.case_trace((data["item"], scratch))], data["item"]
    else:
        item = tuple(data["item"])
        t = record([item], scratch)
    judge(run, *validate(t, scratch), t, [item])
