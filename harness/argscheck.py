"""Calls with all kinds of signatures, checked against spec/Args.tla."""
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp

from common import *


def validate(traces, scratch, module="ArgsTrace", timeout=800):
    fails, results = [], []
    for ch in range(0, len(traces), 1000):
        part = traces[ch:ch + 1000]
        path = os.path.join(scratch, "args_%d.json" % ch)
        with open(path, "w") as f:
            json.dump({"traces": [{"events": t["events"]} for t in part]}, f)
        r = run_tlc(module, module + ".cfg", scratch, env={"TRACE_FILE": path}, timeout=timeout)
        os.remove(path)
        results.append(r)
        r.done = [json.loads(x) for x in r.lines("@@DONE")]
        for x in r.lines("@@FAIL"):
            b = json.loads(x)
            b["trace"] += ch - 1
            fails.append(b)
        if len(r.done) != len(part):
            if not r.evalerror():
                raise CheckError("TLC did not finish:\n" + r.out[-3000:])
            # an observation outside what the specification can even describe
            k = min(set(range(1, len(part) + 1)) - {x["t"] for x in r.done})
            fails.append({"trace": ch + k - 1, "event": 0, "ev": "?", "fails": [["undescribable", r.evalerror(), ""]]})
    return fails, results


def record(seeds, scratch, fn=None):
    import args_world
    with ProcessPoolExecutor(8, mp_context=mp.get_context("fork")) as ex:
        return list(ex.map(fn or args_world.gen_trace, [(s, scratch) for s in seeds], chunksize=4))


def args_part(run, scratch, nrandom, slices):
    """all calls of a slice of the small signatures, enumerated by TLC, then random programs; both judged by TLC"""
    import args_world
    from driver import seeds
    out = os.path.join(scratch, "cases.json")
    env = {"ARGS_OUT": out, "ARGS_SLICES": str(slices), "ARGS_SLICE": str(SEED % slices)}
    if run.thorough:
        env["ARGS_DEEP"] = "1"
    r = run_tlc("ArgsMC", "ArgsMC.cfg", scratch, env=env)
    if r.rc != 0:
        raise CheckError("ArgsMC: " + r.out[-2000:])
    run.model(r)
    run.count("small_signatures_and_calls_model_checked", r.distinct)
    import random
    rng, cases = random.Random("cases/%d" % SEED), []
    for k, c in enumerate(json.load(open(out))):
        calls = c["calls"]
        rng.shuffle(calls)
        for j in range(0, len(calls), 45):
            cases.append(("case-%d-%d" % (k, j), c["sig"], calls[j:j + 45]))
    run.count("enumerated_calls_replayed", sum(len(c[2]) for c in cases))
    for kind, items, fn in (("cases", cases, args_world.case_trace), ("random", seeds(run, "args", nrandom), args_world.gen_trace)):
        for ch in range(0, len(items), 2000):
            if run.violations:
                return
            traces = record(items[ch:ch + 2000], scratch, fn)
            judge(run, *validate(traces, scratch), traces, items[ch:ch + 2000])
            if kind == "random" and ch == 0:
                run.samples.append([{k: v for k, v in e.items() if k != "obs"} for e in traces[0]["events"][:6]])


def judge(run, fails, results, traces, items):
    run.traces += len(traces)
    for r in results:
        run.model(r)
        for j, n in enumerate(("executed", "served", "rejected")):
            run.count("calls_" + n, sum(x["n"][j] for x in r.done))
    byt = {}
    for f in fails:
        byt.setdefault(f["trace"], []).append(f)
    for k, fs in sorted(byt.items()):
        first = min(fs, key=lambda f: f["event"])
        run.violate("args: event %d of %s: %s" % (first["event"], traces[k]["seed"], first["fails"][0]),
                    {"kind": "argscheck", "item": items[k], "trace": traces[k], "fails": fs})


def replay(run, data, scratch):
    import args_world
    it = data["item"]
    t = (args_world.gen_trace if isinstance(it, str) else args_world.case_trace)((it, scratch))
    judge(run, *validate([t], scratch), [t], [it])
