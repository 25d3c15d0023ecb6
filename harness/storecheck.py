"""Records traces of the storage and checks them against spec/StoreTrace.tla."""
import json
import os
import sys
import time
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp

from common import *


def _rec(a):
    import store_gen
    seed, prof, scratch = a
    return store_gen.gen_trace(seed, prof, scratch)


def record(seeds, prof, scratch, workers=8):
    """record one trace per seed, in parallel"""
    import store_gen  # noqa: import once, before forking
    with ProcessPoolExecutor(workers, mp_context=mp.get_context("fork")) as ex:
        return list(ex.map(_rec, [(s, prof, scratch) for s in seeds], chunksize=4))


def validate(traces, scratch, workers=8, timeout=800, module="StoreTrace"):
    """returns (list of failures, TLCResult list); each failure has trace index, event index, clauses"""
    import store_world
    groups = {}
    for k, t in enumerate(traces):
        groups.setdefault(tuple(t["dbof"]), []).append(k)
    fails, results = [], []
    for dbof, ks in sorted(groups.items()):
        for ch in range(0, len(ks), 400):
            idx = ks[ch:ch + 400]
            path = os.path.join(scratch, "traces_%d.json" % idx[0])
            procs = max([e["p"] for k in idx for e in traces[k]["events"]] + [1])
            with open(path, "w") as f:
                json.dump({"traces": [{"events": traces[k]["events"], "ovf": traces[k]["ovf"]} for k in idx],
                           "ops": store_world.OPS, "dbof": [list(dbof)], "procs": procs}, f)
            r = run_tlc(module, module + ".cfg", scratch, env={"TRACE_FILE": path}, timeout=timeout, workers=workers)
            os.remove(path)
            results.append(r)
            ends = [json.loads(x) for x in r.lines("@@DONE")]
            done = {x["t"] for x in ends}
            r.how = {}
            for x in ends:
                for h in x["n"]:
                    r.how[h] = r.how.get(h, 0) + 1
            bad = [json.loads(x) for x in r.lines("@@FAIL")]
            for b in bad:
                b["trace"] = idx[b["trace"] - 1]
                fails.append(b)
            if len(done) != len(idx):
                if not r.evalerror():
                    raise CheckError("TLC did not finish:\n" + r.out[-3000:])
                # an observation outside what the specification can even describe
                fails.append({"trace": idx[min(set(range(1, len(idx) + 1)) - done) - 1], "event": 0, "ev": "?",
                              "fails": [["undescribable", r.evalerror(), ""]]})
    return fails, results
