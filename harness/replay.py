"""Explores spec/StoreMC.tla and performs its behaviours on the real storage."""
import json
import os
import random
import shutil
import time
import traceback
import multiprocessing as mp
from concurrent.futures import ProcessPoolExecutor

from common import *

BASE = dict(dbof=["d1"], procs=1, maxdepth=1, modes=[""], exits=[""], maxhs=4, ovf=False)


def cfg(alphabet, values, kinds, deep, replay, **kw):
    """deep, replay: (quick, thorough) numbers of events of explored and of performed behaviours"""
    return dict(BASE, alphabet=alphabet.split(), values=values.split(), kinds=kinds.split(), deep=deep, replay=replay, **kw)


CONFIGS = {
    # small closed worlds, one or two per property
    "P01": [cfg("lst rev nr", "a", "enter exit call item clear reopen read", (6, 7), (6, 7)),
            cfg("g f", "a x", "enter exit call reopen read cleanup", (6, 7), (5, 6))],
    "P02": [cfg("ex nx", "a x", "enter exit call allow clear preload", (6, 8), (6, 7), exits=["", "user"]),
            cfg("g nr", "x y", "enter exit call reopen drop", (6, 7), (6, 7))],
    "P03": [cfg("lst f", "a", "enter exit call commit faultexit killexit clear reopen", (6, 7), (6, 7), exits=["", "abort"]),
            cfg("dct", "a", "enter exit call faultexit killexit drop reopen", (7, 8), (6, 8))],
    "P04": [cfg("h swp", "a", "enter exit call", (5, 6), (5, 5), maxhs=6),
            cfg("lst idd", "a", "enter exit call item drop", (6, 7), (6, 7))],
    "P06": [cfg("lst rev tot", "a", "enter exit call item", (7, 8), (7, 8)),
            cfg("dctl totl", "a", "enter exit call item reopen drop cleanup", (6, 7), (6, 7))],
    "P07": [cfg("f lst", "a", "enter exit call drop cleanup item", (6, 8), (6, 7)),
            cfg("h", "a", "enter exit call drop commit reopen", (7, 8), (7, 8))],
    "P08": [cfg("f nr", "a x", "enter exit call reopen", (6, 7), (6, 7), dbof=["d1", "d1"], procs=2),
            cfg("g", "x y", "enter exit call drop commit", (6, 7), (6, 7), dbof=["d1", "d1"], procs=2)],
    "P09": [cfg("f nr", "a", "enter exit call noop", (6, 7), (6, 7), dbof=["d1", "d2"], maxdepth=3, modes=["", "run", "noop"], exits=["", "user"]),
            cfg("ex", "x a", "enter exit call noop commit", (6, 7), (6, 7), maxdepth=3, modes=["", "noop"], exits=["", "user"])],
    "P17": [cfg("big idd lst", "a", "enter exit call faultexit killexit", (6, 7), (6, 7), ovf=True),
            cfg("big f", "a", "enter exit call drop cleanup reopen", (6, 7), (6, 7), ovf=True)],
}


def explore(c, n, scratch, show, timeout):
    import store_world
    path = os.path.join(scratch, "mc.json")
    with open(path, "w") as f:
        json.dump(dict({k: c[k] for k in ("dbof", "procs", "maxdepth", "modes", "exits", "maxhs", "alphabet", "values", "kinds")},
                       ops=store_world.OPS, maxev=n, print=show), f)
    return run_tlc("StoreMC", "StoreMC.cfg", scratch, env={"MC_FILE": path}, timeout=timeout, workers="1" if show else "8")


def behaviours(r):
    """the printed behaviours that no other one extends"""
    paths = {json.dumps(json.loads(x), sort_keys=True): json.loads(x) for x in r.lines("@@B")}
    inner = set()
    for p in paths.values():
        for k in range(1, len(p)):
            inner.add(json.dumps(p[:k], sort_keys=True))
    return [paths[k] for k in sorted(paths) if k not in inner]


def perform(a):
    """run one behaviour on the real storage"""
    import store_gen
    import store_world as W
    path, c, seed, scratch = a
    rng = random.Random(seed)
    root = os.path.join(scratch, "b%s" % seed)
    os.makedirs(root)
    events, err, by, drv = [], "", False, None
    one = len(set(c["dbof"])) == len(c["dbof"])
    firsts = [s for s in range(1, len(c["dbof"]) + 1) if c["dbof"][s - 1] not in c["dbof"][:s - 1]]
    try:
        W.sqlite3.connect = W.patched_connect
        drv = (store_gen.Procs if c["procs"] > 1 else store_gen.Local)(root, c["dbof"], ovf=c["ovf"], memory=False, procs=c["procs"])
        depth = {p: [] for p in range(1, c["procs"] + 1)}
        todo = [dict(e) for e in path]
        try:
            while True:
                if not todo:          # leave what is open, then look with new sessions
                    p = next((p for p in depth if depth[p]), None)
                    if p is None:
                        break
                    todo.append({"ev": "exit", "s": depth[p][-1], "p": p, "exc": ""})
                e = todo.pop(0)
                k, p = e["ev"], e["p"]
                if k == "enter":
                    depth[p].append(e["s"])
                elif k == "noop":
                    depth[p].append(depth[p][-1])
                elif k in ("exit", "faultexit", "killexit"):
                    depth[p].pop()
                here = e["s"] and not depth[p]
                e["snap"] = [e["s"]] if e["s"] and k in ("exit", "faultexit", "killexit", "commit", "drop", "cleanup", "reopen") else []
                e["loaded"] = bool(e["snap"]) and rng.random() < 0.2
                e["queries"] = [{"q": "orphans", "hs": [], "single": False}] if here and e["snap"] and one else []
                n = sum(1 for x in events if x["ev"] in ("call", "item") and x["s"] == e["s"] and x["obs"]["kind"] == "R" for _ in x["obs"]["refs"])
                if e["queries"] and n:
                    e["queries"] += [{"q": q, "hs": [rng.randint(1, n)], "single": rng.random() < 0.5} for q in ("creators", "consumers")]
                drv.execute(e)
                events.append(e)
            for s in firsts:
                e = {"ev": "sync", "s": s, "p": s if c["procs"] > 1 else 1, "snap": [s], "loaded": True, "queries": []}
                drv.execute(e)
                events.append(e)
        except Exception as x:
            err, by = traceback.format_exc(), blamed(x)
        return {"events": events, "blamed": by, "ovf": c["ovf"], "dbof": c["dbof"], "genexc": err, "seed": str(seed),
                "path": path, "world": c}
    finally:
        if drv is not None:
            try:
                drv.close()
            except Exception:
                pass
        shutil.rmtree(root, ignore_errors=True)


def model_part(run, scratch, quick, thorough):
    """the specification has its properties on all behaviours of small worlds, and the code performs them"""
    import driver
    import storecheck
    import store_gen  # noqa
    n = thorough if run.thorough else quick
    k = 1 if run.thorough else 0
    for ci, c in enumerate(CONFIGS[run.prop]):
        for n_ev, show in ((c["deep"][k], False), (c["replay"][k], True)):
            if not show and c["deep"][k] <= c["replay"][k]:
                continue          # explored while printing
            r = explore(c, n_ev, scratch, show, 3000 if run.thorough else 400)
            if r.rc != 0:
                raise CheckError("the specification breaks its own laws:\n" + r.out[-3000:])
            run.model(r)
            run.count("model_states", r.distinct)
        bs = behaviours(r)
        run.count("model_behaviours", len(bs))
        rng = random.Random("%s/%d/%d" % (run.prop, ci, SEED))
        pick = bs if len(bs) <= n else rng.sample(bs, n)
        t0 = time.time()
        for a in range(0, len(pick), 2000):
            part = pick[a:a + 2000]
            with ProcessPoolExecutor(8, mp_context=mp.get_context("fork")) as ex:
                traces = list(ex.map(perform, [(b, c, "%d_%d" % (ci, a + j), scratch) for j, b in enumerate(part)], chunksize=8))
            fails, results = storecheck.validate(traces, scratch)
            run.traces += len(traces)
            run.count("behaviours_performed", len(traces))
            for x in results:
                run.model(x)
            driver.judge(run, traces, fails, "behaviour of the model")
            if run.violations:
                return
