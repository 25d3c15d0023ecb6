"""Runs the parts of each property's check and gives the verdict."""
import json
import os
import random
import shutil
import sys
import time
import traceback

from common import *

LEVEL = "model_checking"


class Run:
    """What one check run covered and found."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.thorough = tier == "thorough"
        self.states = self.transitions = self.traces = 0
        self.cov, self.samples, self.violations, self.known = {}, [], [], []
        self.assumptions = []
        self.notes = []

    def model(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def violate(self, what, data):
        self.violations.append((what, data))

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n


def seeds(run, name, n):
    rng = random.Random("%s/%s/%d" % (name, run.prop, SEED))
    return ["%s-%d" % (name, rng.getrandbits(40)) for _ in range(n)]


# clauses of spec/StoreTrace that bear on a property
ANY = ("",)
CLAUSES = {
    "P01": ("val", "read", "load", "plain", "nout", "kind", "items", "cid", "exc", "mode", "db.where", "db.atoms", "db.shape", "db.item", "undescribable"),
    "P02": ("exec", "exc", "mode", "undescribable", "plain"),
    "P03": ANY, "P04": ANY, "P06": ANY, "P07": ANY, "P08": ANY, "P09": ANY, "P17": ANY,
}


def store_part(run, scratch, profile, quick, thorough):
    import storecheck
    import store_profiles
    n = thorough if run.thorough else quick
    done, t0 = 0, time.time()
    prof = store_profiles.PROFILES[profile]
    allseeds = seeds(run, profile, n)
    budget = 3000 if run.thorough else 500
    while done < n and not run.violations and time.time() - t0 < budget:
        part = allseeds[done:done + 400]
        traces = storecheck.record(part, prof, scratch)
        fails, results = storecheck.validate(traces, scratch)
        done += len(part)
        run.traces += len(traces)
        for r in results:
            run.model(r)
            for k, v in r.how.items():
                run.count("calls_" + k, v)
        for t in traces:
            for e in t["events"]:
                run.count("event_" + e["ev"])
                if e["obs"]["fired"]:
                    run.count("faults_fired")
                run.count("snapshots", len(e["obs"]["snaps"]))
        if not run.samples:
            run.samples.append([{k: v for k, v in e.items() if k not in ("obs", "queries")} for e in traces[0]["events"][:12]])
        judge(run, traces, fails, profile)


def judge(run, traces, fails, what):
    bad = {}
    for f in fails:
        keep = [c for c in f["fails"] if c[0] == "undescribable" or any(c[0].startswith(x) for x in CLAUSES[run.prop])]
        if keep:
            bad.setdefault(f["trace"], []).append(dict(f, fails=keep))
    for k, fs in sorted(bad.items()):
        t = traces[k]
        first = min(fs, key=lambda f: f["event"])
        run.violate("%s: event %d (%s): %s" % (what, first["event"], first["ev"], first["fails"][0]),
                    {"kind": "store", "profile": what, "trace": t, "fails": sorted(fs, key=lambda f: f["event"])})
    failed = {f["trace"] for f in fails}
    for k, t in enumerate(traces):
        if t.get("genexc") and k not in failed:
            if t.get("blamed"):
                run.violate("%s: the code raised between the recorded events: %s" % (what, t["genexc"][-500:]),
                            {"kind": "store", "profile": what, "trace": t, "fails": []})
                continue
            raise CheckError("recording failed: " + t["genexc"])


def args_part(run, scratch, quick, thorough):
    import argscheck
    argscheck.args_part(run, scratch, *(thorough if run.thorough else quick))


def cf_part(run, scratch, profile, quick, thorough):
    import cfcheck
    cfcheck.cf_part(run, scratch, profile, quick, thorough)


def cf_cases(run, scratch, views, ops):
    import cfcheck
    cfcheck.cases_part(run, scratch, views, ops)


def versions_part(run, scratch, profile, quick, thorough):
    import versionscheck
    versionscheck.versions_part(run, scratch, profile, quick, thorough)


def model_part(run, scratch, quick, thorough):
    import replay
    replay.model_part(run, scratch, quick, thorough)


def laws_part(run, scratch, quick, thorough):
    """The laws of a property, model-checked on the specification itself."""
    for cfg in (thorough if run.thorough else quick):
        r = run_tlc(cfg.split("-")[0], cfg + ".cfg", scratch, timeout=3000 if run.thorough else 400)
        if r.rc != 0 or not r.distinct:
            raise CheckError("the specification breaks its own laws (%s):\n%s" % (cfg, r.out[-3000:]))
        run.model(r)
        run.count("law_states", r.distinct)


def versions_model(run, scratch, quick, thorough):
    import versions_replay
    versions_replay.model_part(run, scratch, quick, thorough)


PARTS = {
    "P01": [(store_part, "values", 130, 3000), (model_part, 150, 12000)],
    "P02": [(store_part, "exec", 220, 5000), (model_part, 150, 12000)],
    "P03": [(store_part, "crash", 200, 4000), (model_part, 150, 12000)],
    "P04": [(store_part, "prov", 140, 3000), (model_part, 150, 12000)],
    "P05": [(args_part, (450, 10), (8000, 1))],
    "P06": [(store_part, "coll", 120, 2500), (model_part, 150, 12000)],
    "P07": [(store_part, "drop", 200, 4000), (model_part, 150, 12000)],
    "P08": [(store_part, "multi", 160, 3000), (model_part, 150, 12000)],
    "P09": [(store_part, "ctx", 260, 6000), (model_part, 150, 12000)],
    "P10": [(versions_part, "reuse", 600, 20000), (versions_model, 120, 12000)],
    "P11": [(versions_part, "history", 600, 20000), (versions_model, 120, 12000)],
    "P12": [(versions_part, "deps", 600, 20000), (versions_model, 120, 12000)],
    "P13": [(cf_part, "frames", 1600, 40000), (cf_cases, (128, 16), (1, 2)), (laws_part, ("CFMC-Pairs",), ("CFMC", "CFMC-PairsDeep"))],
    "P14": [(cf_part, "expand", 1600, 40000), (cf_cases, (64, 4), (1, 2))],
    "P15": [(cf_part, "sets", 1600, 40000), (cf_cases, (128, 8), (1, 2)), (laws_part, ("CFMC",), ("CFMC-Deep", "CFMC-PairsDeep"))],
    "P16": [(cf_part, "tables", 1600, 40000), (cf_cases, (48, 4), (1, 3)), (laws_part, ("CFMC-Tables",), ("CFMC-TablesDeep",))],
    "P17": [(store_part, "overflow", 240, 5000), (model_part, 150, 12000)],
}


def findings(run):
    """print the recorded findings that still fail, through their own probes"""
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return
    import probes
    for f in json.load(open(path))["known"]:
        if f["property"] == run.prop:
            try:
                seen = getattr(probes, f["probe"])()
            except Exception:
                seen = False
            if seen:
                print("KNOWN-FINDING: property=%s %s" % (run.prop, f["what"]))
                run.known.append(f["what"])


def write_evidence(run, wall):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {"states": run.states, "transitions": run.transitions, "traces_validated_against_impl": run.traces,
           "samples": run.samples[:5] or ["none"]}
    cov.update({k: v for k, v in sorted(run.cov.items())})
    if run.known:
        cov["known_findings_seen"] = run.known
    with open(os.path.join(VERIF, "evidence", run.prop + ".json"), "w") as f:
        json.dump({"property": run.prop, "tier": run.tier, "seed": SEED, "level": LEVEL, "coverage": cov,
                   "assumptions": run.assumptions, "wall_s": round(wall, 1), "violations": len(run.violations)}, f, indent=1, default=str)


def save_replay(run, k, data):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s_%d.json" % (run.prop, k))
    with open(path, "w") as f:
        json.dump(dict(data, property=run.prop), f, default=str)
    return path


def main(argv):
    quiet()
    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    prop = argv[0]
    tier = argv[argv.index("--tier") + 1] if "--tier" in argv else os.environ.get("VERIF_TIER", "quick")
    run = Run(prop, tier)
    t0 = time.time()
    try:
        with Scratch("verif_" + prop) as sc:
            findings(run)
            for part in PARTS[prop]:
                part[0](run, sc, *part[1:])
    except CheckError as e:
        if not run.violations:
            print("CHECK-ERROR", e)
            return 3
    except Broken as e:
        run.violate("the code raised while its use was being recorded: " + e.text[-500:],
                    {"kind": "raised", "module": e.module, "fn": e.fn, "item": e.item, "text": e.text})
    except Exception as e:
        text = traceback.format_exc()
        if not blamed(e):
            print("CHECK-ERROR", text)
            return 3
        run.violate("the code raised while its use was being prepared: " + text[-500:],
                    {"kind": "raised", "module": "", "fn": "", "item": None, "text": text})
    write_evidence(run, time.time() - t0)
    for k, (what, data) in enumerate(run.violations[:5]):
        print("VIOLATION property=%s replay=%s" % (prop, save_replay(run, k, data)))
        print("   " + what[:600])
    if not run.violations:
        print("OK property=%s %s" % (prop, json.dumps({"states": run.states, "traces": run.traces, **run.cov})))
    return 1 if run.violations else 0


def replay(path):
    """run the recorded events again on the code as it is and judge them"""
    data = json.load(open(path))
    run = Run(data["property"], "quick")
    with Scratch("verif_replay") as sc:
        if data["kind"] == "store":
            import storecheck
            import store_gen
            t = data["trace"]
            if "path" in t:
                import replay as behaviours
                again = behaviours.perform((t["path"], t["world"], t["seed"], sc))
            else:
                again = store_gen.gen_trace(t["seed"], __import__("store_profiles").PROFILES[data["profile"]], sc)
            fails, _ = storecheck.validate([again], sc)
            judge(run, [again], fails, data["profile"])
        elif data["kind"] == "raised":
            import importlib
            if not data["fn"]:
                return main([data["property"]])
            try:
                getattr(importlib.import_module(data["module"]), data["fn"])((*data["item"], sc))
            except Broken as e:
                run.violate(e.text, {})
        else:
            import importlib
            importlib.import_module(data["kind"]).replay(run, data, sc)
    for what, _ in run.violations:
        print("VIOLATION property=%s replay=%s" % (data["property"], path))
        print("   " + what[:2000])
    return 1 if run.violations else 0
