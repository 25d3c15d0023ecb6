"""Writes MANIFEST.json from the list of claimed properties."""
import json
TRACE = ("TLA+/TLC: executions of the real code are recorded and every event is checked by TLC against the specification %s; "
         "the specification itself is model checked")
CF_NOTE = ("Random uses of computation frames on random stored graphs (read independently from the database): every operation's result, its operands "
           "afterwards, the maps kept with each frame and the database are compared with the specification. Absence of a violation is relative to the uses explored.")
VERSIONS_NOTE = ("Random programs of two modules (tracked functions and methods, memoized functions, globals of many kinds, nested calls, exceptions, lambdas, generators, callbacks) "
                 "whose files are edited between contexts: which bodies run, values, questions asked, the recorded code history, versions and calls are compared with the specification. "
                 "Absence of a violation is relative to the histories explored.")
STORE_NOTE = ("Every recorded event (results, exceptions, which bodies ran, full database contents through an independent connection) must be "
              "the step the specification allows. Random programs from VERIF_SEED, so absence of a violation is relative to the programs explored; "
              "trusts the Python projection of refs and rows into terms and the injectivity of hashes.")
CLAIMED = {
    "P01": ("Store.tla", STORE_NOTE), "P02": ("Store.tla", STORE_NOTE), "P03": ("Store.tla", STORE_NOTE + " Crashes and errors are injected at write statements, commits and file writes."),
    "P04": ("Store.tla", STORE_NOTE), "P05": ("Args.tla", "Calls with all kinds of signatures: a slice of all calls of small signatures enumerated by TLC and replayed, and random programs with changing signatures; every event must be the step the specification allows."),
    "P06": ("Store.tla", STORE_NOTE), "P07": ("Store.tla", STORE_NOTE),
    "P08": ("Store.tla", STORE_NOTE + " Sessions are separate processes interleaved at the granularity of API calls, plus simultaneous commits and lock conflicts."),
    "P09": ("Store.tla", STORE_NOTE), "P10": ("Versions.tla", VERSIONS_NOTE), "P11": ("Versions.tla", VERSIONS_NOTE), "P12": ("Versions.tla", VERSIONS_NOTE), "P13": ("CF.tla", CF_NOTE), "P14": ("CF.tla", CF_NOTE), "P15": ("CF.tla", CF_NOTE), "P16": ("CF.tla", CF_NOTE), "P17": ("Store.tla", STORE_NOTE),
}
NA = {}
try:
    from mk_manifest_more import MORE, NA  # noqa
    CLAIMED.update(MORE)
except ImportError:
    pass
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = []
for p in props:
    if p in CLAIMED:
        spec, note = CLAIMED[p]
        checks.append({"property": p, "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % p,
                       "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": TRACE % spec,
                       "level": "model_checking", "level_note": note})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
           "not_applicable": [{"property": p, "reason": NA.get(p, "The specification of this part is not written yet.")} for p in props if p not in CLAIMED],
           "notes": "Specifications in spec/ (TLA+, checked with TLC), harness in harness/, entry point check.py. No hooks in /repo: everything is observed through public calls and an independent database connection."},
          open("MANIFEST.json", "w"), indent=1)
