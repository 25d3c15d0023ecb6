"""What each property's random programs concentrate on."""
from store_gen import profile, DEFAULT_OPS

COLL = ["lst", "lst0", "lsta", "lstl", "dct", "dctl", "tot", "rev", "revl", "totl", "totd", "totdl", "mix", "nrl"]
ALL = DEFAULT_OPS + ["ex", "nx", "nc", "many"] + COLL

PROFILES = {
    # P01: values under any history
    "values": profile(ops=ALL, exotic=0.15, rawcoll=0.1, length=(15, 35), loaded=0.5,
                      events={"read": 14, "item": 3, "drop": 1, "cleanup": 0.7, "commit": 3, "clear": 3, "reopen": 4,
                              "noop": 0.5, "allow": 0.3}),
    # P02: what is executed
    "exec": profile(ops=DEFAULT_OPS + ["ex", "nx", "nc", "lst", "tot", "lsta", "rev", "totd", "dct"], repeat=0.35, variant=0.3, atoms=["a", "x", "y", "g.same"],
                    length=(20, 40), handles=0.5, events={"call": 45, "clear": 4, "reopen": 5, "commit": 3, "allow": 2.5, "drop": 1,
                                                          "read": 2, "preload": 3}),
    # P03: commits and crashes
    "crash": profile(ops=DEFAULT_OPS + ["lst", "tot", "dctl", "totd", "lstl", "big"], length=(14, 30), memory=[False], loaded=0.5, excexit=0.35,
                     bigraw=0.05, ovf=[False, True],
                     filefaults=0.2, lock=0.01,
                     events={"faultexit": 6, "killexit": 4, "lockexit": 0.3, "exit": 4, "reopen": 3, "commit": 3, "clear": 4, "forceclear": 1,
                             "preload": 3, "sync": 3, "enter": 8}, snapall=0.3),
    # P04: provenance
    "prov": profile(ops=ALL, variant=0.25, queries=0.9, length=(15, 35), handles=0.75, atoms=["a", "x", "y", "g.same"],
                    events={"item": 3, "commit": 4, "drop": 0.7, "cleanup": 0.3, "sync": 3}, snapall=0.2),
    # P06: collections
    "coll": profile(variant=0.25, ops=COLL + ["f", "g", "idd", "h"], length=(14, 30), handles=0.7, loaded=0.5, queries=0.4, atoms=["a", "x", "y", "z"],
                    events={"item": 8, "read": 8, "drop": 0.7, "cleanup": 0.4}, exotic=0.04),
    # P07: deletion
    "drop": profile(dbof=[["d1"], ["d1"], ["d1", "d1"]], ops=DEFAULT_OPS + ["lst", "tot", "dct", "totd", "lstl", "big", "rev"], length=(20, 40), handles=0.75, queries=0.4,
                    atoms=["a", "x", "y", "g.same"], ovf=[False, False, True], bigraw=0.05, loaded=0.5,
                    events={"twin": 5, "drop": 8, "faultdrop": 1, "killdrop": 1, "cleanup": 4, "commit": 5, "reopen": 3, "item": 2, "read": 4, "forceclear": 0.5}),
    # P08: several sessions, each in a process of its own
    "multi": profile(ops=DEFAULT_OPS + ["lst", "tot", "dct", "ex"], dbof=[["d1", "d1"], ["d1", "d1"], ["d1", "d1", "d1"]], procs=3,
                     length=(30, 60), memory=[False], atoms=["a", "x", "y", "g.same"], repeat=0.3, loaded=0.3,
                     lock=0.02,
                     events={"reopen": 2, "enter": 12, "exit": 7, "commit": 5, "faultexit": 1, "lockexit": 0.5, "race": 6}),
    # P09: nested regions of two storages
    "ctx": profile(ops=DEFAULT_OPS + ["ex", "nx", "nc", "lst", "tot"], dbof=[["d1"], ["d1", "d2"], ["d1", "d2"], ["d1", "d1"]], maxdepth=4, length=(20, 45),
                   modes={"": 3, "run": 3, "noop": 2}, excexit=0.4, snapall=0.25, loaded=0.1,
                   events={"twin": 2, "enter": 16, "exit": 14, "noop": 4, "reopen": 1, "faultexit": 0.7, "commit": 2, "clear": 1, "call": 30}),
    # P17: values on both sides of the threshold
    "overflow": profile(ops=["f", "g", "idd", "big", "lsta", "lst", "tot", "h", "big", "rev"], ovf=[True, True, True, False], bigraw=0.3, length=(14, 30),
                        loaded=0.6, memory=[False, False, True],
                        filefaults=0.7,
                        events={"drop": 3, "cleanup": 3, "faultexit": 2.5, "killexit": 2.5, "read": 8, "reopen": 4, "preload": 3, "clear": 3}),
}
