"""Executes events of spec/Store.tla on the real storage and records what is observed.

Nothing here decides whether an observation is right: the observations are written
down and spec/StoreTrace.tla compares them with the specification.
"""
import collections
import contextlib
import copy
import io
import os
import resource
import signal
import sqlite3
import threading
import time as _time

from common import quiet

quiet()
import numpy as np
import pandas as pd

import mandala.storage as mstorage
import mandala.storage_utils as mutils
from typing import Any, Tuple
from mandala.imports import *
from mandala.model import Context, Ref, AtomRef, ListRef, DictRef, Op, ValuePointer
from mandala.utils import deserialize, serialize

BIG_UNIT = 150000        # characters in a "large" value; the threshold is set below this


# ---------------------------------------------------------------- values
class UserError(Exception):
    pass


class UserAbort(BaseException):
    """like KeyboardInterrupt: not an Exception"""


EXITS = {"user": UserError, "abort": UserAbort, "interrupt": KeyboardInterrupt, "exit": SystemExit, "generator": GeneratorExit}


Point = collections.namedtuple("Point", "x y")


class Listy(list):
    pass


EXOTIC = {
    "$point": lambda: Point(1, "a"),
    "$points": lambda: (Point(1, "a"), [2]),
    "$ordered": lambda: collections.OrderedDict([("b", 1), ("a", [2])]),
    "$default": lambda: collections.defaultdict(list, {"a": [1]}),
    "$count": lambda: collections.Counter("aab"),
    "$listy": lambda: Listy([1, "a"]),
    "$none": lambda: None,
    "$true": lambda: True,
    "$1f": lambda: 1.0,
    "$nan": lambda: float("inf"),
    "$bytes": lambda: b"ab\x00c",
    "$tup": lambda: (1, "a", (2,)),
    "$tup2": lambda: (1, "a", 2),
    "$set": lambda: frozenset({"p", "q"}),
    "$arr": lambda: np.arange(6).reshape(2, 3),
    "$arr2": lambda: np.arange(6).reshape(3, 2),
    "$arrf": lambda: np.arange(6, dtype=float).reshape(2, 3),
    "$df": lambda: pd.DataFrame({"a": [1, 2], "b": ["u", "v"]}),
    "$df2": lambda: pd.DataFrame({"b": [1, 2], "a": ["u", "v"]}),
    "$empty": lambda: "",
    "$uni": lambda: "é☃",
}


def _eq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and bool((a == b).all())
    if isinstance(a, pd.DataFrame):
        return a.equals(b) and list(a.columns) == list(b.columns)
    if isinstance(a, (tuple, Listy)):
        return len(a) == len(b) and all(_eq(x, y) for x, y in zip(a, b))
    return a == b


def big_py(v):
    return "<big:%s>" % v + "#" * BIG_UNIT


def S(x):
    return {"t": "s", "v": x, "k": [], "e": []}


def enc(o):
    """python value -> value of the specification"""
    if isinstance(o, str) and o.startswith("<big:") and o.endswith("#" * BIG_UNIT):
        v = o[5:-BIG_UNIT - 1]
        if big_py(v) == o:
            return {"t": "b", "v": v, "k": [], "e": []}
    if isinstance(o, str) and o not in ("", "é☃"):
        return S(o)
    if type(o) is int:
        return {"t": "i", "v": str(o), "k": [], "e": []}
    if type(o) is list:
        return {"t": "l", "v": "", "k": [], "e": [enc(x) for x in o]}
    if type(o) is dict:
        ks = sorted(str(k) for k in o)
        return {"t": "d", "v": "", "k": ks, "e": [enc(o[k]) for k in ks]}
    for name, mk in EXOTIC.items():
        if _eq(o, mk()):
            return S(name)
    return {"t": "?", "v": "%s:%.60r" % (type(o).__name__, o), "k": [], "e": []}


def dec(v):
    if v["t"] == "s":
        return EXOTIC[v["v"]]() if v["v"] in EXOTIC else v["v"]
    if v["t"] == "b":
        return big_py(v["v"])
    if v["t"] == "i":
        return int(v["v"])
    if v["t"] == "l":
        return [dec(x) for x in v["e"]]
    if v["t"] == "d":
        return {k: dec(x) for k, x in zip(v["k"], v["e"])}
    raise ValueError(v)


def vrepr(v):
    if v["t"] == "s":
        return "'" + v["v"] + "'"
    if v["t"] == "b":
        return "<" + v["v"] + ">"
    if v["t"] == "i":
        return v["v"]
    if v["t"] == "l":
        return "[" + ",".join(vrepr(x) for x in v["e"]) + "]"
    if v["t"] == "d":
        return "{" + ",".join(k + ":" + vrepr(x) for k, x in zip(v["k"], v["e"])) + "}"
    return "?" + v["v"]


# ---------------------------------------------------------------- user functions
TA = {"t": "A", "e": []}


def TL(e=TA):
    return {"t": "L", "e": [e]}


def TD(e=TA):
    return {"t": "D", "e": [e]}


def annot(tp):
    if tp["t"] == "L":
        return MList[annot(tp["e"][0])]
    if tp["t"] == "D":
        return MDict[str, annot(tp["e"][0])]
    return Any


def D(body, pn=("a",), ptp=None, on=("output_0",), otp=None, inner="f", named=False, nout="auto"):
    pn, on = list(pn), list(on)
    srt = [i + 1 for i in sorted(range(len(pn)), key=lambda i: pn[i])]
    return {"body": body, "srt": srt, "pn": pn, "ptp": ptp or [TA] * len(pn), "on": on,
            "otp": otp or [TA] * len(on), "inner": inner, "named": named, "nout": str(nout)}


OPS = {
    "f": D("cat"),
    "g": D("par"),
    "h": D("cat", pn=("a", "b")),
    "idd": D("id", nout=1),
    "two": D("cat", on=("output_0", "output_1")),
    "va": D("cat", on=("output_0", "output_1", "output_2"), nout="var"),
    "tw2": D("swap", pn=("b", "a"), on=("output_0", "output_1"), nout=2),
    "swp": D("swap", pn=("a", "b"), on=("q", "p"), named=True),
    "nam": D("cat", on=("r2", "r1"), named=True),
    "many": D("cat", on=["output_%d" % i for i in range(12)]),
    "con": D("const", on=("output_0", "output_1")),
    "ex": D("ex"),
    "lst": D("mkl", otp=[TL()]),
    "lst0": D("mkl0", otp=[TL()]),
    "lsta": D("mkl"),                      # a list kept as one value
    "lstl": D("mkll", otp=[TL(TL())]),
    "dct": D("mkd", otp=[TD()]),
    "dctl": D("mkdl", otp=[TD(TL())]),
    "tot": D("cat", ptp=[TL()]),
    "rev": D("rev", ptp=[TL()], otp=[TL()]),
    "revl": D("rev", ptp=[TL(TL())], otp=[TL(TL())]),
    "totl": D("cat", ptp=[TL(TL())]),
    "totd": D("cat", ptp=[TD()]),
    "totdl": D("cat", ptp=[TD(TL())]),
    "mix": D("cat", pn=("a", "b"), ptp=[TL(), TA]),
    "nr": D("nestr", inner="g"),
    "nrl": D("nestr", inner="lst", otp=[TL()]),
    "nn": D("nestn", inner="g"),
    "na": D("nesta", inner="f"),
    "nx": D("nestx", inner="f"),
    "nc": D("nestc", inner="ex"),
    "big": D("big"),
}

CURRENT = None            # the world whose functions are being run (for nested bodies)


def run_body(name, D_, vals):
    w = CURRENT
    w.exec_log.append(name)
    b = D_["body"]
    rep = ",".join(vrepr(enc(v)) for v in vals)

    def cat(k="1", r=rep):
        return "%s.%s(%s)" % (name, k, r)

    def own():        # equal to the argument, but not the same object (see DESIGN.md, sharing)
        return copy.deepcopy(vals[0])
    special = isinstance(vals[0], str) and vals[0] in ("x", "y")
    if b == "cat":
        outs = [cat(str(k + 1)) for k in range(len(D_["on"]))]
    elif b == "par":
        outs = [name + ".same" if special else cat()]
    elif b == "id":
        outs = [vals[0]]
    elif b == "swap":
        outs = [vals[1], vals[0]]
    elif b == "const":
        outs = ["const%d" % (k + 1) for k in range(len(D_["on"]))]
    elif b == "big":
        outs = [big_py("%s(%s)" % (name, rep))]
    elif b == "mkl":
        outs = [[vals[0], cat(), own()]]
    elif b == "mkl0":
        outs = [[]]
    elif b == "mkll":
        outs = [[[vals[0]], [], ["z", own()]]]
    elif b == "mkd":
        outs = [{"k2": cat(), "k1": vals[0]}]
    elif b == "mkdl":
        outs = [{"k1": [vals[0], "z"], "k2": []}]
    elif b == "rev":
        outs = [list(reversed(vals[0]))]
    elif b == "ex":
        if special:
            raise (UserAbort if vals[0] == "y" else UserError)(name)
        outs = [cat()]
    elif b == "nestr":
        outs = [w.ops[D_["inner"]](vals[0])]
    elif b == "nestn":
        with noop():
            outs = [cat(r=vrepr(enc(w.ops[D_["inner"]](vals[0]))))]
    elif b == "nesta":
        r = w.ops[D_["inner"]](vals[0])
        outs = [cat(r=vrepr(enc(w.plain(r))))]
    elif b == "nestx":
        r = w.ops[D_["inner"]](vals[0])
        if special:
            raise (UserAbort if vals[0] == "y" else UserError)(name)
        outs = [cat(r=vrepr(enc(w.plain(r))))]
    elif b == "nestc":
        try:
            r = w.ops[D_["inner"]](vals[0])
            outs = [cat(r=vrepr(enc(w.plain(r))))]
        except (UserError, UserAbort):
            outs = [name + ".caught"]
    else:
        raise AssertionError(b)
    return tuple(outs) if is_tuple(D_) else outs[0]


def is_tuple(D_):
    return len(D_["on"]) > 1 or D_["nout"] != "auto"


def make_op(name, D_):
    ns = {"run_body": run_body, "D_": D_, "name": name}
    exec("def %s(%s):\n    return run_body(name, D_, (%s,))" % (name, ", ".join(D_["pn"]), ", ".join(D_["pn"])), ns)
    f = ns[name]
    f.__module__ = __name__
    ann = {n: annot(t) for n, t in zip(D_["pn"], D_["ptp"])}
    outs = [annot(t) for t in D_["otp"]]
    ann["return"] = outs[0] if len(outs) == 1 else Tuple[tuple(outs)]
    if any(t["t"] != "A" for t in D_["ptp"] + D_["otp"]):
        f.__annotations__ = ann
    kw = {}
    if D_["named"]:
        kw["output_names"] = list(D_["on"])
    if D_["nout"] != "auto":
        kw["nout"] = int(D_["nout"]) if D_["nout"].isdigit() else D_["nout"]
    return op(**kw)(f) if kw else op(f)


# ---------------------------------------------------------------- faults
class InjectedFault(sqlite3.DatabaseError):
    pass


class FaultPlan:
    """Raises (or kills the process) before the n-th write statement or commit."""
    def __init__(self, n, kind):
        self.n, self.kind, self.count, self.fired = n, kind, 0, False

    def tick(self):
        self.count += 1
        if self.count == self.n:
            self.fired = True
            if self.kind == "kill":
                os._exit(9)
            raise InjectedFault("injected")


PLAN = None
_real_connect = sqlite3.connect


class FaultyConnection(sqlite3.Connection):
    def execute(self, sql, *a):
        if PLAN is not None and sql.lstrip().split(None, 1)[0].upper() in ("INSERT", "DELETE", "UPDATE", "REPLACE"):
            PLAN.tick()
        return super().execute(sql, *a)

    def executemany(self, sql, *a):
        if PLAN is not None:
            PLAN.tick()
        return super().executemany(sql, *a)

    def commit(self):
        if PLAN is not None and self.in_transaction:
            PLAN.tick()
        return super().commit()

    def __exit__(self, et, ev, tb):
        if et is None and PLAN is not None and self.in_transaction:
            try:
                PLAN.tick()
            except InjectedFault:
                super().__exit__(InjectedFault, None, None)
                raise
        return super().__exit__(et, ev, tb)


CONNECT_TIMEOUT = None


def _sleep(sec):
    _time_sleep(min(sec, 0.2) if CONNECT_TIMEOUT is not None else sec)


_time_sleep = _time.sleep


class Locker:
    """another program that holds the write lock of a database for a while"""

    def __init__(self, path, hold):
        self.conn = _real_connect(path, isolation_level=None, check_same_thread=False, timeout=20)
        self.conn.execute("BEGIN IMMEDIATE")
        self.timer = threading.Timer(hold, self.release)
        self.timer.start()
        self.done = False

    def release(self):
        self.conn.execute("ROLLBACK")
        self.conn.close()

    def close(self):
        self.timer.join()


def patched_connect(*a, **kw):
    kw.setdefault("factory", FaultyConnection)
    if CONNECT_TIMEOUT is not None:
        kw["timeout"] = CONNECT_TIMEOUT
    return _real_connect(*a, **kw)


def exc_name(e):
    if isinstance(e, (UserError, UserAbort)):
        return "user"
    if isinstance(e, InjectedFault) or isinstance(e, OSError):
        return "dberror"
    if isinstance(e, sqlite3.OperationalError):
        return "dberror"
    if isinstance(e, ValueError) and "too large" in str(e):
        return "toolarge"
    if isinstance(e, RuntimeError) and "not allowed" in str(e):
        return "notallowed"
    if isinstance(e, ValueError) and "uncommitted" in str(e):
        return "uncommitted"
    return "%s: %.200s" % (type(e).__name__, e)


# ---------------------------------------------------------------- the world
class World:
    """Sessions living in one process."""

    def __init__(self, root, dbof, ovf=False, memory=False, threshold=None, procs=1):
        self.root, self.dbof, self.ovf, self.memory, self.procs = root, dbof, ovf, memory, procs
        self.threshold = threshold if threshold is not None else (0.1 if ovf else 50.0)
        self.ops = {n: make_op(n, d) for n, d in OPS.items()}
        self.exec_log = []
        self.ctx = []                      # open regions: (kind, storage-or-noop object)
        self.hs = {s: [] for s in range(1, len(dbof) + 1)}     # real refs held
        self.how = {s: [] for s in range(1, len(dbof) + 1)}    # (op, args) that gave them
        self.storages = {}
        for s in self.hs:
            self.storages[s] = None

    # -- storages
    def db_path(self, s):
        return ":memory:" if self.memory else os.path.join(self.root, self.dbof[s - 1] + ".db")

    def ovf_dir(self, s):
        return os.path.join(self.root, self.dbof[s - 1] + "_ovf") if self.ovf else None

    def open(self, s):
        return Storage(db_path=self.db_path(s), overflow_dir=self.ovf_dir(s),
                       overflow_threshold_MB=self.threshold)

    def storage(self, s):
        if self.storages[s] is None:
            self.storages[s] = self.open(s)
        return self.storages[s]

    def plain(self, r):
        """the value of what a memoized function returned inside a body"""
        if not isinstance(r, Ref):
            return r
        return Context.current_context.storage.unwrap(r)

    # -- observations
    def obs_ref(self, r):
        if isinstance(r, ListRef):
            items = list(r.obj) if r.in_memory and r.obj is not None else []
            return {"kind": "L", "id": str(r.hid), "cid": str(r.cid), "mem": r.in_memory, "val": S(""), "keys": [],
                    "items": [self.obs_ref(x) for x in items]}
        if isinstance(r, DictRef):
            d = r.obj if r.in_memory and r.obj is not None else {}
            ks = sorted(d)
            return {"kind": "D", "id": str(r.hid), "cid": str(r.cid), "mem": r.in_memory, "val": S(""), "keys": ks,
                    "items": [self.obs_ref(d[k]) for k in ks]}
        if isinstance(r, Ref):
            return {"kind": "A", "id": str(r.hid), "cid": str(r.cid), "mem": bool(r.in_memory),
                    "val": enc(r.obj) if r.in_memory else S(""), "keys": [], "items": []}
        return {"kind": "?%s" % type(r).__name__, "id": "", "cid": "", "mem": False, "val": S(""), "keys": [], "items": []}

    def snapshot(self, s, loaded):
        """dump a database through a connection of its own"""
        db = self.dbof[s - 1]
        path = self.db_path(s)
        if self.memory:
            conn = self.storage(s).conn()
        elif not os.path.exists(path):
            return {"db": db, "calls": [], "shapes": [], "atoms": [], "ops": [], "isloaded": False, "loaded": []}
        else:
            conn = _real_connect(path)
        try:
            rows = conn.execute("SELECT call_history_id, name, direction, call_content_id, ref_content_id, ref_history_id, op FROM calls").fetchall()
            atoms = conn.execute("SELECT key, value FROM atoms").fetchall()
            shapes = conn.execute("SELECT key, value FROM shapes").fetchall()
            ops = [r[0] for r in conn.execute("SELECT key FROM ops").fetchall()]
        finally:
            if not self.memory:
                conn.close()
        calls = {}
        for h, n, d, cc, rc, rh, o in rows:
            c = calls.setdefault(h, {"id": h, "cid": cc, "op": o, "ins": [], "outs": []})
            c["ins" if d == "in" else "outs"].append({"n": n, "cid": rc, "id": rh})
        for c in calls.values():
            c["ins"].sort(key=lambda x: x["n"])
            c["outs"].sort(key=lambda x: x["n"])
        creator = {}
        for c in calls.values():
            for o in c["outs"]:
                creator[o["id"]] = c["id"]
        order, seen = [], set()

        def visit(h, stack=()):
            if h in seen or h in stack:
                return
            for x in calls[h]["ins"]:
                if x["id"] in creator:
                    visit(creator[x["id"]], stack + (h,))
            seen.add(h)
            order.append(calls[h])
        for h in sorted(calls):
            visit(h)
        obs_atoms = []
        for k, v in atoms:
            try:
                val = enc(deserialize(deserialize(v)))   # stored as serialized bytes
            except Exception as e:
                val = {"t": "?", "v": "unreadable " + type(e).__name__, "k": [], "e": []}
            obs_atoms.append({"cid": k, "val": val, "where": "t"})
        od = self.ovf_dir(s)
        if od is not None and os.path.isdir(od):
            for fn in sorted(os.listdir(od)):
                if fn.endswith(".joblib"):
                    import joblib
                    try:
                        val = enc(deserialize(joblib.load(os.path.join(od, fn))))
                    except Exception as e:
                        val = {"t": "?", "v": "unreadable " + type(e).__name__, "k": [], "e": []}
                    obs_atoms.append({"cid": fn[:-len(".joblib")], "val": val, "where": "o"})
        obs_shapes = {}
        for k, v in shapes:
            try:
                r = deserialize(v)
                o = self.obs_ref(r)
                obs_shapes[k] = {"id": k, "cid": o["cid"], "kind": o["kind"], "keys": o["keys"],
                                 "items": [{"id": x["id"], "cid": x["cid"]} for x in o["items"]]}
            except Exception as e:
                obs_shapes[k] = {"id": k, "cid": "", "kind": "?", "keys": [], "items": []}
        depth = {}

        def dep(k, lim=0):
            if k not in depth:
                sh = obs_shapes.get(k)
                depth[k] = 0 if sh is None or lim > 20 else 1 + max([dep(x["id"], lim + 1) for x in sh["items"]], default=0)
            return depth[k]
        shp = sorted(obs_shapes.values(), key=lambda x: (dep(x["id"]), x["id"]))
        res = {"db": db, "calls": order, "shapes": shp, "atoms": obs_atoms, "ops": sorted(ops), "isloaded": False, "loaded": []}
        if loaded:
            st = self.open(s) if not self.memory else self.storage(s)
            got = []
            for x in shp:
                try:
                    r = st.load_ref(x["id"], in_memory=False)
                    val = enc(self.deep(st, r))
                except Exception as e:
                    val = {"t": "?", "v": exc_name(e), "k": [], "e": []}
                got.append({"id": x["id"], "val": val})
            res["isloaded"], res["loaded"] = True, got
        return res

    def deep(self, st, r):
        """value of a loaded ref, from what was loaded (all of it must be in memory)"""
        if isinstance(r, list):
            return [self.deep(st, x) for x in r]
        if isinstance(r, dict):
            return {k: self.deep(st, x) for k, x in r.items()}
        if isinstance(r, ListRef):
            return [self.deep(st, x) for x in r.obj]
        if isinstance(r, DictRef):
            return {k: self.deep(st, x) for k, x in r.obj.items()}
        if not r.in_memory:
            raise ValueError("not in memory after load")
        return r.obj

    def run_queries(self, s, ev):
        res = []
        for q in ev.get("queries", []):
            st = self.storage(s)
            refs = [self.hs[s][j - 1] for j in q["hs"]]
            hids = [r.hid for r in refs for _ in range(q.get("times", 1))]
            try:
                if q["q"] == "creators":
                    if len(hids) == 1 and q.get("single"):
                        c = st.get_ref_creator(refs[0])
                        ids = [] if c is None else [c.hid]
                    else:
                        ids = [c.hid for c in st.get_creators(iter(hids) if q.get("once") else hids)]
                elif q["q"] == "consumers":
                    ids = [c.hid for c in st.get_consumers(iter(hids) if q.get("once") else hids)]
                else:
                    ids = list(st.get_orphans())
            except Exception as e:
                ids = ["error " + exc_name(e)]
            res.append({"q": q["q"], "hs": q["hs"], "ids": sorted(str(x) for x in ids)})
        return res

    # -- events
    def real_arg(self, arg, s):
        if arg["a"] == "v":
            return dec(arg["v"])
        if arg["a"] == "h":
            return self.hs[s][arg["h"] - 1]
        if arg["a"] == "l":
            return [self.real_arg(x, s) for x in arg["e"]]
        return {k: self.real_arg(x, s) for k, x in zip(arg["k"], arg["e"])}

    def top_session(self):
        """which session receives calls (for bookkeeping of refs only)"""
        return self.sess_stack[-1] if getattr(self, "sess_stack", None) else 0

    def execute(self, ev):
        """run one event and fill in ev['obs']"""
        global CURRENT, PLAN, CONNECT_TIMEOUT
        CURRENT = self
        self.exec_log = []
        if not hasattr(self, "sess_stack"):
            self.sess_stack = []
        obs = {"exc": "", "exec": [], "kind": "", "refs": [], "vals": [], "fired": False,
               "snaps": [], "queries": [], "modes": []}
        k = ev["ev"]
        s = ev["s"]
        locker = None
        try:
            if ev.get("lock") and s and not self.memory and os.path.exists(self.db_path(s)):
                _time.sleep = _sleep
                CONNECT_TIMEOUT = None if ev["lock"] == "wait" else 0.02
                locker = Locker(self.db_path(s), 0.8 if ev["lock"] == "fail" else 0.15)
            with contextlib.redirect_stdout(io.StringIO()):
                self._do(k, s, ev, obs)
        except (Exception, UserAbort) as e:
            obs["exc"] = exc_name(e)
        finally:
            PLAN = CONNECT_TIMEOUT = None
            if locker is not None:
                locker.close()
        if k in ("faultexit", "faultdrop"):
            obs["fired"] = obs["exc"] != ""
        obs["exec"] = list(self.exec_log)
        for t in ev.get("snap", []):
            try:
                obs["snaps"].append(self.snapshot(t, ev.get("loaded", False)))
            except Exception as e:
                obs["exc"] = obs["exc"] or "snapshot " + exc_name(e)
        if s:
            obs["queries"] = self.run_queries(s, ev)
        for t, st in self.storages.items():
            if st is not None:
                obs["modes"].append({"s": t, "mode": str(st.mode)})
        ev["obs"] = obs
        return obs

    def _pop(self, exc):
        obj, t = self.ctx.pop()
        if t:
            self.sess_stack.pop()
        cls = EXITS.get(exc)
        a = (cls, cls("body"), None) if cls else (None, None, None)
        obj.__exit__(*a)

    def _do(self, k, s, ev, obs):
        global PLAN, CONNECT_TIMEOUT
        if k == "enter":
            st = self.storage(s)
            cm = st if ev["mode"] == "" else st(mode=ev["mode"])
            cm.__enter__()
            self.ctx.append((cm, s))
            self.sess_stack.append(s)
        elif k == "noop":
            cm = noop()
            cm.__enter__()
            t = self.sess_stack[-1] if self.sess_stack else 0
            if t:
                self.ctx.append((cm, t))
                self.sess_stack.append(t)
            else:
                cm.__exit__(None, None, None)
        elif k == "exit":
            self._pop(ev.get("exc", ""))
        elif k == "faultexit":
            old = resource.getrlimit(resource.RLIMIT_FSIZE)
            try:
                if ev.get("fs"):
                    resource.setrlimit(resource.RLIMIT_FSIZE, (ev["fs"], old[1]))
                elif ev["n"]:
                    PLAN = FaultPlan(ev["n"], "raise")
                self._pop("")
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, old)
        elif k == "killexit":
            pid = os.fork()
            if pid == 0:
                try:
                    if ev.get("fs"):      # dies in the middle of writing a file
                        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                        resource.setrlimit(resource.RLIMIT_FSIZE, (ev["fs"], ev["fs"]))
                    elif ev["n"] > 0:
                        PLAN = FaultPlan(ev["n"], "kill")
                    self._pop("")
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)
            # the parent plays the crashed process: nothing of the session survives
            cm, t = self.ctx.pop()
            self.sess_stack.pop()
            Context.current_context = None
            self.storages[t] = None
            self.storage(t)
        elif k == "killdrop":
            pid = os.fork()
            if pid == 0:
                try:
                    PLAN = FaultPlan(ev["n"], "kill")
                    self._do("drop", s, ev, obs)
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)
            self.storages[s] = None
            self.storage(s)
        elif k == "faultdrop":
            PLAN = FaultPlan(ev["n"], "raise")
            self._do("drop", s, ev, obs)
        elif k == "call":
            t = self.top_session()
            args = [self.real_arg(a, t) for a in ev["args"]]
            D_ = OPS[ev["op"]]
            if ev.get("kw"):
                n = len(args) - ev["kw"]
                res = self.ops[ev["op"]](*args[:n], **dict(reversed(list(zip(D_["pn"][n:], args[n:])))))
            else:
                res = self.ops[ev["op"]](*args)
            outs = res
            if not isinstance(res, tuple) or not is_tuple(D_):
                outs = (res,)
            if all(isinstance(o, Ref) for o in outs):
                obs["kind"] = "R"
                obs["refs"] = [self.obs_ref(o) for o in outs]
                if t:
                    for o in outs:
                        self.hs[t].append(o)
                        self.how[t].append((ev["op"], ev["args"]))
            else:
                obs["kind"] = "V"
                obs["vals"] = [enc(o) for o in outs]
        elif k == "commit":
            self.storage(s).commit()
        elif k == "clear":
            self.storage(s).clear_cache(allow_uncommitted=ev["force"])
        elif k == "preload":
            self.storage(s).preload(lazy=ev["lazy"])
        elif k == "allow":
            self.storage(s).allow_new_calls(ev["allow"])
        elif k == "reopen":
            self.storages[s] = None
            self.storage(s)
        elif k == "drop":
            st = self.storage(s)
            hids = []
            calls = []
            if not self.sess_stack:
                via = ev.get("via", "by")
                for j in ev["targets"]:
                    if via == "cons":      # the calls that use the value
                        calls.extend(st.get_consumers([self.hs[s][j - 1].hid]))
                        continue
                    made = st.get_creators([self.hs[s][j - 1].hid])
                    if via == "ins":       # the calls that made the inputs of the call that made it
                        made = [c for m in made for c in st.get_creators([r.hid for r in m.inputs.values()])]
                    calls.extend(made)
                arg = calls if ev.get("as_calls") else [c.hid for c in calls]
            else:
                arg = [self.call_hid(s, j) for j in ev["targets"]]
            st.drop_calls(iter(arg) if ev.get("once") else arg, delete_dependents=ev["dep"])
        elif k == "cleanup":
            self.storage(s).cleanup_refs()
        elif k == "read":
            st = self.storage(s)
            for j in ev["hs"]:
                r = self.hs[s][j - 1]
                if ev["how"] == "unwrap":
                    v = st.unwrap(r)
                elif ev["how"] == "nested":
                    v = st.unwrap({"z": [(r,)]})["z"][0][0]
                elif ev["how"] == "attach":
                    v = self.deep(st, st.attach(r))
                elif ev["how"] == "inplace" and isinstance(r, AtomRef):
                    st.attach(r, inplace=True)
                    v = self.deep(st, r)
                else:
                    v = self.deep(st, st.load_ref(r.hid, in_memory=False))
                obs["vals"].append(enc(v))
        elif k == "item":
            r = self.hs[s][ev["h"] - 1]
            if isinstance(r, ListRef):
                x = r[ev["i"] - 1]
            else:
                x = r[sorted(r.obj)[ev["i"] - 1]]
            obs["kind"], obs["refs"] = "R", [self.obs_ref(x)]
            self.hs[s].append(x)
            self.how[s].append(None)
        elif k == "sync":
            pass
        else:
            raise AssertionError(k)

    def call_hid(self, s, j):
        """history id of the call that produced a held ref (also when not committed)"""
        opname, args = self.how[s][j - 1]
        st = self.storage(s)
        o = self.ops[opname]
        ins = {}
        for n, tp, a in zip(OPS[opname]["pn"], OPS[opname]["ptp"], args):
            from mandala.tps import Type
            ref, _ = st.construct(tp=Type.from_annotation(annot(tp)), val=self.real_arg(a, s))
            ins[n] = ref
        return o.get_call_history_id(ins)
