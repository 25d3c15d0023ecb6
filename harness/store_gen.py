"""Random programs over the events of spec/Store.tla, run on the real storage.

The generator only decides what to do next; it keeps just enough bookkeeping (which
handles exist, what kind they are, whether they still have a recorded history) to
produce programs inside the specification's domain.
"""
import multiprocessing as mp
import os
import random
import shutil
import sys
import traceback

import store_world as W
from common import blamed
from store_world import OPS, S, TA, TL, TD, enc, dec

ATOMS = ["a", "b", "x", "y", "g.same", "const1"]
KEYS = ["k1", "k2", "m", "z"]
# operations on which a body of another operation depends
DEFAULT_OPS = ["f", "g", "h", "idd", "two", "va", "tw2", "swp", "nam", "con", "nr", "nn", "na"]

BASE = {
    "events": {"call": 30, "enter": 5, "exit": 5, "commit": 2, "clear": 2, "forceclear": 0.3, "preload": 2,
               "reopen": 3, "read": 5, "allow": 0, "drop": 0, "cleanup": 0, "noop": 0, "faultexit": 0, "killexit": 0, "lockexit": 0, "race": 0, "twin": 0, "faultdrop": 0, "killdrop": 0,
               "item": 1, "sync": 1},
    "ops": DEFAULT_OPS,
    "dbof": [["d1"]],          # one of these is chosen for each trace
    "maxdepth": 2,
    "ovf": [False],
    "memory": [False, False, False, True],
    "exotic": 0.05,
    "ints": 0.1,
    "bigraw": 0.0,
    "rawcoll": 0.0,            # raw collection given where a single value is expected
    "handles": 0.6,            # chance of using an earlier result as an argument
    "length": (14, 30),
    "queries": 0.3,
    "snapall": 0.1,
    "loaded": 0.25,
    "procs": 1,
    "modes": {"": 1, "run": 1, "noop": 0},
    "excexit": 0.2,
    "kw": 0.2,
    "atoms": ATOMS,
    "maxest": 60,
    "variant": 0.15,
    "lock": 0,                 # chance that another program holds the lock for a moment
    "filefaults": 0,           # chance that a fault hits the writing of a file
    "repeat": 0.35,            # chance of repeating an earlier call
}


def profile(**kw):
    p = dict(BASE)
    p["events"] = dict(BASE["events"], **kw.pop("events", {}))
    p.update(kw)
    return p


# ---------------------------------------------------------------- processes
class Local:
    """all sessions in this process"""

    def __init__(self, *a, **kw):
        self.w = W.World(*a, **kw)

    def execute(self, ev):
        return self.w.execute(ev)

    def close(self):
        W.Context.current_context = None
        for st in self.w.storages.values():
            if st is not None:
                del st
        self.w.storages = {}


def _serve(conn, a, kw):
    try:
        w = W.World(*a, **kw)
        while True:
            ev = conn.recv()
            if ev is None:
                break
            conn.send(w.execute(ev))
    except EOFError:
        pass
    os._exit(0)


class Procs:
    """session s lives in process s"""

    def __init__(self, *a, **kw):
        self.conns, self.ps = {}, {}
        ctx = mp.get_context("fork")
        for p in range(1, kw["procs"] + 1):
            here, there = ctx.Pipe()
            pr = ctx.Process(target=_serve, args=(there, a, kw), daemon=True)
            pr.start()
            there.close()
            self.conns[p], self.ps[p] = here, pr

    def execute(self, ev):
        c = self.conns[ev["p"]]
        c.send(ev)
        if not c.poll(120):
            raise RuntimeError("worker does not answer")
        obs = c.recv()
        ev["obs"] = obs
        return obs

    def execute_many(self, evs):
        for ev in evs:
            self.conns[ev["p"]].send(ev)
        for ev in evs:
            if not self.conns[ev["p"]].poll(120):
                raise RuntimeError("worker does not answer")
            ev["obs"] = self.conns[ev["p"]].recv()

    def close(self):
        for c in self.conns.values():
            try:
                c.send(None)
            except Exception:
                pass
        for p in self.ps.values():
            p.join(5)
            if p.is_alive():
                p.kill()


# ---------------------------------------------------------------- generator
class Gen:
    def __init__(self, rng, prof, root):
        self.rng, self.pr = rng, prof
        self.dbof = rng.choice(prof["dbof"])
        self.ns = len(self.dbof)
        self.ovf = rng.choice(prof["ovf"])
        self.procs = prof["procs"] if prof["procs"] == 1 else self.ns
        self.memory = rng.choice(prof["memory"]) and self.procs == 1 and len(set(self.dbof)) == self.ns
        cls = Procs if self.procs > 1 else Local
        self.drv = cls(root, self.dbof, ovf=self.ovf, memory=self.memory, procs=self.procs)
        self.events = []
        self.ctx = {p: [] for p in range(1, self.procs + 1)}      # (session, mode)
        self.handles = {s: [] for s in range(1, self.ns + 1)}
        self.dirty = {s: False for s in self.handles}
        self.allow = {s: True for s in self.handles}
        self.dbhids = {d: set() for d in self.dbof}
        self.calls = []

    def proc(self, s):
        return s if self.procs > 1 else 1

    # -- bookkeeping
    def emit(self, ev, snap=()):
        ev.setdefault("s", 0)
        ev.setdefault("p", 1)
        # only sessions of this process can be asked for a snapshot
        snap = list(dict.fromkeys(snap))
        if self.rng.random() < self.pr["snapall"]:
            snap += [s for s in self.handles if s not in snap and self.proc(s) == ev["p"]]
        ev["snap"] = [s for i, s in enumerate(snap) if self.dbof[s - 1] not in [self.dbof[t - 1] for t in snap[:i]]]
        if self.pr["lock"] and ev["ev"] in ("call", "exit", "commit", "drop", "cleanup", "read") and ev["s"] and self.rng.random() < self.pr["lock"]:
            ev["lock"] = "wait" if ev["ev"] in ("exit", "commit") else self.rng.choice(["wait", "retry"])
        ev["loaded"] = bool(ev["snap"]) and self.rng.random() < self.pr["loaded"]
        q = []
        s = ev["s"]
        if s and not self.ctx_after(ev) and self.rng.random() < self.pr["queries"] and not self.memory_lost:
            live = self.usable(s)
            if live:
                for _ in range(2):
                    hs = sorted(self.rng.sample(live, min(len(live), self.rng.choice([1, 1, 2, 3]))))
                    q.append({"q": self.rng.choice(["creators", "consumers"]), "hs": hs, "single": self.rng.random() < 0.5,
                              "once": self.shapes.random() < .2, "times": 700 if self.shapes.random() < .03 else 1})
            q.append({"q": "orphans", "hs": [], "single": False})
        ev["queries"] = q
        obs = self.drv.execute(ev)
        self.events.append(ev)
        for sn in obs["snaps"]:
            self.dbhids[sn["db"]] = {x["id"] for x in sn["shapes"]}
        return obs

    memory_lost = False

    def ctx_after(self, ev):
        """is a region open in that process after the event?"""
        n = len(self.ctx[ev["p"]])
        k = ev["ev"]
        if k == "enter" or (k == "noop" and n):
            n += 1
        elif k in ("exit", "faultexit", "killexit"):
            n -= 1
        return n > 0

    def live(self, s, j):
        h = self.handles[s][j - 1]
        return h["fresh"] or h["id"] in self.dbhids[self.dbof[s - 1]]

    def usable(self, s):
        return [j for j in range(1, len(self.handles[s]) + 1) if self.live(s, j)]

    def est(self, a, s):
        """rough size of the printed history of an argument"""
        if a["a"] == "h":
            return self.handles[s][a["h"] - 1]["est"]
        if a["a"] == "v":
            return 3 + len(W.vrepr(a["v"])) * (1 if a["v"]["t"] in "sib" else 2)
        return 6 + 2 * sum(self.est(x, s) for x in a["e"])

    def lose(self, s):
        """what session s had not committed is gone"""
        for h in self.handles[s]:
            h["fresh"] = False
        self.dirty[s] = False

    # -- arguments
    def atom(self):
        r = self.rng.random()
        if r < self.pr["exotic"]:
            return S(self.rng.choice(sorted(W.EXOTIC)))
        if r < self.pr["exotic"] + self.pr["ints"]:
            return enc(self.rng.choice([0, 1, 2]))
        if r < self.pr["exotic"] + self.pr["ints"] + self.pr["bigraw"]:
            return {"t": "b", "v": self.rng.choice("PQR"), "k": [], "e": []}
        return S(self.rng.choice(self.pr["atoms"]))

    def value(self, tp):
        if tp["t"] == "A":
            if self.rng.random() < self.pr["rawcoll"]:
                return self.value(TL() if self.rng.random() < 0.6 else TD())
            return self.atom()
        n = self.rng.choice([0, 1, 1, 2, 2, 3])
        if tp["t"] == "L":
            xs = [self.value(tp["e"][0]) for _ in range(n)]
            if len(xs) > 1 and self.rng.random() < 0.3:
                xs[1] = xs[0]
            return {"t": "l", "v": "", "k": [], "e": xs}
        ks = sorted(self.rng.sample(KEYS, n))
        return {"t": "d", "v": "", "k": ks, "e": [self.value(tp["e"][0]) for _ in ks]}

    def arg(self, tp, s, depth=0):
        rng = self.rng
        if s and rng.random() < self.pr["handles"]:
            js = [j for j in self.usable(s) if (self.handles[s][j - 1]["tp"] == tp or
                  (tp["t"] == "A" and depth == 0 and rng.random() < 0.15)) and self.handles[s][j - 1]["est"] <= self.pr["maxest"]]
            if js:
                return {"a": "h", "v": S(""), "h": rng.choice(js[-8:] if rng.random() < 0.6 else js), "k": [], "e": []}
        if s and tp["t"] != "A" and rng.random() < 0.5:
            n = rng.choice([0, 1, 2, 2, 3])
            if tp["t"] == "L":
                return {"a": "l", "v": S(""), "h": 0, "k": [], "e": [self.arg(tp["e"][0], s, depth + 1) for _ in range(n)]}
            ks = sorted(rng.sample(KEYS, n))
            return {"a": "d", "v": S(""), "h": 0, "k": ks, "e": [self.arg(tp["e"][0], s, depth + 1) for _ in ks]}
        return {"a": "v", "v": self.value(tp), "h": 0, "k": [], "e": []}

    def variant(self, a, s):
        """an argument of equal content"""
        js = self.usable(s)
        if a["a"] == "h":
            h = self.handles[s][a["h"] - 1]
            alt = [{"a": "h", "v": S(""), "h": j, "k": [], "e": []} for j in js
                   if self.handles[s][j - 1]["cid"] == h["cid"] and j != a["h"]]
            if h["val"] is not None:
                alt.append({"a": "v", "v": h["val"], "h": 0, "k": [], "e": []})
        elif a["a"] == "v":
            alt = [{"a": "h", "v": S(""), "h": j, "k": [], "e": []} for j in js
                   if self.handles[s][j - 1]["val"] == a["v"]]
        else:
            return dict(a, e=[self.variant(x, s) for x in a["e"]])
        return self.rng.choice(alt) if alt else a

    def arg_live(self, a, s):
        if a["a"] == "h":
            return s > 0 and a["h"] <= len(self.handles[s]) and self.live(s, a["h"])
        return all(self.arg_live(x, s) for x in a["e"])

    # -- one step
    def step(self):
        rng, pr = self.rng, self.pr
        for _ in range(50):
            k = rng.choices(list(pr["events"]), weights=list(pr["events"].values()))[0]
            if getattr(self, "do_" + k)():
                return

    def pick_session(self):
        return rng_choice(self.rng, list(self.handles))

    def do_call(self):
        rng = self.rng
        p = rng.randint(1, self.procs)
        cx = self.ctx[p]
        s, mode = cx[-1] if cx else (0, "noop")
        if not cx and rng.random() < 0.75:
            return self.do_enter()
        same = [c for c in self.calls if c[0] == s]
        if s and same and rng.random() < self.pr["variant"]:      # equal inputs of another origin
            _, op, args = rng.choice(same)
            args = [self.variant(a, s) for a in args]
            if not all(self.arg_live(a, s) for a in args):
                return False
        elif same and rng.random() < self.pr["repeat"]:
            _, op, args = rng.choice(same)
            if not all(self.arg_live(a, s) for a in args):
                return False
        elif self.calls and rng.random() < 0.15:     # the same arguments as another session
            _, op, args = rng.choice(self.calls)
            if not all(a["a"] == "v" for a in args):
                return False
        else:
            op = rng.choice(self.pr["ops"])
            args = [self.arg(tp, s) for tp in OPS[op]["ptp"]]
            if OPS[op]["body"] not in ("cat", "par", "ex", "nestn", "nesta") or any(t["t"] != "A" for t in OPS[op]["ptp"]):
                # frames inside other values are outside the domain (DESIGN.md, content)
                args = [no_frames(a) for a in args]
            else:
                args = [a if a["v"]["t"] == "s" else no_frames(a) for a in args]
        ev = {"ev": "call", "s": s, "p": p, "op": op, "args": args, "kw": 0}
        if rng.random() < self.pr["kw"]:
            ev["kw"] = rng.randint(0, len(args))
        if s and mode != "noop" and len(self.handles[s]) > 60:
            return False
        if s:
            self.dirty[s] = True
        self.record(self.emit(ev), op, args, s)
        return True

    def record(self, obs, op, args, s):
        est = 8 + sum(self.est(a, s) for a in args) * (2 if any(t["t"] != "A" for t in OPS[op]["otp"]) else 1)
        if obs["kind"] == "R":
            for r, tp in zip(obs["refs"], OPS[op]["otp"]):
                kind = {"A": "A", "L": "L", "D": "D"}.get(r["kind"], "A")
                if tp["t"] != kind:          # passed through as it is
                    tp = self.kind_of(r)
                self.handles[s].append({"id": r["id"], "tp": tp, "fresh": True, "n": len(r["items"]), "keys": r["keys"], "item": False, "est": est, "cid": r["cid"], "val": self.val_of(r)})
            for r in obs["refs"][len(OPS[op]["otp"]):]:
                self.handles[s].append({"id": r["id"], "tp": TA, "fresh": True, "n": 0, "keys": [], "item": False, "est": est, "cid": r["cid"], "val": self.val_of(r)})
        self.calls.append((s, op, args))

    def do_twin(self):
        """another session records and commits a call that is pending here"""
        if self.procs > 1 or not self.ctx[1] or len(self.ctx[1]) > 3:
            return False
        s, mode = self.ctx[1][-1]
        ts = [t for t in self.handles if t != s and self.dbof[t - 1] == self.dbof[s - 1] and self.idle(t)]
        mine = [c for c in self.calls if c[0] == s and all(a["a"] == "v" for a in c[2])]
        if not ts or mode == "noop":
            return False
        t = self.rng.choice(ts)
        if mine and self.rng.random() < 0.5:
            _, op, args = self.rng.choice(mine)
        else:
            op, args = "f", [self.arg(TA, 0)]
        first = self.rng.random() < 0.7
        for x in ([s, t] if first else [t, s]):
            if x == t:
                self.emit({"ev": "enter", "s": t, "p": 1, "mode": "run"})
                self.ctx[1].append((t, "run"))
            self.dirty[x] = True
            self.record(self.emit({"ev": "call", "s": x, "p": 1, "op": op, "args": args, "kw": 0}), op, args, x)
            if x == t:
                self.emit({"ev": "exit", "s": t, "p": 1, "exc": ""}, snap=[t])
                self.ctx[1].pop()
                self.dirty[t] = False
        if self.pr["events"]["drop"] and self.rng.random() < 0.5:
            self.do_drop(s=s, last=True)
        return True

    def kind_of(self, r):
        if r["kind"] == "L":
            return TL(self.kind_of(r["items"][0])) if r["items"] else TL()
        if r["kind"] == "D":
            return TD(self.kind_of(r["items"][0])) if r["items"] else TD()
        return TA

    def val_of(self, r):
        if r["kind"] == "A":
            return r["val"] if r["mem"] and r["val"]["t"] in "sbi" else None
        es = [self.val_of(x) for x in r["items"]]
        if any(e is None for e in es):
            return None
        return {"t": r["kind"].lower(), "v": "", "k": r["keys"], "e": es}

    def do_item(self):
        """take an item out of a collection"""
        for s in self.handles:
            js = [j for j in self.usable(s) if self.handles[s][j - 1]["n"] > 0]
            if js and len(self.handles[s]) < 60:
                j = self.rng.choice(js)
                h = self.handles[s][j - 1]
                i = self.rng.randint(1, h["n"])
                obs = self.emit({"ev": "item", "s": s, "p": self.proc(s), "h": j, "i": i})
                if obs["kind"] == "R":
                    r = obs["refs"][0]
                    self.handles[s].append({"id": r["id"], "tp": self.kind_of(r), "fresh": h["fresh"], "n": len(r["items"]), "keys": r["keys"], "item": True, "est": h["est"] + 20, "cid": r["cid"], "val": self.val_of(r)})
                return True
        return False

    def do_enter(self):
        s = self.pick_session()
        p = self.proc(s)
        if len(self.ctx[p]) >= self.pr["maxdepth"]:
            return False
        m = self.pr["modes"]
        mode = self.rng.choices(list(m), weights=list(m.values()))[0]
        self.emit({"ev": "enter", "s": s, "p": p, "mode": mode})
        own = [x for x in self.ctx[p] if x[0] == s]
        self.ctx[p].append((s, mode or (own[-1][1] if own else "run")))
        return True

    def do_noop(self):
        p = self.rng.randint(1, self.procs)
        if len(self.ctx[p]) >= self.pr["maxdepth"] + 1:
            return False
        self.emit({"ev": "noop", "p": p})
        if self.ctx[p]:
            self.ctx[p].append((self.ctx[p][-1][0], "noop"))
        return True

    def pop(self, k, **kw):
        p = self.rng.randint(1, self.procs)
        if not self.ctx[p]:
            return None
        s = self.ctx[p][-1][0]
        out = not [x for x in self.ctx[p][:-1] if x[0] == s]
        obs = self.emit(dict({"ev": k, "s": s, "p": p}, **kw), snap=[s] if out else [])
        self.ctx[p].pop()
        return s, out, obs

    def do_exit(self):
        r = self.pop("exit", exc=self.rng.choice(sorted(W.EXITS)) if self.rng.random() < self.pr["excexit"] else "")
        if r and r[1]:
            self.dirty[r[0]] = False
        return r is not None

    def fs(self):
        return self.rng.randint(60000, 160000) if not self.memory and self.rng.random() < self.pr["filefaults"] else 0

    def do_faultexit(self):
        r = self.pop("faultexit", n=self.rng.choice([1, 1, 2, 3, 4, 5, 6, 8, 11]), fs=self.fs())
        if r and r[1] and not r[2]["fired"]:
            self.dirty[r[0]] = False
        return r is not None

    def do_lockexit(self):
        if self.memory:
            return False
        r = self.pop("faultexit", n=0, lock="fail")
        if r and r[1] and not r[2]["fired"]:
            self.dirty[r[0]] = False
        return r is not None

    def do_race(self):
        """two sessions of one database leave their contexts at the same time"""
        ps = [p for p in self.ctx if len(self.ctx[p]) == 1]
        if self.procs == 1 or len(ps) < 2:
            return False
        evs = []
        for p in self.rng.sample(ps, 2):
            s = self.ctx[p][0][0]
            evs.append({"ev": "exit", "s": s, "p": p, "exc": "", "snap": [], "loaded": False, "queries": []})
        self.drv.execute_many(evs)
        self.events.extend(evs)
        for ev in evs:
            self.ctx[ev["p"]].pop()
            self.dirty[ev["s"]] = False
        self.emit({"ev": "sync", "s": evs[0]["s"], "p": evs[0]["p"]}, snap=[evs[0]["s"]])
        return True

    def do_killexit(self):
        p = self.rng.randint(1, self.procs)
        if self.memory or self.procs > 1 or len(self.ctx[p]) != 1:
            return False
        s = self.ctx[p][0][0]
        self.pop("killexit", n=self.rng.choice([0, 1, 2, 3, 4, 5, 6, 8]), fs=self.fs())
        self.lose(s)
        self.allow[s] = True
        return True

    def idle(self, s):
        return not [x for x in self.ctx[self.proc(s)] if x[0] == s]

    def do_commit(self):
        s = self.pick_session()
        self.emit({"ev": "commit", "s": s, "p": self.proc(s)}, snap=[s])
        self.dirty[s] = False
        return True

    def do_clear(self, force=False):
        s = self.pick_session()
        if self.memory and force:
            pass
        self.emit({"ev": "clear", "s": s, "p": self.proc(s), "force": force})
        if force:
            self.lose(s)
        return True

    def do_forceclear(self):
        return self.do_clear(True)

    def do_preload(self):
        s = self.pick_session()
        self.emit({"ev": "preload", "s": s, "p": self.proc(s), "lazy": self.rng.random() < 0.5})
        return True

    def do_reopen(self):
        s = self.pick_session()
        if self.memory:
            return False
        while not self.idle(s):
            p = self.proc(s)
            t = self.ctx[p][-1][0]
            out = not [x for x in self.ctx[p][:-1] if x[0] == t]
            self.emit({"ev": "exit", "s": t, "p": p, "exc": ""}, snap=[t] if out else [])
            self.ctx[p].pop()
            if out:
                self.dirty[t] = False
        self.emit({"ev": "reopen", "s": s, "p": self.proc(s)}, snap=[s])
        self.lose(s)
        self.allow[s] = True
        return True

    def do_allow(self):
        s = self.pick_session()
        a = not self.allow[s] or self.rng.random() < 0.3
        self.emit({"ev": "allow", "s": s, "p": self.proc(s), "allow": a})
        self.allow[s] = a
        return True

    def do_read(self):
        s = self.pick_session()
        js = self.usable(s)
        if not js:
            return False
        hs = [self.rng.choice(js) for _ in range(self.rng.choice([1, 2, 4]))]
        self.emit({"ev": "read", "s": s, "p": self.proc(s), "hs": hs,
                   "how": self.rng.choice(["unwrap", "nested", "attach", "inplace", "load"])})
        return True

    def do_faultdrop(self):
        return self.do_drop("faultdrop")

    def do_killdrop(self):
        return self.do_drop("killdrop")

    def do_drop(self, k="drop", s=None, last=False):
        s = s or self.pick_session()
        p = self.proc(s)
        if self.ctx[p] and self.ctx[p][-1][0] != s:
            return False
        js = [j for j in self.usable(s) if not self.handles[s][j - 1]["item"]]
        if not js:
            return False
        # outside contexts the calls are found through the provenance queries
        if not self.ctx[p]:
            js = [j for j in js if self.handles[s][j - 1]["id"] in self.dbhids[self.dbof[s - 1]]]
            if not js:
                return False
        if last:
            js = js[-1:]
        ts = sorted(set(self.rng.choice(js) for _ in range(self.rng.choice([1, 1, 2]))))
        if k != "drop" and (self.dirty[s] or self.memory or self.procs > 1 or self.ctx[p]):
            return False
        others = [t for t in self.handles if t != s and self.dbof[t - 1] == self.dbof[s - 1]]
        if any(not self.idle(t) or self.dirty[t] for t in others):
            return False
        via = "by"
        if not self.ctx[p] and not self.dirty[s] and self.shapes.random() < .35:
            via = self.shapes.choice(["ins", "ins", "cons"])
        self.emit({"ev": k, "s": s, "p": p, "targets": ts, "via": via, "dep": self.rng.random() < 0.6,
                   "n": self.rng.randint(1, 5), "as_calls": self.rng.random() < 0.5, "once": self.shapes.random() < .3}, snap=[s])
        if k == "killdrop":
            self.lose(s)
            self.allow[s] = True
        for t in others:          # their caches may still know the calls (DESIGN.md, domain)
            self.emit({"ev": "reopen", "s": t, "p": self.proc(t)})
            self.lose(t)
            self.allow[t] = True
        return True

    def do_cleanup(self):
        s = self.pick_session()
        if len(set(self.dbof)) < self.ns:
            return False
        if self.dirty[s] or self.ctx[self.proc(s)]:
            return False
        if self.allow[s] and self.pr["events"]["drop"] and self.shapes.random() < .3:
            self.unmake(s)
        self.emit({"ev": "cleanup", "s": s, "p": self.proc(s)}, snap=[s])
        for h in self.handles[s]:
            h["fresh"] = False
        return True

    def unmake(self, s):
        """a collection stays the argument of a call after the call that made it is dropped"""
        sh, p = self.shapes, self.proc(s)
        op = sh.choice([o for o in ("tot", "rev", "lst", "totl", "totd") if o in self.pr["ops"] and any(t["t"] in "LD" for t in OPS[o]["ptp"])] or ["tot"])

        def fill(tp):
            if tp["t"] == "A":
                return {"a": "v", "v": S(sh.choice(["u", "v", "w", "a"]) + str(sh.randint(0, 9))), "h": 0, "k": [], "e": []}
            n = sh.choice([1, 2])
            if tp["t"] == "L":
                return {"a": "l", "v": S(""), "h": 0, "k": [], "e": [fill(tp["e"][0]) for _ in range(n)]}
            return {"a": "d", "v": S(""), "h": 0, "k": KEYS[:n], "e": [fill(tp["e"][0]) for _ in range(n)]}
        args = [fill(t) for t in OPS[op]["ptp"]]
        self.emit({"ev": "enter", "s": s, "p": p, "mode": "run"})
        self.ctx[p].append((s, "run"))
        n = len(self.handles[s])
        self.dirty[s] = True
        self.record(self.emit({"ev": "call", "s": s, "p": p, "op": op, "args": args, "kw": 0}), op, args, s)
        self.ctx[p].pop()
        self.dirty[s] = False
        self.emit({"ev": "exit", "s": s, "p": p, "exc": ""}, snap=[s])
        if len(self.handles[s]) == n:
            return
        self.emit({"ev": "drop", "s": s, "p": p, "targets": [n + 1], "via": "ins", "dep": sh.random() < .2,
                   "n": 1, "as_calls": sh.random() < 0.5, "once": False}, snap=[s])

    def do_sync(self):
        s = self.pick_session()
        self.emit({"ev": "sync", "s": s, "p": self.proc(s)}, snap=[s])
        return True

    def finish(self):
        """leave every region, then look at every database with a new session"""
        for p in self.ctx:
            while self.ctx[p]:
                s = self.ctx[p][-1][0]
                out = not [x for x in self.ctx[p][:-1] if x[0] == s]
                self.emit({"ev": "exit", "s": s, "p": p, "exc": ""}, snap=[s] if out else [])
                self.ctx[p].pop()
        for i, d in enumerate(self.dbof):
            if d not in self.dbof[:i]:
                ev = {"ev": "sync", "s": i + 1, "p": self.proc(i + 1), "snap": [i + 1], "loaded": True, "queries": []}
                self.drv.execute(ev)
                self.events.append(ev)
        self.drv.close()

    def trace(self):
        return {"events": self.events, "ovf": self.ovf, "dbof": self.dbof}


def no_frames(x):
    if isinstance(x, dict):
        if x.get("t") == "s" and x["v"].startswith("$df"):
            return dict(x, v="$arr")
        return {k: no_frames(v) for k, v in x.items()}
    if isinstance(x, list):
        return [no_frames(v) for v in x]
    return x


def rng_choice(rng, xs):
    return xs[0] if len(xs) == 1 else rng.choice(xs)


def gen_trace(seed, prof, scratch):
    """one random program; returns the recorded trace"""
    rng = random.Random(seed)
    root = os.path.join(scratch, "g%s" % str(seed).replace("/", "_"))
    os.makedirs(root)
    try:
        W.sqlite3.connect = W.patched_connect
        g = Gen(rng, prof, root)
        g.shapes = random.Random("%s/shapes" % seed)
        err, by = "", False
        try:
            for _ in range(rng.randint(*prof["length"])):
                g.step()
            g.finish()
        except Exception as e:
            # the code did something the bookkeeping cannot follow: what was
            # recorded so far is still judged by the specification
            err, by = traceback.format_exc(), blamed(e)
            try:
                g.drv.close()
            except Exception:
                pass
        t = g.trace()
        t["genexc"], t["blamed"] = err, by
        t["seed"] = str(seed)
        return t
    finally:
        shutil.rmtree(root, ignore_errors=True)
