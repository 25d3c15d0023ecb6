"""Random stored graphs and random uses of computation frames on them, recorded for spec/CFTrace.tla."""
import os
import random
import shutil
import signal
import sqlite3
import warnings
from typing import Tuple

from common import *

warnings.filterwarnings("ignore")
import pandas as pd
from mandala.imports import *
from mandala.cf import ComputationFrame as CF
from mandala.model import Ref, AtomRef, ListRef, DictRef, Call, RefCollection, CallCollection, ValueCollection
from mandala.utils import deserialize


# ---------------------------------------------------------------- the functions
@op
def inc(x): return (x + 1) % 7
@op
def add(x, y): return (x + y) % 5
@op(output_names=["q", "r"])
def dm(x, y): return x // (y * y + 2), x % (y * y + 2)
@op
def neg(v): return -v
@op
def ident(x): return x
@op(output_names=["y"])
def same(x): return x * 2 % 5
@op
def proj(inc): return inc + 3
@op
def f_1(v_2, dm): return v_2 * 3 - dm
@op
def const(): return 7
@op(nout=0)
def sink(x): return ()
@op(nout=2)
def swap(a, b): return b, a
@op(nout="var")
def parts(n): return tuple(range(n % 3 + 1))
@op
def mul(*args):
    r = 1
    for a in args:
        r = r * a % 11
    return r
@op
def kws(**kw): return sum(kw.values()) % 6
@op
def rng(n) -> MList[int]: return [k % 3 for k in range(n % 3 + 1)]
@op
def tot(xs: MList[int]): return sum(xs)
@op
def cat(xs: MList[int], ys: MList[int]) -> MList[int]: return xs + ys
@op
def dic(a, b) -> MDict[str, int]: return {"a": a, "b": b}
@op
def dsum(d: MDict[str, int]): return sum(d.values())
@op
def two(x) -> Tuple[MList[int], int]: return [x, x], x

OPS = [inc, add, dm, neg, ident, same, proj, f_1, const, sink, swap, parts, mul, kws, rng, tot, cat, dic, dsum, two]
BYNAME = {o.name: o for o in OPS}
WEIGHTS = {"inc": 6, "add": 6, "dm": 4, "neg": 3, "ident": 2, "same": 2, "proj": 1, "f_1": 1, "const": 1, "sink": 1, "swap": 2, "parts": 2,
           "mul": 2, "kws": 1, "rng": 2, "tot": 3, "cat": 1, "dic": 1, "dsum": 1, "two": 1, "item": 2}


def program(S, r, k, names):
    """k calls of functions from names; the refs of all results"""
    refs, lists, dicts, raw = [], [], [], [0, 1, 2]

    def arg():
        z = r.random()
        if refs and z < .7:
            return r.choice(refs[-6:] if r.random() < .5 else refs)
        return r.choice(raw)

    def lst():
        if lists and r.random() < .6:
            return r.choice(lists)
        return [arg() for _ in range(r.randint(1, 3))]
    with S:
        for _ in range(k):
            z = r.choice(names)
            if z in ("inc", "ident", "neg", "same", "proj"):
                refs.append(BYNAME[z](arg()))
            elif z in ("add", "f_1"):
                refs.append(BYNAME[z](arg(), arg()))
            elif z in ("dm", "swap"):
                refs += list(BYNAME[z](arg(), arg()))
            elif z == "const":
                refs.append(const())
            elif z == "sink":
                sink(arg())
            elif z == "parts":
                x = parts(arg())
                refs += list(x) if isinstance(x, tuple) else [x]
            elif z == "mul":
                refs.append(mul(*[arg() for _ in range(r.randint(1, 3))]))
            elif z == "kws":
                refs.append(kws(**{n: arg() for n in r.sample(["u", "v", "w"], r.randint(1, 2))}))
            elif z == "rng":
                lists.append(rng(arg()))
            elif z == "tot":
                refs.append(tot(lst()))
            elif z == "cat":
                lists.append(cat(lst(), lst()))
            elif z == "dic":
                dicts.append(dic(arg(), arg()))
            elif z == "dsum":
                refs.append(dsum(r.choice(dicts) if dicts and r.random() < .6 else {"a": arg(), "c": arg()}))
            elif z == "two":
                a, b = two(arg())
                lists.append(a)
                refs.append(b)
            elif z == "item" and lists:
                l = r.choice(lists)
                refs.append(l[r.randrange(len(l))])
            elif z == "item" and dicts:
                refs.append(r.choice(dicts)["a"])
    return refs + lists + dicts


# ---------------------------------------------------------------- observation
def ref_value(x, atoms):
    if isinstance(x, AtomRef):
        return atoms[x.cid]
    if isinstance(x, ListRef):
        return [ref_value(e, atoms) for e in x.obj]
    return {k: ref_value(v, atoms) for k, v in x.obj.items()}


def show(v):
    if isinstance(v, float) and v == int(v):
        v = int(v)
    if isinstance(v, dict):
        return "{%s}" % ",".join("%s:%s" % (k, show(v[k])) for k in sorted(v))
    if isinstance(v, (list, tuple)):
        return "[%s]" % ",".join(map(show, v))
    return repr(v)


class Stuck(BaseException):
    """an operation that does not come to an end"""


def on_alarm(*_):
    raise Stuck()


class World:
    def __init__(self, path):
        self.path = path
        self.S = Storage(db_path=path)
        self.frames, self.last, self.events = [], [], []
        self.names = {}
        self.stuck = False

    def rows(self):
        con = sqlite3.connect(self.path)
        try:
            return (con.execute("SELECT call_history_id, name, direction, ref_history_id, op, ref_content_id FROM calls").fetchall(),
                    con.execute("SELECT key, value FROM shapes").fetchall(), con.execute("SELECT key, value FROM atoms").fetchall())
        finally:
            con.close()

    def graph(self):
        """the stored graph, read through a connection of its own; hids get short names"""
        rows, shapes, atoms = self.rows()
        atoms = {k: deserialize(deserialize(v)) for k, v in atoms}
        objs = {k: deserialize(v) for k, v in shapes}
        for h in sorted(objs):
            self.names[h] = "r%d" % len(self.names)
        for h in sorted({x[0] for x in rows}):
            self.names[h] = "c%d" % len(self.names)
        calls, cids, cname = {}, {}, {}
        for h, name, d, rh, opn, rc in sorted(rows):
            c = calls.setdefault(self.n(h), {"id": self.n(h), "op": opn, "ins": {}, "outs": {}, "names": []})
            label = "elts" if opn == "__make_list__" and name.startswith("elts_") else name
            c["ins" if d == "in" else "outs"].setdefault(label, []).append(self.n(rh))
            c["names"].append([name, self.n(rh)])
            cids[self.n(rh)] = rc
        vals, nums = [], []
        for h, o in objs.items():
            v = ref_value(o, atoms)
            vals.append([self.n(h), show(v)])
            if type(v) is int:
                nums.append([self.n(h), v])
            cids.setdefault(self.n(h), o.cid)
        for r, c in cids.items():
            cname.setdefault(c, "k%d" % len(cname))
        self.cname = cname
        self.g = {"calls": [dict(c, ins=sorted(map(list, c["ins"].items())), outs=sorted(map(list, c["outs"].items()))) for c in calls.values()],
                  "refs": sorted(self.n(h) for h in objs), "vals": vals, "nums": nums,
                  "cids": [[r, cname[c]] for r, c in sorted(cids.items())]}
        self.rev = {v: k for k, v in self.names.items()}
        self.digest = self.dbdigest()

    def n(self, h):
        return self.names.get(h, "?%s" % h)

    def dbdigest(self):
        return [sorted(x) for x in self.rows()]

    def dump(self, c):
        ns = lambda hs: sorted(self.n(h) for h in hs)
        E = {(s, d, l) for s, ls in c.out.items() for l, ds in ls.items() for d in ds}
        E2 = {(s, d, l) for d, ls in c.inp.items() for l, ss in ls.items() for s in ss}
        nodes = set(c.vs) | set(c.fs)
        return {"vs": [[v, ns(h)] for v, h in sorted(c.vs.items())], "fs": [[f, ns(h)] for f, h in sorted(c.fs.items())],
                "E": sorted(map(list, E)), "refs": ns(c.refs), "calls": ns(c.calls),
                "ri": [[self.n(h), sorted(v)] for h, v in sorted(c.refinv.items())],
                "ci": [[self.n(h), sorted(v)] for h, v in sorted(c.callinv.items())],
                "cr": [[self.n(r), self.n(k)] for r, k in sorted(c.creator.items())],
                "co": [[self.n(r), ns(k)] for r, k in sorted(c.consumers.items())],
                "dual": E == E2 and set(c.inp) == nodes and set(c.out) == nodes and {s for s, _, _ in E} | {d for _, d, _ in E} <= nodes,
                "keys": all(k == x.hid for k, x in c.refs.items()) and all(k == x.hid for k, x in c.calls.items())}

    def view(self, v):
        return [[k, sorted(self.n(h) for h in hs)] for k, hs in sorted(v.items())]

    def cell(self, x):
        if x is None or (isinstance(x, float) and x != x):
            return []
        if isinstance(x, (Ref, Call)):
            return [self.n(x.hid)]
        if isinstance(x, RefCollection):
            return sorted(self.n(y.hid) for y in x.refs)
        if isinstance(x, CallCollection):
            return sorted(self.n(y.hid) for y in x.calls)
        if isinstance(x, ValueCollection):
            return sorted(show(y) for y in x.values)
        if isinstance(x, (set, frozenset)):
            return sorted(self.n(y.hid) for y in x)
        return [show(x)]

    def table(self, df):
        cols = [str(c) for c in df.columns]
        return {"cols": cols, "rows": [[[c, self.cell(v)] for c, v in zip(cols, row)] for row in df.astype(object).values.tolist()]}

    def do(self, op, fn, a=(), kind="frame", inplace=False, **kw):
        """perform an operation and record everything that can be seen of it"""
        e = dict(op=op, a=[k + 1 for k in a], kind=kind, inplace=inplace, exc="", hasres=False, res=0, **kw)
        out = None
        signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(20)
        try:
            out = fn()
        except (Exception, Stuck) as x:
            e["exc"] = type(x).__name__
            e["msg"] = str(x)[:200]
        finally:
            signal.alarm(0)
        if e["exc"] == "Stuck":
            self.stuck = True
        if kind == "table" and e["exc"] == "":
            e.update(self.table(out) if op != "topo" else {"order": out})
        elif kind == "view" and e["exc"] == "":
            e["view"] = self.view(out)
        elif kind == "none":
            pass
        if isinstance(out, CF):
            e["hasres"] = True
            e["res"] = self.dump(out)
        e["changed"] = []
        for k, c in enumerate(self.frames):
            d = self.dump(c)
            if d != self.last[k]:
                e["changed"].append([k + 1, d])
                self.last[k] = d
        e["db"] = self.dbdigest() == self.digest
        if e["hasres"]:
            self.frames.append(out)
            self.last.append(e["res"])
        self.events.append(e)
        return e


def reordered(c, r):
    """the same frame, with everything in another order"""
    def mix(d):
        ks = list(d)
        r.shuffle(ks)
        return {k: (mix(d[k]) if isinstance(d[k], dict) else set(d[k]) if isinstance(d[k], set) else d[k]) for k in ks}
    return CF(storage=c.storage, inp=mix(c.inp), out=mix(c.out), vs=mix(c.vs), fs=mix(c.fs), refinv=mix(c.refinv), callinv=mix(c.callinv),
              creator=mix(c.creator), consumers=mix(c.consumers), refs=mix(c.refs), calls=mix(c.calls))


def cyclic(c):
    succ = {}
    for s, d, _ in c.edges():
        succ.setdefault(s, set()).add(d)
    state = {}

    def visit(x):
        state[x] = 1
        for y in succ.get(x, ()):
            if state.get(y) == 1 or (y not in state and visit(y)):
                return True
        state[x] = 2
        return False
    return any(x not in state and visit(x) for x in list(succ))


PROFILES = {
    # weights of the operations
    "frames": dict(from_op=3, from_refs=2, from_vars=2, expand=4, expandall=2, union=4, inter=3, diff=3, downstream=2, upstream=2, midstream=2, select=3,
                   subsets=2, drop=4, rename=2, copy=1, cleanup=2, simplify=1, move=2, mergeinto=3, mergevars=3, isin=3, less=1, unreachable=2,
                   sourceelts=1, sinkelts=1, adj=1, reach=1, history=1, views=1, df=1, functable=1, historydf=1, topo=1, delete=1),
    "expand": dict(from_op=4, from_refs=6, from_vars=3, expand=14, expandall=5, union=1, drop=2, select=2, subsets=1, mergevars=1, rename=1, diff=1, upstream=1, isin=1),
    "sets": dict(from_op=3, from_refs=2, from_vars=1, expand=5, expandall=3, union=4, inter=4, diff=5, downstream=5, upstream=5, midstream=6, select=3,
                 subsets=2, drop=2, rename=2, cleanup=1, move=2, mergeinto=3, mergevars=3, isin=4, less=2, unreachable=4, sourceelts=2, sinkelts=2,
                 adj=3, reach=4, topo=2),
    "tables": dict(from_op=3, from_refs=3, from_vars=2, expand=6, expandall=5, union=2, inter=1, drop=2, select=1, upstream=1, mergevars=1, isin=1, subsets=1,
                   df=16, functable=2, historydf=4, history=4, topo=1),
}


@recording
def gen_trace(a):
    seed, profile, scratch = a
    r = random.Random(seed)
    path = os.path.join(scratch, "cf_%s.db" % seed)
    w = World(path)
    w.shapes = random.Random(seed + "/shapes")
    try:
        base = [z for z in WEIGHTS for _ in range(WEIGHTS[z])]
        names = base if r.random() < .5 else [r.choice(base) for _ in range(r.randint(2, 6))]
        refs = program(w.S, r, r.choice([2, 4, 6, 8, 10, 12]), names)
        if not refs:
            with w.S:
                refs = [inc(1)]
        if r.random() < .4:
            w.S = Storage(db_path=path)
            if r.random() < .5:
                refs = [w.S.load_ref(x.hid, in_memory=r.random() < .5) for x in refs]
        w.graph()
        allrefs = {}
        for x in refs:
            allrefs.setdefault(x.hid, x)
        for h in list(w.names):
            if w.names[h].startswith("r") and h not in allrefs and r.random() < .3:
                allrefs[h] = w.S.load_ref(h)
        gen(w, r, PROFILES[profile], list(allrefs.values()))
    finally:
        for x in (path, path + "-wal", path + "-shm", path + "-journal"):
            if os.path.exists(x):
                os.remove(x)
    return {"seed": seed, "g": w.g, "events": w.events}


def gen(w, r, weights, refs):
    S = w.S
    kinds = [k for k, v in weights.items() for _ in range(v)]
    nev = r.randint(6, 14)
    tries = 0
    while len(w.events) < nev and tries < 60:
        tries += 1
        z = r.choice(kinds)
        if len(w.frames) < 2:
            z = r.choice(["from_op", "from_refs", "from_refs", "from_vars"])
        if z in ("from_op", "from_refs", "from_vars"):
            make(w, r, z, refs)
        else:
            k = r.choice(range(len(w.frames))) if r.random() < .6 else len(w.frames) - 1
            use(w, r, z, k)
        if w.stuck or (w.events and w.events[-1]["op"] == "delete"):
            break


def given(w, xs):
    """the same elements, given as another kind of iterable"""
    t = w.shapes.random()
    return xs if t < .5 else tuple(xs) if t < .6 else (x for x in xs) if t < .9 else dict.fromkeys(xs).keys()


def small(c):
    n = len(c.vs) + len(c.fs)
    return n <= 26 and sum(map(len, c.vs.values())) + sum(map(len, c.fs.values())) <= 90


def make(w, r, z, refs):
    S = w.S
    sample = lambda: r.sample(refs, min(len(refs), r.randint(1, 5)))
    if z == "from_op":
        names = sorted({c["op"] for c in w.g["calls"] if c["op"] in BYNAME})
        if names:
            f = r.choice(names)
            w.do("from_op", lambda: S.cf(BYNAME[f]), fun=f)
    elif z == "from_refs":
        rs = sample()
        how = r.random()
        if how < .2:
            rs = rs[:1]
            fn = lambda: S.cf(rs[0])
        elif how < .4:
            fn = lambda: S.cf(given(w, [x.hid for x in rs]))
        else:
            fn = lambda: S.cf(given(w, rs))
        w.do("from_refs", fn, refs=[w.n(x.hid) for x in rs])
    else:
        d = {}
        for v in r.sample(["a", "b", "x", "v_0", "inc", "output_0"], r.randint(1, 3)):
            d[v] = sample()
        arg = {v: (x[0] if len(x) == 1 and r.random() < .5 else set(x) if r.random() < .3 else list(x)) for v, x in d.items()}
        w.do("from_vars", lambda: S.cf(dict(arg)), view=[[v, [w.n(x.hid) for x in xs]] for v, xs in sorted(d.items())])


def use(w, r, z, k):
    c = w.frames[k]
    S = w.S
    nodes = sorted(set(c.vs) | set(c.fs))
    vs, fs = sorted(c.vs), sorted(c.fs)
    emptyfun = any(not x for x in c.fs.values())
    inplace = r.random() < .25
    some = lambda xs, most=4: sorted(r.sample(xs, min(len(xs), r.randint(1, most))))
    how = r.choice(["strong", "weak"])
    direction = r.choice(["back", "forward"])
    one = lambda m: dict(a=[k], inplace=inplace)
    hids = lambda v: [w.names[h] for h in v]
    if z == "expand" or z == "expandall":
        if not small(c) or emptyfun:
            return
        skip, reuse = r.random() < .25, r.random() < .8
        kw = dict(skip_existing=skip, reuse_existing=reuse)
        if not reuse and (len(c.calls) > 6 or sum(map(len, c.vs.values())) > 12):
            return
        # making new nodes for what is there already need not come to an end
        if z == "expandall":
            reuse, kw["reuse_existing"] = True, True
        allvars, rec = True, reuse and r.random() < .6
        V = []
        if z == "expand" and not rec and vs and r.random() < .4:
            allvars, V = False, some(vs)
            kw["varnames"] = V[0] if len(V) == 1 and r.random() < .5 else V
        elif z == "expand":
            kw["recursive"] = rec
        now = lambda: {n: given(w, v) if isinstance(v, list) else v for n, v in kw.items()}
        go = lambda x, ip: (x.expand_all(inplace=ip, **kw) if z == "expandall" else
                            x.expand_back(inplace=ip, **now()) if direction == "back" else x.expand_forward(inplace=ip, **now()))
        extra = {}
        signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(20)
        try:
            extra["twin"] = w.dump(go(reordered(c, r), False))
        except (Exception, Stuck):
            pass
        finally:
            signal.alarm(0)
        w.do(z, lambda: go(c, inplace), a=[k], inplace=inplace, dir=direction, rec=rec, allvars=allvars, nodes=V, skip=skip, reuse=reuse, **extra)
        if w.events[-1]["exc"] == "" and r.random() < .3:       # expand the result again
            k2 = k if inplace else len(w.frames) - 1
            c2 = w.frames[k2]
            if allvars and small(c2):
                w.do(z, lambda: go(c2, False), a=[k2], dir=direction, rec=rec, allvars=allvars, nodes=V, skip=skip, reuse=reuse)
    elif z in ("union", "inter"):
        m = r.choice([2, 2, 2, 3])
        ks = [k] + [r.randrange(len(w.frames)) for _ in range(m - 1)]
        cs = [w.frames[j] for j in ks]
        if r.random() < .5 and m == 2:
            fn = (lambda: cs[0] | cs[1]) if z == "union" else (lambda: cs[0] & cs[1])
        else:
            fn = (lambda: CF.union(*cs)) if z == "union" else (lambda: CF.intersection(*cs))
        w.do(z, fn, a=ks)
    elif z == "diff":
        j = r.randrange(len(w.frames))
        w.do("diff", lambda: c - w.frames[j], a=[k, j])
    elif z in ("downstream", "upstream", "midstream"):
        if not nodes or (z == "midstream" and cyclic(c) and len(c.edges()) > 22):
            return
        ns = some(vs if r.random() < .7 and vs else nodes)
        kw = {} if how == "strong" and r.random() < .5 else {"how": how}
        w.do(z, lambda: getattr(c, z)(*ns, **kw), a=[k], nodes=ns, how=how)
    elif z == "select":
        if not nodes:
            return
        ns = some(nodes, 7)
        if r.random() < .1:
            ns = ns + ["nosuchnode"]
        t = r.random()
        fn = (lambda: c[ns[0]]) if len(ns) == 1 and t < .5 else (lambda: c[given(w, ns)]) if t < .5 else (lambda: c.select_nodes(given(w, ns)))
        w.do("select", fn, a=[k], nodes=ns)
    elif z == "subsets":
        view = {x: {h for h in sorted(c.sets[x]) if r.random() < .75} for x in nodes}
        w.do("subsets", lambda: c.select_subsets(view), a=[k], view=w.view(view))
    elif z == "drop":
        if not nodes:
            return
        ns = some(nodes, 3)
        t = r.random()
        if t < .35:
            fn, ns = (lambda: c.drop_node(ns[0], inplace=inplace)), ns[:1]
        elif t < .5 and ns[0] in c.vs:
            fn, ns = (lambda: c.drop_var(ns[0], inplace=inplace)), ns[:1]
        elif t < .65 and ns[0] in c.fs:
            fn, ns = (lambda: c.drop_func(ns[0], inplace=inplace)), ns[:1]
        else:
            if r.random() < .1:
                inplace, ns = False, ns + ["nosuchnode"]
            fn = lambda: c.drop(given(w, ns), inplace=inplace)
        w.do("drop", fn, a=[k], inplace=inplace, nodes=list(ns))
    elif z == "rename":
        if not vs:
            return
        x = r.choice(vs)
        y = r.choice(["new", "z_1", "inc", "x", "output_0"] + nodes)
        fn = (lambda: c.rename_var(x, y, inplace=inplace)) if r.random() < .5 else (lambda: c.rename(vars={x: y}, inplace=inplace))
        w.do("rename", fn, a=[k], inplace=inplace, x=x, y=y)
    elif z == "copy":
        w.do("copy", c.copy, a=[k])
    elif z == "cleanup":
        w.do("cleanup", lambda: c.cleanup(inplace=inplace), a=[k], inplace=inplace)
    elif z == "simplify":
        w.do("cleanup", c.simplify, a=[k], inplace=True)
    elif z == "move":
        if len(vs) < 2:
            return
        x, y = r.sample(vs, 2)
        pool = sorted(c.vs[x]) if r.random() < .9 else sorted(c.refs)
        if not pool:
            return
        h = r.choice(pool)
        w.do("move", lambda: c.move_ref(x, y, h, inplace=inplace), a=[k], inplace=inplace, x=x, y=y, r=w.n(h))
    elif z == "mergeinto":
        if len(vs) < 2:
            return
        x, y = r.sample(vs, 2)
        w.do("mergeinto", lambda: c.merge_into(x, y, inplace=inplace), a=[k], inplace=inplace, x=x, y=y)
    elif z == "mergevars":
        w.do("mergevars", lambda: c.merge_vars(inplace=inplace), a=[k], inplace=inplace)
    elif z == "isin":
        by = r.choice(["val", "hid", "cid"])
        pool = sorted(c.refs) or [""]
        hs = r.sample(pool, min(len(pool), r.randint(1, 6)))
        if by == "val":
            vals = r.sample([0, 1, 2, 3, 4, 5], r.randint(1, 4))
            w.do("isin", lambda: c.isin(vals), a=[k], by=by, values=[show(v) for v in vals])
        elif by == "hid":
            w.do("isin", lambda: c.isin(hs, by="hid"), a=[k], by=by, values=[w.n(h) for h in hs])
        elif c.refs:
            cs = sorted({c.refs[h].cid for h in hs})
            w.do("isin", lambda: c.isin(cs, by="cid"), a=[k], by=by, values=[w.cname.get(x, "?") for x in cs])
    elif z == "less":
        nums = {x for x, _ in w.g["nums"]}
        if all(w.n(h) in nums for h in c.refs):
            than = r.randint(0, 5)
            w.do("less", lambda: c < than, a=[k], than=than)
    elif z == "unreachable":
        w.do("unreachable", lambda: c.drop_unreachable(direction=direction, how=how), a=[k], dir=direction, how=how)
    elif z == "sourceelts":
        w.do(z, c.get_source_elts, a=[k], kind="view")
    elif z == "sinkelts":
        w.do(z, c.get_sink_elts, a=[k], kind="view")
    elif z == "views":
        w.do(z, r.choice([lambda: c.sets, lambda: {x: {y.hid for y in ys} for x, ys in c.values.items()},
                          lambda: {x: {y.hid for y in ys} for x, ys in {**c.refs_by_var(), **c.calls_by_func()}.items()},
                          lambda: {x: {y.hid for y in c.get_var_values(x)} if x in c.vs else c.fs[x] for x in nodes}]), a=[k], kind="view")
    elif z == "adj":
        if nodes:
            x = r.choice(nodes)
            es = {h for h in sorted(c.sets[x]) if r.random() < .7}
            d = r.choice(["back", "forward", "both"])
            w.do(z, lambda: c.get_adj_elts(x, es, d), a=[k], kind="view", node=x, elts=hids(es), dir=d)
    elif z == "reach":
        if nodes:
            init = {x: {h for h in sorted(c.sets[x]) if r.random() < .6} for x in some(nodes)}
            w.do(z, lambda: c.get_reachable_elts(init, direction, how), a=[k], kind="view", init=w.view(init), dir=direction, how=how)
    elif z == "history":
        if vs:
            x = r.choice(vs)
            es = {h for h in sorted(c.vs[x]) if r.random() < .5}
            ic = r.random() < .6
            w.do(z, lambda: c.get_total_history(x, es, include_calls=ic), a=[k], kind="view", node=x, elts=hids(es), calls=ic)
    elif z == "topo":
        if not nodes:
            return
        ns = some(nodes, 9)
        if r.random() < .4:
            w.do(z, c.topsort_modulo_sccs, a=[k], kind="table", nodes=nodes)
        else:
            w.do(z, lambda: c.sort_nodes(given(w, ns)), a=[k], kind="table", nodes=ns)
    elif z == "functable":
        ok = [f for f in fs if c.fs[f] and not any(set(x.inputs) & set(x.outputs) for x in [c.calls[h] for h in c.fs[f]])]
        if ok:
            f = r.choice(ok)
            w.do(z, lambda: c.get_func_table(f), a=[k], kind="table", node=f, values="refs", lazy=[])
    elif z == "historydf":
        ok = [v for v in vs if c.vs[v]]
        if ok and small(c):
            v = r.choice(ok)
            ic = r.random() < .7
            w.do(z, lambda: c.get_history_df(v, include_calls=ic), a=[k], kind="table", node=v, calls=ic, values="refs", lazy=[])
    elif z == "df":
        if not nodes or not small(c) or (cyclic(c) and len(c.edges()) > 22):
            return
        t = r.random()
        ns = [] if t < .4 and len(nodes) > 1 else some(nodes, 1) if t < .5 else sorted(r.sample(nodes, min(len(nodes), r.randint(2, 5))))
        ns2 = ns or nodes
        mid = c.midstream(*ns2)
        values = r.choice(["objs", "refs"])
        ic = r.random() < .7
        join = "outer" if r.random() < .85 else "inner"
        lazy = some(vs, 3) if vs and values == "objs" and r.random() < .3 else None
        kw = dict(values=values, include_calls=ic, join_how=join)
        if lazy is not None:
            kw["lazy_vars"] = given(w, lazy)
        fn = lambda: c.df(*ns, **kw)
        if values == "objs" and ic and join == "outer" and lazy is None and r.random() < .5:
            fn = (lambda: c.eval(*ns, verbose=False)) if r.random() < .5 else (lambda: c.df(*ns))
        w.do("df", fn, a=[k], kind="table", nodes=ns, mid=sorted(mid.nodes), values=values, lazy=lazy or [], calls=ic, join=join)
    elif z == "delete":
        w.do("delete", c.delete_calls, a=[k], kind="none")
        w.events[-1]["left"] = sorted({w.n(x[0]) for x in w.rows()[0]})
