"""All uses of an operation on all restrictions of a few frames: spec/CFCases.tla enumerates them, they are performed here."""
from cf_world import *


def diamond():
    b, c = inc(1), neg(1)
    add(b, c)
    add(b, 5)


def loop():
    r = add(1, 2)
    r = add(r, 1)
    add(r, 2)


def lists():
    tot([inc(1), 3])
    tot([3])


def twice():
    y1, y2 = inc(1), inc(2)
    add(y1, y2)
    add(y2, y2)


def pair():
    a, b = dm(7, 1)
    dm(a, b)


# graphs, the function whose frame is expanded, how, and whether two variables are put together
WORLDS = [(twice, inc, "all", 0), (diamond, neg, "all", 0), (loop, add, "all", 1), (lists, tot, "back", 0), (pair, dm, "all", 1), (diamond, add, "all", 1),
          (diamond, inc, "forward", 0)]


def build(path, j):
    prog, op_, how, merged = WORLDS[j]
    w = World(path)
    w.shapes = random.Random(j)
    with w.S:
        prog()
    w.graph()
    w.do("from_op", lambda: w.S.cf(op_), fun=op_.name)
    c = w.frames[-1]
    kw = dict(a=[0], inplace=False, allvars=True, nodes=[], skip=False, reuse=True)
    if how == "all":
        w.do("expandall", lambda: c.expand_all(skip_existing=False, reuse_existing=True), dir="back", rec=True, **kw)
    else:
        w.do("expand", lambda: c.expand_back() if how == "back" else c.expand_forward(), dir=how, rec=False, **kw)
    if merged and len(w.frames) == 2:
        c = w.frames[-1]
        vs = sorted(c.vs)
        if len(vs) > 2:
            w.do("mergeinto", lambda: c.merge_into(vs[0], vs[1]), a=[1], inplace=False, x=vs[0], y=vs[1])
    return w


def subview(w, view):
    return {n: {w.rev[x] for x in xs} for n, xs in view}


def perform(w, k, o):
    """one operation on frame k"""
    c, z = w.frames[k], o["op"]
    ip = o.get("inplace", False)
    if ip:
        w.do("copy", c.copy, a=[k])
        if w.events[-1]["exc"]:
            return
        k = len(w.frames) - 1
        c = w.frames[k]
    ns = o.get("nodes", [])
    elts = {w.rev[x] for x in o.get("elts", [])}
    if z == "select":
        w.do(z, lambda: c.select_nodes(ns), a=[k], nodes=ns)
    elif z == "topo":
        w.do(z, lambda: c.sort_nodes(ns), a=[k], kind="table", nodes=ns)
    elif z == "drop":
        w.do(z, lambda: c.drop(ns, inplace=ip), a=[k], inplace=ip, nodes=ns)
    elif z in ("downstream", "upstream", "midstream"):
        w.do(z, lambda: getattr(c, z)(*ns, how=o["how"]), a=[k], nodes=ns, how=o["how"])
    elif z == "unreachable":
        w.do(z, lambda: c.drop_unreachable(direction=o["dir"], how=o["how"]), a=[k], dir=o["dir"], how=o["how"])
    elif z == "adj":
        w.do(z, lambda: c.get_adj_elts(o["node"], elts, o["dir"]), a=[k], kind="view", node=o["node"], elts=o["elts"], dir=o["dir"])
    elif z == "reach":
        w.do(z, lambda: c.get_reachable_elts(subview(w, o["init"]), o["dir"], o["how"]), a=[k], kind="view", init=o["init"], dir=o["dir"], how=o["how"])
    elif z == "history":
        w.do(z, lambda: c.get_total_history(o["node"], elts, include_calls=o["calls"]), a=[k], kind="view", node=o["node"], elts=o["elts"], calls=o["calls"])
    elif z == "historydf":
        w.do(z, lambda: c.get_history_df(o["node"], include_calls=o["calls"]), a=[k], kind="table", node=o["node"], calls=o["calls"], values="refs", lazy=[])
    elif z == "functable":
        w.do(z, lambda: c.get_func_table(o["node"]), a=[k], kind="table", node=o["node"], values="refs", lazy=[])
    elif z == "df":
        ns2 = ns or sorted(c.nodes)
        try:
            mid = sorted(c.midstream(*ns2).nodes)
        except Exception:
            mid = []
        w.do(z, lambda: c.df(*ns, values=o["values"], include_calls=o["calls"], join_how=o["join"]), a=[k], kind="table", nodes=ns, mid=mid,
             values=o["values"], lazy=[], calls=o["calls"], join=o["join"])
    elif z == "mergeinto":
        w.do(z, lambda: c.merge_into(o["x"], o["y"], inplace=ip), a=[k], inplace=ip, x=o["x"], y=o["y"])
    elif z == "rename":
        w.do(z, lambda: c.rename_var(o["x"], o["y"], inplace=ip), a=[k], inplace=ip, x=o["x"], y=o["y"])
    elif z == "move":
        w.do(z, lambda: c.move_ref(o["x"], o["y"], w.rev[o["r"]], inplace=ip), a=[k], inplace=ip, x=o["x"], y=o["y"], r=o["r"])
    elif z == "isin":
        w.do(z, lambda: c.isin(sorted(elts), by="hid"), a=[k], by="hid", values=o["elts"])
    elif z in ("expand", "expandall"):
        kw = dict(skip_existing=o["skip"], reuse_existing=True)
        allv = not ns
        if z == "expand":
            kw.update({"varnames": ns} if ns else {"recursive": o["rec"]})
        go = lambda: c.expand_all(**kw) if z == "expandall" else c.expand_back(**kw) if o["dir"] == "back" else c.expand_forward(**kw)
        w.do(z, go, a=[k], dir=o.get("dir", "back"), rec=o.get("rec", True), allvars=allv, nodes=ns, skip=o["skip"], reuse=True)
    elif z in ("union", "inter", "diff"):
        w.do("subsets", lambda: w.frames[w.base].select_subsets(subview(w, o["view"])), a=[w.base], view=o["view"])
        if w.events[-1]["exc"]:
            return
        if o["drop"]:
            j = len(w.frames) - 1
            w.do("drop", lambda: w.frames[j].drop(o["drop"]), a=[j], inplace=False, nodes=o["drop"])
            if w.events[-1]["exc"]:
                return
        j = len(w.frames) - 1
        d = w.frames[j]
        w.do(z, (lambda: c | d) if z == "union" else (lambda: c & d) if z == "inter" else (lambda: c - d), a=[k, j])
    elif z == "cleanup":
        w.do(z, lambda: c.cleanup(), a=[k])
    elif z in ("sourceelts", "sinkelts"):
        w.do(z, c.get_source_elts if z == "sourceelts" else c.get_sink_elts, a=[k], kind="view")
    elif z == "views":
        w.do(z, lambda: c.sets, a=[k], kind="view")


@recording
def case_trace(a):
    case, scratch = a
    path = os.path.join(scratch, "case_%d_%d.db" % (case["w"], case["k"]))
    w = build(path, case["w"] - 1)
    try:
        w.base = len(w.frames) - 1
        w.do("subsets", lambda: w.frames[w.base].select_subsets(subview(w, case["view"])), a=[w.base], view=case["view"])
        k = len(w.frames) - 1
        for o in case["ops"]:
            if k == w.base or w.stuck:
                break
            perform(w, k, o)
            del w.frames[k + 1:], w.last[k + 1:]        # later operations do not use these
            w.events[-1]["forget"] = k + 1
    finally:
        remove(path)
    return {"seed": "case", "g": w.g, "events": w.events}


def remove(path):
    for x in (path, path + "-wal", path + "-shm", path + "-journal"):
        if os.path.exists(x):
            os.remove(x)


def worlds(scratch):
    """the frames that are restricted, as the code builds them"""
    out = []
    for j in range(len(WORLDS)):
        path = os.path.join(scratch, "world_%d.db" % j)
        w = build(path, j)
        remove(path)
        if w.last:
            out.append({x: w.last[-1][x] for x in ("vs", "fs", "E")})
    return out


KINDS = {
    "P13": dict(select=5, drop=6, rename=8, move=8, mergeinto=4, cleanup=1, union=900, inter=900, views=1, isin=5),
    "P14": dict(expand=2, expandall=1),
    "P15": dict(downstream=6, upstream=6, midstream=6, unreachable=1, diff=400, sourceelts=1, sinkelts=1, adj=9, reach=9, isin=3),
    "P16": dict(df=30, historydf=2, history=6, functable=1, topo=6),
}
