"""Runs calls with all kinds of signatures and arguments on the real code, for spec/ArgsTrace.tla."""
import random

from common import recording
from store_world import *      # noqa: quiet imports of the code under test
from store_world import _eq
from mandala.model import Ignore, NewArgDefault, _Ignore

POOL = {"i0": 0, "i1": 1, "i2": 2, "b1": True, "f1": 1.0, "sa": "a", "sb": "vp", "none": None, "tup": (1, "x"), "lst": [7, "q"],
        "arr": np.arange(3), "arr2": np.arange(3.0), "d": {"k": 1}, "pt": Point(1, "x"), "od": collections.OrderedDict(k=1), "dd": collections.defaultdict(list, k=1), "ls": Listy([7, "q"])}
LPOOL = {"l0": [], "l1": [1], "l12": [1, 2], "l21": [2, 1], "lb": [True]}
DPOOL = {"d0": {}, "da": {"a": 1}, "db": {"b": 1}, "dab": {"a": 1, "b": 2}}
VPS = {"m": object(), "n": object()}
TYPES = {"any": ("", POOL), "list": (": MList[Any]", LPOOL), "dict": (": MDict[str, Any]", DPOOL)}
HINTS = {"any": None, "list": MList[Any], "dict": MDict[str, Any]}


def token(v):
    for pool in (POOL, LPOOL, DPOOL):
        for k, x in pool.items():
            if _eq(x, v) and repr(x) == repr(v):
                return k
    for k, x in VPS.items():
        if x is v:
            return "obj:" + k
    if isinstance(v, str) and v.startswith("@"):
        return v
    if isinstance(v, ValuePointer):
        return "vp:" + v.id
    return "<%s %r>" % (type(v).__name__, v)


def make(t):
    import copy
    for pool in (POOL, LPOOL, DPOOL):
        if t in pool:
            return copy.deepcopy(pool[t])
    return t      # results are their own token


class World:
    """One storage and the functions defined so far."""

    def __init__(self, path):
        self.path, self.S = path, Storage(path)
        self.fns, self.sigs, self.ran, self.ctx, self.results = {}, {}, [], None, {}
        self.srcs = {}
        W = self

        def mk_any(t, salt):
            return (make(t),)

        def mk_list(t: str, salt: int) -> MList[Any]:
            return make(t)

        def mk_dict(t: str, salt: int) -> MDict[str, Any]:
            return make(t)
        self.mk = {"any": op(nout=1)(mk_any), "list": op(mk_list), "dict": op(mk_dict)}

    def received(self, env, sig):
        kinds = {p["name"]: p["kind"] for p in sig["params"]}
        one, vp, vk = [], [], []
        for n, k in kinds.items():
            if k == "vp":
                vp = [token(x) for x in env[n]]
            elif k == "vk":
                vk = [[x, token(y)] for x, y in sorted(env[n].items())]
            else:
                one.append([n, token(env[n])])
        return {"one": sorted(one), "vp": vp, "vk": vk}

    def define(self, name, sig):
        parts, seen_star, ns = [], False, {"MList": MList, "MDict": MDict, "Any": Any, "W": self}
        ps = sig["params"]
        for k, p in enumerate(ps):
            if p["kind"] == "ko" and not seen_star:
                parts.append("*")
                seen_star = True
            ann = TYPES[p["tp"]][0]
            if p["kind"] == "vp":
                parts.append("*" + p["name"] + ann)
                seen_star = True
            elif p["kind"] == "vk":
                parts.append("**" + p["name"] + ann)
            else:
                d = ""
                if p["def"] != "none":
                    v = ValuePointer(p["tok"][3:], VPS[p["tok"][3:]]) if p["tok"].startswith("vp:") else make(p["tok"])
                    ns["D_" + p["name"]] = {"plain": v, "nad": NewArgDefault(v), "ign": Ignore(v)}[p["def"]]
                    d = " = D_" + p["name"]
                parts.append(p["name"] + ann + d)
            if p["kind"] == "po" and (k + 1 == len(ps) or ps[k + 1]["kind"] != "po"):
                parts.append("/")
        ns["SIG"] = sig
        out = {"": "", "out": " -> Any"}[""]
        src = "def %s(%s)%s:\n    return W.body(dict(locals()), SIG)\n" % (name, ", ".join(parts), out)
        exec(src, ns)
        self.sigs[name] = sig
        kw = {}
        if sig["ign"]:
            kw["ignore_args"] = tuple(sig["ign"])
        if sig.get("out"):
            kw["output_names"] = [sig["out"]]
        self.fns[name] = op(**kw)(ns[name])

    def body(self, env, sig):
        r = self.received({p["name"]: env[p["name"]] for p in sig["params"]}, sig)
        self.ran.append(r)
        import json
        return "@" + json.dumps(r)

    def arg(self, a):
        """python object for an argument, and its description for the specification"""
        if a["how"] == "raw":
            v, t, s, u = make(a["tok"]), a["tok"], "raw", a["tok"]
        elif a["how"] == "vp":
            v, t, s, u = ValuePointer(a["tok"], VPS[a["tok"]]), "vp:" + a["tok"], "raw", "obj:" + a["tok"]
        elif a["how"] == "res":      # an earlier result of one of the functions
            v = self.results[a["tok"]]
            t = u = self.S.unwrap(v)
            s = v.hid
        else:                        # a result holding the value
            with self.S:
                v = self.mk[a["tp"]](a["tok"], a["salt"])
            t, s, u = a["tok"], v.hid, a["tok"]
        d = {"w": "ign" if a["ign"] else "no", "t": t, "s": s, "u": u}
        return (Ignore(v) if a["ign"] else v), d

    def do(self, ev):
        """an exception anywhere but in the call itself is recorded too"""
        ev["exc"] = ""
        try:
            self.step(ev)
        except Exception as e:
            ev["exc"] = "%s: %s" % (type(e).__name__, str(e)[:200])
            if ev["ev"] == "call":
                ev.update(ev="broken", was="call")

    def step(self, ev):
        if ev["ev"] == "def":
            self.define(ev["op"], ev["sig"])
            return {}
        if ev["ev"] == "reopen":
            self.S = Storage(self.path)
            return {}
        if ev["ev"] == "forget":
            with contextlib.redirect_stdout(io.StringIO()):
                self.S.clear_cache()
            return {}
        pos = [self.arg(a) for a in ev["cpos"]]
        kw = [(n, self.arg(a)) for n, a in ev["ckw"]]
        ev["pos"] = [d for _, d in pos]
        ev["kw"] = [{"name": n, "arg": d} for n, (_, d) in kw]
        self.ran = []
        f, r, exc = self.fns[ev["op"]], None, ""
        args, kwargs = [v for v, _ in pos], {n: v for n, (v, _) in kw}
        S = self.S
        try:
            if ev["mode"] == "run":
                S._allow_new_calls = True
                with S:
                    S._allow_new_calls = ev["new"]
                    try:
                        r = f(*args, **kwargs)
                    finally:
                        S._allow_new_calls = True
            elif ev["mode"] == "noop":
                with S(mode="noop"):
                    r = f(*args, **kwargs)
            else:
                r = f(*args, **kwargs)
        except Exception as e:
            exc = type(e).__name__
        o = {"exc": exc, "ran": list(self.ran), "hid": "", "val": {"one": [], "vp": [], "vk": []}, "ins": [], "ncalls": 0}
        if exc == "":
            import json
            o["hid"] = r.hid if isinstance(r, Ref) else ""
            v = S.unwrap(r)
            if isinstance(v, str) and v.startswith("@"):
                o["val"] = json.loads(v[1:])
            else:
                o["val"] = {"one": [["result", token(v)]], "vp": [], "vk": []}
            if isinstance(r, Ref):
                self.results[ev["id"]] = r
                c = S.get_ref_creator(r)
                o["ins"] = sorted([n, token(S.unwrap(x))] for n, x in c.inputs.items())
                o["ncalls"] = self.count(ev["op"])
        ev["obs"] = o
        return o

    def count(self, name):
        con = sqlite3.connect(self.path)
        try:
            return con.execute("SELECT COUNT(DISTINCT call_history_id) FROM calls WHERE op = ?", (name,)).fetchone()[0]
        finally:
            con.close()


# ---------------------------------------------------------------- random programs
KINDS = ["po", "pk", "pk", "vp", "ko", "ko", "vk"]
NAMES = ["a", "b", "c", "key", "args_0", "self", "x_1"]


class Gen:
    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.nid = 0

    def param(self, name, kind, need_def):
        r = self.rng
        tp = r.choice(["any"] * 4 + ["list", "dict"])
        d, tok = "none", "i0"
        if kind not in ("vp", "vk"):
            if need_def or r.random() < 0.45:
                d = r.choice(["plain", "nad", "nad", "ign", "plain"])
                tok = r.choice(sorted(TYPES[tp][1]))
                if tp == "any" and r.random() < 0.08:
                    tok = "vp:m"
                    d = "plain"
        return {"name": name, "kind": kind, "def": d, "tok": tok, "tp": tp,
                "utok": "obj:" + tok[3:] if tok.startswith("vp:") else tok}

    def sig(self):
        r = self.rng
        names = r.sample(NAMES, len(NAMES))
        ps = []
        lay = {"po": r.choice([0, 0, 0, 1, 2]), "pk": r.choice([0, 1, 1, 2, 2, 3]), "vp": r.choice([0, 0, 1]),
               "ko": r.choice([0, 0, 1, 2]), "vk": r.choice([0, 0, 1])}
        need = False
        for kind in ("po", "pk", "vp", "ko", "vk"):
            for _ in range(lay[kind]):
                if not names:
                    break
                n = {"vp": "args", "vk": "kws"}.get(kind) or names.pop()
                p = self.param(n, kind, need and kind in ("po", "pk"))
                need = need or (p["def"] != "none" and kind in ("po", "pk"))
                ps.append(p)
        if not ps:
            ps = [self.param("a", "pk", False)]
        cand = [p["name"] for p in ps] + ["zz"]
        ign = [n for n in cand if r.random() < 0.12]
        # an ignored parameter must be one of the function, or go to **kws
        if "zz" in ign and not any(p["kind"] == "vk" for p in ps):
            ign.remove("zz")
        return {"params": ps, "ign": ign, "ver": 0, "out": r.choice(["", "", "res"])}

    def evolve(self, sig):
        """another signature of the same function: parameters added with a NewArgDefault, removed again, reordered, new version"""
        r = self.rng
        sig = {"params": [dict(p) for p in sig["params"]], "ign": list(sig["ign"]), "ver": sig["ver"], "out": sig["out"]}
        x = r.random()
        if x < 0.6:
            used = {p["name"] for p in sig["params"]}
            free = [n for n in ["n1", "n2", "n3"] if n not in used]
            if free:
                kinds = [p["kind"] for p in sig["params"]]
                k = r.choice(["pk", "ko"])
                p = self.param(free[0], k, True)
                if p["def"] == "plain":
                    p["def"] = "nad"
                if p["tok"].startswith("vp:"):
                    p["tok"] = p["utok"] = "i1"
                pos = max([j + 1 for j, q in enumerate(kinds) if q in (("po", "pk") if k == "pk" else ("po", "pk", "vp", "ko"))] + [0])
                sig["params"].insert(pos, p)
        elif x < 0.75:
            js = [j for j, p in enumerate(sig["params"]) if p["name"].startswith("n")]
            if js:
                del sig["params"][r.choice(js)]
        else:
            # other order of keyword-only parameters
            ko = [p for p in sig["params"] if p["kind"] == "ko"]
            r.shuffle(ko)
            it = iter(ko)
            sig["params"] = [next(it) if p["kind"] == "ko" else p for p in sig["params"]]
        return sig

    def arg(self, p, done):
        r = self.rng
        tp = p["tp"]
        pool = sorted(TYPES[tp][1])
        # few values per parameter, so that calls repeat
        few = [pool[(len(p["name"]) * 7 + ord(p["name"][-1]) + k) % len(pool)] for k in (0, 3)]
        tok = r.choice(few + few + ([p["tok"]] if p["def"] != "none" and not p["tok"].startswith("vp:") else few))
        if tok.startswith("vp:"):
            tok = few[0]
        how = r.choice(["raw", "raw", "raw", "ref", "ref"])
        if tp == "any":
            y = r.random()
            if y < 0.06:
                how, tok = "vp", r.choice(sorted(VPS))
            elif y < 0.12 and done:
                how, tok = "res", r.choice(done)
            elif y < 0.16 and how == "raw":
                tok = r.choice(pool)
        return {"how": how, "tok": tok, "tp": tp, "salt": r.choice([0, 0, 1]), "ign": r.random() < 0.1}

    def call(self, name, sig, done, outside):
        r = self.rng
        ps = sig["params"]
        vk = [p for p in ps if p["kind"] == "vk"]
        vp = [p for p in ps if p["kind"] == "vp"]
        pos, kw = [], []
        stop = False
        for p in ps:
            if p["kind"] in ("vp", "vk"):
                continue
            skip = p["def"] != "none" and r.random() < 0.35
            if r.random() < 0.02:
                skip = True
            if p["kind"] == "po" or (p["kind"] == "pk" and not stop and r.random() < 0.55):
                if skip or stop:
                    stop = True
                else:
                    pos.append(self.arg(p, done))
                    continue
            else:
                stop = True
            if not skip and p["kind"] != "po":
                kw.append([p["name"], self.arg(p, done)])
        if vp and not stop:
            pos += [self.arg(vp[0], done) for _ in range(r.choice([0, 1, 2, 3]))]
        if vk:
            extra = ["zz", "yy", "output_0", "args_0", "args_1"] + ["res"] + [p["name"] for p in ps if p["kind"] == "po" and p["def"] == "none"]
            taken = {p["name"] for p in ps if p["kind"] != "po" or p["def"] != "none"}
            kw += [[n, self.arg(dict(vk[0], name=n), done)] for n in extra if n not in taken and r.random() < 0.2]
        if r.random() < 0.03:
            q = (vk + [ps[0]])[0]
            kw.append(["bogus" if r.random() < 0.5 or vk else ps[0]["name"], self.arg(q, done)])
        if r.random() < 0.02 and not vp:
            pos.append(self.arg(ps[0], done))
        seen, kk = set(), []
        for n, a in kw:
            if n not in seen:
                seen.add(n)
                kk.append([n, a])
        r.shuffle(kk)
        self.nid += 1
        mode = r.choice(["run"] * 8 + ["noop"])
        if mode == "run" and r.random() < 0.04:
            new = False
        else:
            new = True
        return {"ev": "call", "op": name, "cpos": pos, "ckw": kk, "mode": mode, "new": new, "id": self.nid}


@recording
def gen_trace(a):
    seed, scratch = a
    g = Gen(seed)
    r = g.rng
    path = os.path.join(scratch, "args_%s.db" % seed)
    W = World(path)
    evs, sigs, calls, done = [], {}, [], []

    def run(ev):
        evs.append(ev)
        W.do(ev)
        if ev["ev"] == "call" and ev["mode"] == "run" and ev["obs"]["exc"] == "":
            done.append(ev["id"])
    try:
        for k in range(r.choice([1, 2])):
            n = "fgh"[k]
            sigs[n] = g.sig()
            run({"ev": "def", "op": n, "sig": sigs[n]})
        for _ in range(r.choice([14, 22])):
            n = r.choice(sorted(sigs))
            x = r.random()
            if x < 0.08:
                sigs[n] = g.evolve(sigs[n])
                run({"ev": "def", "op": n, "sig": sigs[n]})
            elif x < 0.11:
                run({"ev": "reopen"})
            elif x < 0.14:
                run({"ev": "forget"})
            elif x < 0.45 and calls:
                # an earlier call again, given differently
                ev = respell(g, r.choice(calls), sigs)
                while not fits(ev, sigs[ev["op"]]):
                    ev = g.call(ev["op"], sigs[ev["op"]], done, False)
                run(ev)
            else:
                ev = g.call(n, sigs[n], done, False)
                while not fits(ev, sigs[n]):
                    ev = g.call(n, sigs[n], done, False)
                calls.append(ev)
                run(ev)
    finally:
        if os.path.exists(path):
            os.remove(path)
    return {"seed": seed, "events": evs}


@recording
def case_trace(a):
    """calls enumerated by spec/ArgsMC for one signature, in a random order"""
    (seed, sig, calls), scratch = a
    r = random.Random(seed)
    path = os.path.join(scratch, "args_%s.db" % seed)
    W, evs = World(path), []

    def run(ev):
        evs.append(ev)
        W.do(ev)

    def arg(x):
        return {"how": r.choice(["raw", "raw", "ref"]), "tok": x["t"], "tp": "any", "salt": 0, "ign": x["w"] == "ign"}
    try:
        run({"ev": "def", "op": "f", "sig": sig})
        for k, c in enumerate(calls):
            if k == (2 * len(calls)) // 3:
                # a new argument: the calls so far must be recognised
                new = {"name": "new", "kind": "ko", "def": "nad", "tok": "i0", "utok": "i0", "tp": "any"}
                pos = len([p for p in sig["params"] if p["kind"] != "vk"])
                run({"ev": "def", "op": "f", "sig": dict(sig, params=sig["params"][:pos] + [new] + sig["params"][pos:])})
            if k > 0 and k % 17 == 0:
                run({"ev": "reopen"})
            run({"ev": "call", "op": "f", "cpos": [arg(x) for x in c["pos"]], "ckw": [[x["name"], arg(x["arg"])] for x in c["kw"]],
                 "mode": "noop" if r.random() < 0.06 else "run", "new": True, "id": k})
    finally:
        if os.path.exists(path):
            os.remove(path)
    return {"seed": seed, "events": evs}


def fits(ev, sig):
    """arguments of collection type only go where a collection of that type is expected"""
    ps = sig["params"]
    pk = [p for p in ps if p["kind"] in ("po", "pk")]
    var = {p["kind"]: p for p in ps if p["kind"] in ("vp", "vk")}
    byname = {p["name"]: p for p in ps if p["kind"] in ("pk", "ko")}
    pairs = [((pk[j] if j < len(pk) else var.get("vp")), a) for j, a in enumerate(ev["cpos"])]
    for n, a in ev["ckw"]:
        if n not in byname and (n in ("n1", "n2", "n3") or any(p["name"] == n and p["def"] != "none" for p in ps)):
            return False
        pairs.append((byname.get(n) or var.get("vk"), a))
    return all(p is None or p["tp"] == a["tp"] for p, a in pairs)


def respell(g, ev, sigs):
    """the same arguments, given by position or keyword, raw or as results, in another order"""
    import copy
    r = g.rng
    ev = {k: copy.deepcopy(ev[k]) for k in ("ev", "op", "cpos", "ckw", "mode", "new")}
    ps = sigs[ev["op"]]["params"]
    pk = [p for p in ps if p["kind"] in ("po", "pk")]
    while 0 < len(ev["cpos"]) <= len(pk) and pk[len(ev["cpos"]) - 1]["kind"] == "pk" and r.random() < 0.4:
        n = pk[len(ev["cpos"]) - 1]["name"]
        if n in [x for x, _ in ev["ckw"]]:
            break
        ev["ckw"].append([n, ev["cpos"].pop()])
    for a in ev["cpos"] + [a for _, a in ev["ckw"]]:
        if a["how"] in ("raw", "ref") and r.random() < 0.3:
            a["how"] = "ref" if a["how"] == "raw" else "raw"
        if r.random() < 0.05:
            a["ign"] = not a["ign"]
    r.shuffle(ev["ckw"])
    # leave out arguments equal to the default, or give defaults explicitly
    byname = {p["name"]: p for p in ps}
    ev["ckw"] = [[n, a] for n, a in ev["ckw"] if not (n in byname and byname[n]["kind"] != "po" and byname[n]["def"] != "none" and a["how"] != "res" and a["tok"] == byname[n]["tok"] and r.random() < 0.5)]
    given = {n for n, _ in ev["ckw"]} | {p["name"] for p in pk[:len(ev["cpos"])]}
    for p in ps:
        if p["kind"] in ("pk", "ko") and p["def"] != "none" and p["name"] not in given and not p["tok"].startswith("vp:") and r.random() < 0.3:
            ev["ckw"].append([p["name"], {"how": r.choice(["raw", "ref"]), "tok": p["tok"], "tp": p["tp"], "salt": 0, "ign": False}])
    g.nid += 1
    ev["id"] = g.nid
    return ev
