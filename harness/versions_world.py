"""Random programs whose code keeps changing, run in versioned storages and recorded for spec/VersionsTrace.tla.

A program has two modules with global variables, tracked functions and methods and memoized functions; every
component has several contents, some of which differ from each other only in ways that a user could call
irrelevant (comments, constants).  A history edits the files, enters contexts (answering the questions about
changes), makes calls, drops versions and calls, and reopens the storage."""
import contextlib
import builtins
import importlib
import inspect
import io
import linecache
import os
import random
import shutil
import sys
import textwrap
import types
import warnings

from common import *

warnings.filterwarnings("ignore")
import numpy as np
from mandala.imports import *
from mandala.model import wrap_atom
from mandala.deps.utils import unknown_function
from mandala.deps.tracers import DecTracer
from mandala.deps.tracers.dec_impl import TracerState

LOG = []


def install_log():
    """the module through which the programs report what is executed"""
    m = types.ModuleType("verif_log")
    m.hit = LOG.append

    class Boom(Exception):
        pass
    m.Boom = Boom
    sys.modules["verif_log"] = m
    return m


GKINDS = {
    "int": (lambda v: repr(v), "%s"),
    "list": (lambda v: "[%d]" % v, "%s[0]"),
    "dict": (lambda v: "{'a': %d}" % v, "%s['a']"),
    "tuple": (lambda v: "(0, %d)" % v, "%s[1]"),
    "str": (lambda v: repr(str(v)), "int(%s)"),
    "np": (lambda v: "np.array([%d])" % v, "int(%s[0])"),
    "ref": (lambda v: "wrap_atom(%d)" % v, "%s.obj"),
}
HEAD = {"va": "from mandala.imports import *\nfrom mandala.model import wrap_atom\nimport numpy as np\nimport verif_log\n",
        "vb": "from mandala.imports import *\nimport verif_log\n"}


def dotted(key):
    """the name of a component; a program that lives in __main__ is module va"""
    return ".".join(key).replace("__main__.", "va.")


class Program:
    """components, their contents, and the text of each content"""

    def __init__(self, r, weights):
        self.r, self.w = r, weights
        # calling a change of results irrelevant and forgetting some of the results do not go together
        self.loose = r.random() < .5
        self.main = r.random() < weights.get("main", .2)
        self.globs = ["va.G%d" % k for k in range(1, r.randint(1, 3) + 1)]
        if r.random() < .5 and not self.main:
            self.globs.append("vb.H1")
        self.gkind = {g: r.choice(list(GKINDS)) for g in self.globs}
        for g in self.globs:
            if g.startswith("vb") and self.gkind[g] in ("np", "ref"):
                self.gkind[g] = "int"
        self.alias = {} if self.main else {"vb.G%d" % k: "va.G%d" % k for k in range(1, 4) if "va.G%d" % k in self.globs}
        # functions that may call only those before them
        self.order = []
        for name, p in (("va.h1", .9), ("va.h2", .7), ("va.K.m1", .5), ("va.f1", .9), ("va.f2", .3), ("vb.h3", .6), ("vb.f3", .8), ("vb.f4", .5)):
            if r.random() < p and not (self.main and name.startswith("vb")):
                self.order.append(name)
        self.order = self.order or ["va.h1"]
        if not any(self.isop(c) for c in self.order):
            self.order.append("va.f1" if self.main else "vb.f3")
        self.back = r.random() < .4
        self.mkind = r.choice(["", "", "static", "class"])    # of method m1
        self.deco = {c: r.choice(["@op", "@op", "@track\n@op", "@op()"]) for c in self.order if self.isop(c)}
        self.lazy = {c for c in self.order if not self.isop(c) and "K." not in c and r.random() < .2}
        self.contents = {}    # component -> list of content ids
        self.kin = {}         # content id -> contents with the same kin differ in nothing that matters
        self.text, self.body, self.value = {}, {}, {}
        for g in self.globs:
            vals = r.sample(range(1, 60), 3)
            for j, v in enumerate(vals):
                self.new(g, "any" if self.loose else j, value=v)
        if self.back:
            for j in range(2):
                self.new("va.ap", 0, body=[], cosmetic=j)
        for c in self.order:
            base = None
            for kin in range(r.choice([1, 2, 2, 3])):
                base, number = self.make_body(c), len(self.contents.get(c, []))
                for m in range(r.choice([1, 2, 2])):
                    body = base if m == 0 else self.tweak(base)
                    self.new(c, kin, body=body, cosmetic=len(self.contents.get(c, [])))
                if self.spaced(base):
                    # nothing but the white space at the end of a line differs
                    self.new(c, "any" if self.loose else "space", body=[dict(z, d=z["d"] % 9 + 1) if z.get("how") == "text" else z for z in base], cosmetic=number)
        if self.uses_obj():
            self.new("va.O", 0, value=0)

    def isop(self, c):
        return c.split(".")[-1].startswith("f")

    def uses_obj(self):
        return any(c.startswith("va.K.") for c in self.order)

    def new(self, c, kin, body=None, value=None, cosmetic=0):
        k = "%s@%d" % (c, len(self.contents.setdefault(c, [])))
        self.contents[c].append(k)
        self.kin[k] = (c, kin)
        if value is not None:
            self.value[k] = value
            if c == "va.O":
                self.text[k] = "O = K()"
            else:
                self.text[k] = "%s = %s" % (c.split(".")[1], GKINDS[self.gkind[c]][0](value))
        else:
            self.body[k] = body
            self.text[k] = self.emit(c, body, cosmetic)

    # -- bodies
    def make_body(self, c):
        r = self.r
        body = [s for s in (self.stmt(c, 0) for _ in range(r.randint(1, 4))) if s] or [dict(t="const", d=r.randint(1, 50))]
        st = r.getstate()[1]
        r2 = random.Random("%d/%d" % (st[0], st[-1]))
        if r2.random() < self.w.get("bare", .04):
            # code of the program that is not tracked
            s = dict(t="bare", d=r2.randint(1, 9), how=r2.choice(["call", "call", "lambda", "class"]))
            body.insert(r2.randint(0, len(body)), s if r2.random() < .2 else dict(t="if", p=r2.randint(0, 2), d=100, s=[s]))
        if r2.random() < self.w.get("text", .06):
            body.append(dict(t="const", d=r2.randint(1, 9), how="text"))
        if not self.isop(c) and r2.random() < self.w.get("params", .12):
            body.append(dict(t="const", d=r2.randint(1, 50), how=r2.choice(["default", "kwonly"])))
        if "K." in c and r2.random() < self.w.get("params", .12):
            body.append(dict(t="const", d=1, how="cell"))
        return body

    def stmt(self, c, depth):
        r = self.r
        mod = c.split(".")[0]
        below = [x for x in self.order[:self.order.index(c)]]
        kinds = ["const", "arg", "glob", "glob"]
        if below:
            kinds += ["call"] * 4 + (["noop"] if any(self.isop(x) for x in below) and self.w.get("noop", 1) else [])
        if depth < 2:
            kinds += ["if", "try"] + ([] if self.loose else ["ifacc"])
        kinds += ["raise"] if r.random() < self.w.get("raise", .25) else []
        kinds += ["self"] if r.random() < .15 and c not in self.lazy else []
        if self.back:
            kinds += ["back"]
        t = r.choice(kinds)
        if t == "const":
            return dict(t=t, d=r.randint(1, 50))
        if t == "arg":
            return dict(t=t, d=r.randint(1, 4))
        if t == "glob":
            g = r.choice(self.globs)
            if mod == "va" and g.startswith("vb"):
                return None
            return dict(t=t, c=mod + "." + g.split(".")[1], g=g, how=r.choice(["plain", "plain", "lambda", "comp", "def"]))
        if t == "call":
            x = r.choice(below)
            return dict(t=t, c=x, d=r.randint(0, 2), how=r.choice(["plain", "plain", "plain", "lambda", "comp", "map", "def"]))
        if t == "noop":
            return dict(t=t, c=r.choice([x for x in below if self.isop(x)]), d=r.randint(0, 2))
        if t == "self":
            return None if c == "va.K.m1" and self.mkind == "static" else dict(t=t)
        if t == "raise":
            return dict(t=t, p=r.randint(0, 2))
        if t == "back":
            s = self.stmt(c, 9)
            if s is None or s["t"] not in ("glob", "const"):
                return None
            return dict(t=t, c="va.ap", s=[dict(s, how="plain")])
        s = [z for z in (self.stmt(c, depth + 1) for _ in range(r.randint(1, 2))) if z]
        if not s:
            return None
        return dict(t=t, p=r.randint(0, 2), d=100, s=s)

    def spaced(self, body):
        return any(z.get("how") == "text" for z in body)

    def tweak(self, body):
        """another constant, or nothing but a comment"""
        body = [dict(s) for s in body]
        if self.loose and self.r.random() < .5:
            for s in body:
                if s["t"] == "const" and s.get("how") != "cell":
                    s["d"] = (s["d"] + self.r.randint(1, 9)) % 60
                    break
        return body

    # -- texts
    def ref(self, c):
        return "O.m1" if c == "va.K.m1" else c.split(".")[1]

    def callx(self, x, d):
        e = "%s(x + %d)" % (self.ref(x), d)
        if self.isop(x):
            return "val(%s)" % e
        return "sum(%s)" % e if x in self.lazy else e

    def expr(self, c, s):
        if s["t"] == "const":
            if s.get("how") in ("default", "kwonly", "cell"):
                return {"cell": "len(__class__.__name__)"}.get(s["how"], "more")
            # (a text over two lines, the first of which ends with d - 1 spaces)
            return 'len("""%s\n""")' % (" " * (s["d"] - 1)) if s.get("how") == "text" else str(s["d"])
        if s["t"] == "arg":
            return "x * %d" % s["d"]
        if s["t"] == "glob":
            return GKINDS[self.gkind[s["g"]]][1] % s["g"].split(".")[1]
        if s["t"] == "call":
            return self.callx(s["c"], s["d"])
        if s["t"] == "self":
            e = "%s(x - 1)" % (("cls.m1" if self.mkind else "self.m1") if c == "va.K.m1" else self.ref(c))
            return "val(%s)" % e if self.isop(c) else e

    def lines(self, c, body, ind):
        pad = "    " * ind
        out = []
        for s in body:
            t = s["t"]
            if t in ("const", "arg", "glob", "call"):
                e = self.expr(c, s)
                how = s.get("how", "plain")
                if how == "lambda":
                    e = "(lambda: %s)()" % e
                elif how == "comp":
                    e = "[%s for _ in range(1)][0]" % e
                elif how == "map":
                    e = "list(map(lambda x: %s, [x]))[0]" % e
                elif how == "def":
                    out += [pad + "def local():", pad + "    return %s" % e]
                    e = "local()"
                out.append(pad + "acc = (acc + %s) %% 997" % e)
            elif t == "self":
                out += [pad + "if 0 < x < 4:", pad + "    acc = (acc + %s) %% 997" % self.expr(c, s)]
            elif t == "noop":
                out += [pad + "with noop():", pad + "    acc = (acc + %s) %% 997" % self.callx(s["c"], s["d"])]
            elif t == "back":
                out.append(pad + "acc = (acc + ap(lambda: %s)) %% 997" % self.expr(c, s["s"][0]))
            elif t in ("if", "ifacc"):
                out += [pad + "if %s %% 3 == %d:" % ("x" if t == "if" else "acc", s["p"])] + self.lines(c, s["s"], ind + 1)
            elif t == "try":
                out += [pad + "try:"] + self.lines(c, s["s"], ind + 1) + [pad + "except verif_log.Boom:", pad + "    acc = (acc + %d) %% 997" % s["d"]]
            elif t == "bare":
                e = {"call": "bare(%d)", "lambda": "(lambda: bare(%d))()", "class": "Bare.two(%d)"}[s["how"]] % s["d"]
                out.append(pad + "acc = (acc + %s) %% 997" % e)
            elif t == "raise":
                out += [pad + "if x %% 3 == %d:" % s["p"], pad + "    raise verif_log.Boom()"]
        return out

    def emit(self, c, body, cosmetic):
        note = ["    # note %d" % cosmetic] if cosmetic else []
        if c == "va.ap":
            return "\n".join(["@track", "def ap(fn):"] + note + ["    verif_log.hit('va.ap')", "    return fn()"])
        name = c.split(".")[-1]
        params = "x" + "".join({"default": ", more=%d", "kwonly": ", *, more=%d"}[z["how"]] % z["d"] for z in body if z.get("how") in ("default", "kwonly"))
        ls = note + ["    verif_log.hit(%r)" % c, "    acc = 0"] + self.lines(c, body, 1)
        ls.append("    yield acc" if c in self.lazy else "    return acc")
        if c == "va.K.m1":
            first = {"": ["    def m1(self, %s):"], "static": ["    @staticmethod", "    def m1(%s):"], "class": ["    @classmethod", "    def m1(cls, %s):"]}
            first = first[self.mkind]
            return "\n".join(first[:-1] + [first[-1] % params] + ["    " + z for z in ls])
        deco = self.deco[c].split("\n") if self.isop(c) else ["@track"]
        return "\n".join(deco + ["def %s(%s):" % (name, params)] + ls)

    def module(self, mod, code):
        """the source of a module in which components have the given contents ("?": there is no such thing)"""
        out = [HEAD[mod] + "from mandala.storage import noop\nval = verif_log.val\n"]
        if any("'t': 'bare'" in repr(b) for b in self.body.values()):
            out.append("def bare(x):\n    return x\n\n\nclass Bare:\n    @staticmethod\n    def two(x):\n        return x\n")
        if mod == "vb":
            names = [c.split(".")[1] for c in code if c.startswith("va.") and "K." not in c and code[c] != "?"]
            if names:
                out.append("from va import " + ", ".join(names) + "\n")
        mine = [c for c in code if c.startswith(mod + ".") and code[c] != "?" and c in self.contents]
        for c in mine:
            if c in self.globs:
                out.append(self.text[code[c]] + "\n")
        if mod == "va" and self.uses_obj() and code["va.K.m1"] != "?":
            out.append("\n@track\nclass K:\n" + self.text[code["va.K.m1"]] + "\n\nO = K()\n")
        for c in mine:
            if c not in self.globs and "K." not in c and c != "va.O":
                out.append("\n" + self.text[code[c]] + "\n")
        return "\n".join(out)

    def expand(self, code):
        """the components with those that other modules have by importing them"""
        res = dict(code)
        for a, g in self.alias.items():
            res[a] = code[g]
        if "va.O" in code and not self.main:
            res["vb.O"] = code["va.O"]
        return res

    def needs(self, code):
        """what the current code mentions"""
        res = set()

        def walk(b):
            for s in b:
                if "g" in s:
                    res.add(s["g"])
                elif "c" in s:
                    res.add(s["c"])
                    if s["c"] == "va.K.m1":
                        res.add("va.O")
                walk(s.get("s", []))
        for c, k in code.items():
            if k in self.body:
                walk(self.body[k])
        return res


def full(mod, body):
    """statements as the specification has them"""
    res = []
    for s in body:
        if s.get("c") == "va.K.m1":
            res.append({"t": "glob", "c": mod + ".O", "d": 0, "p": 0, "s": []})
        res.append(dict({"t": "", "c": "", "d": 0, "p": 0}, **{k: v for k, v in s.items() if k not in ("how", "g", "s")}, s=full(mod, s.get("s", []))))
    return res


class World:
    def __init__(self, seed, scratch, weights, program=None):
        self.r = random.Random(seed)
        self.shapes = random.Random("%s/shapes" % seed)
        self.seed = seed
        self.p = program or Program(self.r, weights)
        self.dir = os.path.join(scratch, "v_%s" % seed)
        self.deps = os.path.join(self.dir, "deps")
        os.makedirs(self.deps)
        self.db = os.path.join(self.dir, "db.db")
        self.strict = self.r.random() < .25
        self.tg = not self.p.loose or self.r.random() < .8
        self.two = self.p.loose and self.r.random() < .5    # sessions
        self.code = {c: ks[0] for c, ks in self.p.contents.items()}
        self.events, self.refs, self.held = [], {}, []
        self.st, self.modes, self.unknown = None, [], inspect.getsource(unknown_function)
        self.log = install_log()
        from mandala.model import Ref
        self.log.val = self.val = lambda y: self.st.unwrap(y) if isinstance(y, Ref) else y
        sys.path.insert(0, self.deps)
        self.main = sys.modules["__main__"]
        # what a content is known by
        self.bytext = {}
        for c, ks in self.p.contents.items():
            for k in ks:
                if k in self.p.value:
                    continue
                self.bytext[(c, "\n".join(self.p.text[k].splitlines()))] = k
        self.write()
        self.open()

    def close(self):
        sys.path.remove(self.deps)
        sys.modules["__main__"] = self.main
        for m in ("va", "vb"):
            sys.modules.pop(m, None)
        TracerState.tracer = None
        TracerState.registry.clear()
        from mandala.model import Context
        Context.current_context = None
        shutil.rmtree(self.dir)

    def open(self):
        new = lambda: Storage(db_path=self.db, deps_path="__main__" if self.p.main else self.deps, strict_tracing=self.strict, track_globals=self.tg)
        self.sts = [new() for _ in range(1 + self.two)]
        self.st = self.sts[0]

    def write(self):
        for m in ("va", "vb"):
            with open(os.path.join(self.deps, m + ".py"), "w") as f:
                f.write(self.p.module(m, self.code))
        linecache.clearcache()
        importlib.invalidate_caches()
        for m in ("va", "vb"):
            sys.modules.pop(m, None)
        if self.p.main:
            m = types.ModuleType("__main__")
            m.__file__ = os.path.join(self.deps, "va.py")
            sys.modules["__main__"] = m
            with open(m.__file__) as f:
                exec(compile(f.read(), m.__file__, "exec"), m.__dict__)
            self.mods = {"va": m}
        else:
            self.mods = {m: importlib.import_module(m) for m in ("va", "vb")}

    def fn(self, c):
        m, n = c.split(".", 1)
        return getattr(self.mods[m], n)

    # -- observing
    def content(self, c, content):
        """the name of a content of a component"""
        home = self.p.alias.get(c, "va.O" if c == "vb.O" else c)
        if home in self.p.globs or home == "va.O":
            if content[1] == repr("UNKNOWN_GLOBAL_VAR"):
                return "?"
            if home == "va.O":
                return "va.O@0"
            for k in self.p.contents[home]:
                v = eval(GKINDS[self.p.gkind[home]][0](self.p.value[k]), {"np": np, "wrap_atom": wrap_atom})
                if textwrap.shorten(repr(v), 80) == content[1]:
                    return k
            return "??" + str(content)
        if content.rstrip() == "\n".join(z.rstrip() for z in self.unknown.splitlines()).rstrip():
            return "?"
        return self.bytext.get((home, content), "??" + content)

    def snapshot(self):
        st = Storage(db_path=self.db, deps_path="__main__" if self.p.main else self.deps, strict_tracing=self.strict, track_globals=self.tg)
        try:
            v = st.get_versioner()
            dags, names = [], {}
            for key, dag in v.component_dags.items():
                c = dotted(key)
                ids = {h: self.content(c, dag.get_content(h)) for h in dag.commits}
                names[c] = ids
                texts = []
                for h, k in ids.items():
                    # identical contents of several components have one identifier
                    t = st.get_code(h, show=False)
                    same = c.endswith(".O") or any(h in d.commits and t == d.get_content(h) for d in v.component_dags.values())
                    if same:
                        texts.append(k)
                dags.append({"c": c, "head": ids[dag.head], "commits": [[k, ids[dag.commits[h].semantic_hash]] for h, k in ids.items()],
                             "texts": texts})
            sem = lambda x: sorted([dotted(d), names[dotted(d)][h]] for d, h in x.semantic_expansion.items())
            cont = lambda x: sorted([dotted(d), names[dotted(d)][h]] for d, hs in x.content_expansion.items() for h in hs)
            vers, byid = [], {}
            for key, d in v.versions.items():
                for cv, x in d.items():
                    shown = st.get_code(cv, show=False)
                    byid[(dotted(key), cv)] = x
                    vers.append({"op": dotted(key), "sem": sem(x), "cont": cont(x), "sv": x.semantic_version, "cv": cv,
                                 "shown": [dotted(k) for k, h in x.semantic_expansion.items()
                                           if v.component_dags[k].get_presentable_content(h) in shown]})
            calls, out = [], {}
            hids = list(dict.fromkeys(st.call_storage.get_df().index.get_level_values("call_history_id")))
            objs = st.mget_call(hids, in_memory=True)
            opname = {c.split(".")[1]: c for c in self.p.order}
            for j, c in enumerate(objs):
                out[list(c.outputs.values())[0].hid] = j + 1
            for c in objs:
                a = c.inputs["x"]
                op = opname[c.op.name]
                x = byid.get((op, c.content_version))
                calls.append({"op": op, "x": int(st.unwrap(a)), "val": int(st.unwrap(list(c.outputs.values())[0])),
                              "in": 0 if a.hid == wrap_atom(st.unwrap(a)).hid else out.get(a.hid, -1),
                              "sem": sem(x) if x and x.semantic_version == c.semantic_version else [["?", "?"]], "cont": cont(x) if x else [["?", "?"]],
                              "sv": c.semantic_version, "cv": c.content_version, "hid": c.hid})
            return {"has": True, "dags": dags, "vers": vers, "calls": calls}
        finally:
            del st

    NONE = {"has": False, "dags": [], "vers": [], "calls": []}

    def record(self, ev, f=None, snap=False, answer="y", **kw):
        """do something and write down what was seen"""
        LOG.clear()
        asked = [0]
        old = builtins.input

        def inp(*a):
            asked[0] += 1
            return answer
        builtins.input = inp
        if not self.modes and ev not in ("enter", "exit"):
            self.st = self.r.choice(self.sts)
        e = {"ev": ev, "exc": "", "val": 0, "o": self.NONE, "ex": [], "asked": 0}
        e.update(kw)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                val = f() if f else None
                e["val"] = val if isinstance(val, int) else 0
        except BaseException as x:
            if isinstance(x, (KeyboardInterrupt, MemoryError)):
                raise
            e["exc"] = type(x).__name__
            e["msg"] = str(x)[:200]
        finally:
            builtins.input = old
        e["ex"], e["asked"] = list(LOG), asked[0]
        if snap and not self.modes:
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    e["o"] = self.snapshot()
                except Exception as x:
                    e["exc"] = e["exc"] or "snapshot: %r" % x
            self.last = e["o"]
        self.events.append(e)
        return e

    # -- the events
    def edit(self):
        r = self.r
        new = dict(self.code)
        for c in r.sample(sorted(new), min(len(new), r.choice([1, 1, 1, 2, 3]))):
            if c == "va.O":
                continue
            new[c] = r.choice(self.p.contents[c] + (["?"] if r.random() < .3 else []))
        while True:
            missing = [c for c in sorted(self.p.needs(new)) if new[c] == "?"]
            if "va.O" in missing:
                missing = ["va.K.m1"] if new["va.K.m1"] == "?" else []
                new["va.O"] = self.p.contents["va.O"][0]
            if not missing:
                break
            for c in missing:
                new[c] = r.choice(self.p.contents[c])
        if "va.K.m1" in new:
            # the object stands for the class
            new["va.O"] = "?" if new["va.K.m1"] == "?" else self.p.contents["va.O"][0]
        self.code = new
        self.write()
        self.record("edit", code=[[c, k] for c, k in self.p.expand(new).items()])

    def cycle(self):
        """one component goes through its contents and back to the first, the same call being made under each"""
        r = self.shapes
        cs = [c for c in self.p.order if c in self.p.contents and c != "va.O" and self.code.get(c, "?") != "?" and len(self.p.contents[c]) > 1]
        ops = [c for c in self.p.order if self.p.isop(c) and self.code[c] != "?"]
        if not cs or not ops or self.modes:
            return
        c = r.choice([o for o in ops if o in cs] or cs) if r.random() < .6 else r.choice(cs)
        op = c if c in ops else r.choice(ops)
        x = r.randint(0, 3)
        first = self.code[c]
        rest = [k for k in self.p.contents[c] if k != first and k != "?"]
        r.shuffle(rest)
        for k in [first] + rest[:3] + [first]:
            self.st = r.choice(self.sts)
            new = dict(self.code)
            new[c] = k
            if [d for d in self.p.needs(new) if new[d] == "?"] or ("va.K.m1" in new and new["va.K.m1"] == "?"):
                continue
            self.code = new
            self.write()
            self.record("edit", code=[[d, q] for d, q in self.p.expand(new).items()])
            e = self.record("enter", lambda: self.st.__enter__() and None, answer="y", ans="y", mode="run")
            if e["exc"]:
                return
            self.modes.append("run")
            self.do_call(op, 0, x)
            self.modes.pop()
            self.record("exit", lambda: self.st.__exit__(None, None, None) and None, snap=True, outer=not self.modes)

    def compatible(self, only=None):
        """could a user call all changes irrelevant?"""
        v = self.st.get_versioner()
        cur = self.p.expand(self.code)
        for key, dag in v.component_dags.items():
            c = dotted(key)
            if only and c != only:
                continue
            head = self.content(c, dag.get_content(dag.head))
            if "?" in (head, cur[c]) and head != cur[c]:
                return False
            if head != "?" and cur[c] != "?" and self.p.kin.get(head) != self.p.kin.get(cur[c]):
                return False
        return True

    def enter(self, mode="run"):
        r = self.r
        ans = "y"
        if r.random() < .6 and self.compatible():
            ans = "n"
        if r.random() < .08:
            ans = "a"
        if not self.modes:
            self.st = r.choice(self.sts)
        plain = mode == "run" and not self.modes and r.random() < .5
        e = self.record("enter", lambda: (self.st if plain else self.st(mode=mode)).__enter__() and None, answer=ans, ans=ans, mode=mode)
        if e["exc"]:
            return False
        self.modes.append(mode)
        return True

    def exit(self):
        boom = self.r.random() < .2
        self.modes.pop()
        self.record("exit", outer=not self.modes, f=lambda: self.st.__exit__(*((ValueError, ValueError("x"), None) if boom else (None, None, None))) and None, snap=True)

    def call(self):
        r = self.r
        ops = [c for c in self.p.order if self.p.isop(c) and self.code[c] != "?"]
        if not ops:
            return
        c = r.choice(ops)
        arg = r.choice(sorted(self.refs)) if self.refs and r.random() < .35 else 0
        self.do_call(c, arg, self.refs[arg] if arg else r.randint(0, 3))

    def do_call(self, c, arg, x):
        mode = self.modes[-1]
        out = []

        def go():
            y = self.fn(c)(x)
            out.append(y)
            return int(self.val(self.st.unwrap(y)))
        e = self.record("call", go, op=c, arg=arg, x=0 if arg else x, mode=mode)
        if mode == "run" and out and not e["exc"]:
            self.refs[len(self.events)] = out[0]
            self.held.append(len(self.events))

    def assign(self):
        """a global variable gets another value while the context is open"""
        r = self.shapes
        gs = [g for g in self.p.globs if self.code.get(g, "?") != "?" and len(self.p.contents[g]) > 1]
        # (a no-op region inside a function looks at the code again)
        if not gs or "'t': 'noop'" in str(self.p.body):
            return
        g = r.choice(gs)
        self.do_assign(g, r.choice(self.p.contents[g]))

    def do_assign(self, g, k):
        new = self.code = dict(self.code, **{g: k})
        v = eval(GKINDS[self.p.gkind[g]][0](self.p.value[new[g]]), {"np": np, "wrap_atom": wrap_atom})
        for c in [g] + [a for a, h in self.p.alias.items() if h == g]:
            m, n = c.split(".", 1)
            setattr(self.mods[m], n, v)
        self.record("assign", code=[[c, k] for c, k in self.p.expand(new).items() if c == g or self.p.alias.get(c) == g])

    def drop(self, z):
        r = self.r
        if z == "dropversion":
            if not self.last["vers"]:
                return
            v = r.choice(self.last["vers"])
            self.record(z, lambda: self.st.drop_version(v["sv"]), snap=True, sem=v["sem"])
        else:
            if not self.last["calls"]:
                return
            k = r.randrange(len(self.last["calls"]))
            deps = r.random() < .5
            self.record(z, lambda: self.st.drop_calls([self.last["calls"][k]["hid"]], delete_dependents=deps), snap=True,
                        calls=self.last["calls"], k=k + 1, deps=deps)

    def sync(self):
        cur = [c for c in self.p.order if "K." not in c and self.code[c] != "?"]
        if not cur:
            return
        c = self.r.choice(cur)
        ans = "n" if self.r.random() < .6 and self.compatible(c) else "y"
        self.record("sync", lambda: self.st.sync_component(self.fn(c), is_semantic_change=ans == "y") and None, snap=True, op=c, ans=ans)

    def show(self):
        cs = [c for c in self.p.order if self.p.isop(c) and self.code[c] != "?" and any(d["c"] == c for d in self.last["dags"])]
        if cs:
            c = self.r.choice(cs)

            def go():
                self.st.versions(self.fn(c))
                self.st.source_history(self.fn(c))
            self.record("show", go)

    def reopen(self):
        self.open()
        self.record("reopen", snap=True)

    def play(self, e):
        """an event of spec/VersionsMC.tla"""
        k = e["ev"]
        if k == "edit":
            self.code = dict(self.code, **{e["c"]: e["to"]})
            self.write()
            self.record("edit", code=[[c, x] for c, x in self.p.expand(self.code).items()])
        elif k == "enter":
            r = self.record("enter", lambda: self.st(mode=e["mode"]).__enter__() and None, answer=e["ans"], ans=e["ans"], mode=e["mode"])
            if not r["exc"]:
                self.modes.append(e["mode"])
        elif k == "exit":
            self.modes.pop()
            self.record("exit", lambda: self.st.__exit__(None, None, None) and None, snap=True, outer=not self.modes)
        elif k == "assign":
            self.do_assign(e["c"], e["to"])
        elif k == "call":
            arg = self.held[e["arg"] - 1] if e["arg"] else 0
            x = self.refs[arg] if arg else e["x"]
            self.do_call(e["op"], arg, x)
        elif k == "sync":
            self.record("sync", lambda: self.st.sync_component(self.fn(e["op"]), is_semantic_change=e["ans"] == "y") and None, snap=True, op=e["op"], ans=e["ans"])
        elif k == "dropversion":
            want = sorted(e["sem"])
            self.record(k, lambda: self.st.drop_version([v["sv"] for v in self.last["vers"] if v["sem"] == want][0]), snap=True, sem=want)
        elif k == "dropcall":
            j = [i for i, c in enumerate(self.last["calls"]) if (c["op"], c["x"], c["val"], c["cont"], c["in"] == 0) ==
                 (e["op"], e["x"], e["val"], sorted(e["cont"]), e["const"])][0]
            self.record(k, lambda: self.st.drop_calls([self.last["calls"][j]["hid"]], delete_dependents=e["deps"]), snap=True,
                        calls=self.last["calls"], k=j + 1, deps=e["deps"])
        else:
            self.reopen()

    def trace(self):
        p = self.p
        return {"seed": self.seed, "events": self.events, "tg": self.tg,
                "code": [[c, k] for c, k in p.expand({c: ks[0] for c, ks in p.contents.items()}).items()],
                "body": [[k, full(k.split(".")[0], b)] for k, b in p.body.items()], "value": [[k, v] for k, v in p.value.items()],
                "ops": [c for c in p.order if p.isop(c)]}


WEIGHTS = {"context": 10, "edit": 9, "dropversion": 1, "dropcall": 1, "sync": 1, "show": 1, "reopen": 2}
PROFILES = {
    "reuse": dict(WEIGHTS),
    "history": dict(WEIGHTS, edit=12, dropversion=3, dropcall=2, sync=3, reopen=3),
    "deps": dict(WEIGHTS, edit=5, assign=.12, **{"raise": .7}),
}


@recording
def gen_trace(a):
    seed, profile, scratch = a
    weights = PROFILES[profile]
    w = World(seed, scratch, weights)
    r = w.r
    try:
        w.last = w.NONE
        kinds = [k for k in WEIGHTS for _ in range(weights[k]) if not (w.p.loose and k.startswith("drop"))]
        n = r.randint(5, 16)
        steps = 0
        while steps < n:
            steps += 1
            z = r.choice(kinds) if steps > 1 else "context"
            if z == "context":
                if not w.enter("noop" if r.random() < .06 else "run"):
                    continue
                for _ in range(r.randint(1, 5)):
                    q = r.random()
                    if q < .06 and len(w.modes) < 3:
                        w.enter(r.choice(["run", "noop"]))
                    elif q < .12 and len(w.modes) > 1:
                        w.exit()
                    else:
                        w.call()
                    if w.shapes.random() < weights.get("assign", .06):
                        w.assign()
                while w.modes:
                    w.exit()
            elif z == "edit":
                w.edit()
                if w.shapes.random() < .12:
                    w.cycle()
            elif z in ("dropversion", "dropcall"):
                w.drop(z)
            else:
                getattr(w, z)()
    finally:
        w.close()
    return w.trace()
