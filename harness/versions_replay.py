"""Explores spec/VersionsMC.tla on small programs and performs the histories in real versioned storages."""
import random
import time
import multiprocessing as mp
from concurrent.futures import ProcessPoolExecutor

from common import *


def c(d):
    return dict(t="const", d=d)


def arg(d):
    return dict(t="arg", d=d)


def glob(name, mod="va", how="plain"):
    return dict(t="glob", c=mod + "." + name.split(".")[1], g=name, how=how)


def call(x, d=0, how="plain"):
    return dict(t="call", c=x, d=d, how=how)


def noop_(x, d=0):
    return dict(t="noop", c=x, d=d)


def when(p, *s):
    return dict(t="if", p=p, d=0, s=list(s))


def ifacc(p, *s):
    return dict(t="ifacc", p=p, d=0, s=list(s))


def tried(*s):
    return dict(t="try", p=0, d=100, s=list(s))


def boom(p):
    return dict(t="raise", p=p)


def world(funs, globs=(), xs=(0, 1), calls=1, kinds="edit", maxev=(12, 15), replay=(12, 15), maxouts=1, back=False, mkind="", tg=True):
    """funs: component -> list of (kin, body); globs: component -> values"""
    return dict(funs=dict(funs), globs=dict(globs), xs=list(xs), calls=calls, kinds=kinds.split(), maxev=maxev, replay=replay, maxouts=maxouts,
                back=back, mkind=mkind, tg=tg)


WORLDS = {
    # P10: what is executed while the code changes and changes back
    "P10": [
        world({"va.h1": [(0, [c(1)]), (1, [c(2)])], "va.f1": [(0, [call("va.h1"), arg(1)]), (1, [arg(2)])]},
              kinds="edit enter-n reopen"),
        world({"va.f1": [(0, [arg(1)]), (0, [arg(1)]), (1, [arg(3)])], "vb.f3": [(0, [call("va.f1", 1)]), (1, [call("va.f1", 1), c(5)])]},
              xs=(0,), calls=2, kinds="edit enter-n enter-a", maxev=(10, 11), replay=(10, 11), maxouts=2),
        world({"va.h1": [(0, [arg(1)]), (1, [arg(4)])], "va.f1": [(0, [when(1, call("va.h1")), c(3)])]}, kinds="edit dropcall sync"),
    ],
    # P11: the history of the code
    "P11": [
        world({"va.h1": [(0, [c(1)]), (0, [c(1)]), (1, [c(2)])], "va.f1": [(0, [call("va.h1"), arg(1)])]},
              xs=(0,), kinds="edit enter-n dropversion sync reopen"),
        world({"va.f1": [(0, [c(1)]), (0, [c(1)]), (0, [c(1)])]}, xs=(0,), kinds="edit enter-n enter-a reopen sync", maxev=(12, 16), replay=(12, 16)),
        world({"va.f1": [(0, [arg(1)]), (1, [arg(2)])], "vb.f3": [(0, [call("va.f1", 1)])]}, xs=(0,), kinds="edit dropversion dropcall", maxouts=2, calls=2,
              maxev=(10, 12), replay=(10, 12)),
    ],
    # P12: what a call depends on
    "P12": [
        world({"va.h1": [(0, [glob("va.G1")]), (1, [glob("va.G1", how="lambda"), c(1)])],
               "vb.f3": [(0, [when(0, call("va.h1")), when(1, glob("va.G1", "vb"))])]},
              globs={"va.G1": [3, 8]}, kinds="edit"),
        world({"va.f1": [(0, [boom(1), arg(1)]), (1, [boom(0), arg(2)])], "vb.f3": [(0, [tried(call("va.f1"), c(1)), c(2)])]}, kinds="edit", calls=2,
              maxev=(10, 12), replay=(10, 12)),
        world({"va.f1": [(0, [glob("va.G1"), when(0, glob("va.G2"))])], "vb.f3": [(0, [call("va.f1", 1), when(0, glob("va.G2", "vb"))])]},
              globs={"va.G1": [3, 8], "va.G2": [1, 2]}, kinds="assign edit", calls=2, maxev=(8, 9), replay=(8, 9)),
        world({"va.f1": [(0, [glob("va.G1")])], "va.f2": [(0, [noop_("va.f1"), arg(1)]), (1, [call("va.f1"), arg(1)])]},
              globs={"va.G1": [3, 8]}, xs=(1,), calls=2, kinds="edit enter-y-noop", maxev=(10, 12), replay=(10, 12)),
        world({"va.K.m1": [(0, [glob("va.G1"), arg(1)]), (1, [c(7)])], "va.f1": [(0, [call("va.K.m1")])]}, globs={"va.G1": [3, 8]}, xs=(1,), kinds="edit", mkind="static"),
        world({"va.h1": [(0, [c(1)]), (1, [c(2)])], "va.h2": [(0, [ifacc(0, call("va.h1")), c(9)])], "va.f1": [(0, [glob("va.G1"), ifacc(1, call("va.h2")), call("va.h1")])]},
              globs={"va.G1": [3, 4]}, xs=(0,), kinds="edit"),
    ],
}


def program(w):
    """a Program of versions_world with the given components"""
    import versions_world as V

    class Fixed(V.Program):
        def __init__(self):
            self.loose, self.main, self.r, self.w = False, False, random.Random(0), {}
            self.globs = list(w["globs"])
            self.gkind = {g: "int" for g in self.globs}
            self.alias = {"vb." + g.split(".")[1]: g for g in self.globs if g.startswith("va.")}
            self.order = list(w["funs"])
            self.back, self.mkind, self.lazy = w["back"], w["mkind"], set()
            self.deco = {x: "@op" for x in self.order if self.isop(x)}
            self.contents, self.kin, self.text, self.body, self.value = {}, {}, {}, {}, {}
            for g, vals in w["globs"].items():
                for j, v in enumerate(vals):
                    self.new(g, j, value=v)
            for x, bodies in w["funs"].items():
                for j, (kin, body) in enumerate(bodies):
                    self.new(x, kin, body=body, cosmetic=j)
            if self.uses_obj():
                self.new("va.O", 0, value=0)
    return Fixed()


def full(mod, body):
    import versions_world as V
    return V.full(mod, body)


def explore(w, n, show, scratch, timeout):
    p = program(w)
    kin = {}
    for x in p.contents:
        for k in p.contents[x]:
            kin[k] = "%s/%s" % (x, p.kin[k][1])
    ed = {x: ks for x, ks in p.contents.items() if len(ks) > 1}
    path = os.path.join(scratch, "vmc.json")
    with open(path, "w") as f:
        json.dump({"code": [[a, k] for a, k in p.expand({a: ks[0] for a, ks in p.contents.items()}).items()],
                   "body": [[k, full(k.split(".")[0], b)] for k, b in p.body.items()], "value": [[k, v] for k, v in p.value.items()],
                   "ops": [a for a in p.order if p.isop(a)], "tg": w["tg"], "kinds": w["kinds"], "editable": [[a, ks] for a, ks in ed.items()],
                   "kin": [[k, v] for k, v in kin.items()], "alias": [[a, b] for a, b in p.alias.items()], "calls": w["calls"], "xs": w["xs"],
                   "maxouts": w["maxouts"], "maxev": n, "print": show}, f)
    return run_tlc("VersionsMC", "VersionsMC.cfg", scratch, env={"MC_FILE": path}, timeout=timeout, workers="1" if show else "8")


@recording
def perform(a):
    """run one history in a real storage"""
    import versions_world as V
    path, w, seed, scratch = a
    W = V.World(seed, scratch, V.PROFILES["reuse"], program=program(w))
    try:
        W.last = W.NONE
        for e in path:
            W.play(e)
        while W.modes:
            W.play({"ev": "exit"})
    finally:
        W.close()
    return dict(W.trace(), path=path, world=w)


def model_part(run, scratch, quick, thorough):
    import replay
    import versionscheck
    import versions_world  # noqa
    n = thorough if run.thorough else quick
    t = 1 if run.thorough else 0
    for wi, w in enumerate(WORLDS[run.prop]):
        for n_ev, show in ((w["maxev"][t], False), (w["replay"][t], True)):
            if not show and w["maxev"][t] <= w["replay"][t]:
                continue
            r = explore(w, n_ev, show, scratch, 3000 if run.thorough else 400)
            if r.rc != 0:
                raise CheckError("the specification breaks its own laws:\n" + r.out[-3000:])
            run.model(r)
            run.count("model_states", r.distinct)
        bs = replay.behaviours(r)
        run.count("model_behaviours", len(bs))
        rng = random.Random("%s/%d/%d" % (run.prop, wi, SEED))
        pick = bs if len(bs) <= n else rng.sample(bs, n)
        for a in range(0, len(pick), 2000):
            items = [(b, w, "%d_%d" % (wi, a + j), scratch) for j, b in enumerate(pick[a:a + 2000])]
            with ProcessPoolExecutor(8, mp_context=mp.get_context("fork")) as ex:
                traces = list(ex.map(perform, items, chunksize=4))
            run.count("behaviours_performed", len(traces))
            versionscheck.judge(run, *versionscheck.validate(traces, scratch), traces, [i[:3] for i in items])
            if run.violations:
                return
