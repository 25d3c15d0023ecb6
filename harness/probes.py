"""Each recorded finding has a probe that shows whether it still fails on the code as it is."""
from common import *

quiet()
import copy
import numpy as np
from typing import Any
from mandala.imports import *
from mandala.model import ValuePointer


def value_pointer_named_like_a_string():
    """a ValuePointer and the plain string that is its name are taken for the same argument"""
    ran = []

    @op
    def probe_vp(a):
        ran.append(1)
        return [repr(a)]
    S = Storage()
    with S:
        probe_vp("name")
        r = probe_vp(ValuePointer("name", 12345))
    return len(ran) == 1 and S.unwrap(r) == ["'name'"]


def dict_with_key_dict():
    """the item under key "dict" of a constructed dict is not among the recorded inputs of its construction"""
    @op
    def probe_dict(d: MDict[str, Any]) -> int:
        return len(d)
    S = Storage()
    with S:
        r = probe_dict({"dict": 1, "other": 2})
    d = S.get_ref_creator(r).inputs["d"]
    made = S.get_ref_creator(d)
    return made is None or set(made.inputs) != {"dict", "other"}


def content_depends_on_layout():
    """equal arrays with another memory layout, or equal values that share parts differently, are not the same content"""
    ran = []

    @op
    def probe_layout(a):
        ran.append(1)
        return 0
    S = Storage()
    t, u = (1, "x"), copy.deepcopy(((1, "x"),))[0]
    with S:
        probe_layout(np.arange(6)[::2])
        probe_layout(np.array([0, 2, 4]))
        one = len(ran)
        s = ["shared", 1]
        probe_layout([s, s])
        probe_layout([s, list(s)])
    return one == 2 or len(ran) - one == 2


def overlapping_contexts_lose_versions():
    """of two versioned sessions whose contexts overlap, the last to commit discards the code versions of the other"""
    import importlib
    import types
    log = types.ModuleType("probe_log")
    log.ran = []
    one = "@op\ndef %s(x):\n    probe_log.ran.append('%s')\n    return x + 1\n"
    with Scratch("probe") as d:
        root = os.path.join(d, "code")
        os.mkdir(root)
        with open(os.path.join(root, "probe_overlap_mod.py"), "w") as f:
            f.write("import probe_log\nfrom mandala.imports import op\n" + one % ("probe_left", "left") + one % ("probe_right", "right"))
        sys.path.insert(0, root)
        sys.modules["probe_log"] = log
        try:
            m = importlib.import_module("probe_overlap_mod")
            A, B = (Storage(os.path.join(d, "x.db"), deps_path=root) for _ in range(2))
            with A:
                m.probe_left(1)
                with B:
                    m.probe_right(1)
            with Storage(os.path.join(d, "x.db"), deps_path=root):
                m.probe_right(1)
            return log.ran == ["left", "right", "right"]
        finally:
            sys.path.remove(root)
            sys.modules.pop("probe_overlap_mod", None)
            sys.modules.pop("probe_log", None)
