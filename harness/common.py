"""Shared machinery: importing the code under test, running TLC, verdicts and evidence."""
import functools
import json
import logging
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


def quiet():
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.filterwarnings("ignore")
    os.environ["TQDM_DISABLE"] = "1"


class CheckError(Exception):
    """The machinery itself could not give an answer."""


class Broken(Exception):
    """The code under test raised where the machinery only prepares what it observes."""
    def __init__(self, text, module="", fn="", item=None):
        super().__init__(text, module, fn, item)
        self.text, self.module, self.fn, self.item = text, module, fn, item


def blamed(e):
    """did the code under test (or a library it called) raise this, rather than the harness or a program of the harness?"""
    if isinstance(e, (CheckError, Broken, OSError, MemoryError)) or "disk" in str(e):
        return False
    libs = tuple({os.path.dirname(os.__file__), os.path.realpath(os.path.dirname(os.__file__)), "/opt/venv/", "<frozen"})
    own = os.path.join(REPO, "mandala") + os.sep
    last = ""
    for f, _ in traceback.walk_tb(e.__traceback__):
        name = f.f_code.co_filename
        if not name.startswith(libs):
            last = name
    return last.startswith(own)


def recording(fn):
    """for functions (..., scratch) -> trace: an exception of the code under test is an answer"""
    @functools.wraps(fn)
    def inner(a):
        try:
            return fn(a)
        except Exception as e:
            if not blamed(e):
                raise
            raise Broken(traceback.format_exc(), fn.__module__, fn.__name__, a[:-1]) from None
    return inner


class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0

    def evalerror(self):
        m = re.search(r"Error: (.*(?:\n.*){0,12})", self.out)
        return m.group(0) if m and self.rc not in (-1, 1) and "Parsing" not in self.out[:0] else ""

    def lines(self, tag):
        res = []
        for line in self.out.splitlines():
            line = line.strip()
            if line.startswith('"' + tag):
                # PrintT prints a TLA+ string: unescape it
                body = line[1:-1] if line.endswith('"') else line[1:]
                body = body.replace('\\"', '"').replace("\\\\", "\\")
                res.append(body[len(tag):].strip())
        return res


def run_tlc(module, cfg, workdir, env=None, timeout=800, workers="8", extra=(), heap="6g"):
    """Run TLC on spec/<module>.tla with the given cfg; scratch files go to workdir."""
    meta = tempfile.mkdtemp(dir=workdir, prefix="tlc_")
    e = dict(os.environ)
    if env:
        e.update(env)
    cp = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, "-cp", cp, "tlc2.TLC",
           "-config", os.path.join(SPEC, cfg), "-metadir", meta, "-workers", str(workers),
           "-noGenerateSpecTE", "-lncheck", "final", *extra, os.path.join(SPEC, module + ".tla")]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        out, rc = p.stdout.decode(errors="replace"), p.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = (ex.stdout or b"").decode(errors="replace"), -1
    shutil.rmtree(meta, ignore_errors=True)
    return TLCResult(rc, out, time.time() - t)


class Scratch:
    """A scratch directory that is removed whatever happens."""
    def __init__(self, name="verif"):
        self.name = name

    def __enter__(self):
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        self.path = tempfile.mkdtemp(prefix=f"{self.name}_", dir=base)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)
