"""Warm interpreter processes with other hash seeds: each forks a child per request."""
from __future__ import annotations

import atexit
import os
import pickle
import struct
import subprocess
import sys

_live: dict[str, subprocess.Popen] = {}


def _send(f, o):
    b = pickle.dumps(o)
    f.write(struct.pack("<I", len(b))); f.write(b); f.flush()


def _recv(f):
    h = f.read(4)
    if len(h) < 4: return None
    n = struct.unpack("<I", h)[0]
    return pickle.loads(f.read(n))


def run(hashseed, req):
    """req: (argv, kwargs of in_child, perturbation) -> dict with rc, out, err, exc"""
    k = str(hashseed)
    p = _live.get(k)
    if p is None or p.poll() is not None or getattr(p, "owner", None) != os.getpid():
        env = dict(os.environ, PYTHONHASHSEED=k, PYTHONPATH=os.environ.get("VF_REPO", "/repo") + "/src:" + os.path.dirname(os.path.dirname(os.path.abspath(__file__))), PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.Popen([sys.executable, "-m", "vlib.zygote"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd="/")
        p.owner = os.getpid()
        _live[k] = p
        atexit.register(p.kill)
    _send(p.stdin, req)
    r = _recv(p.stdout)
    if r is None: raise RuntimeError("zygote died")
    return r


def perturb(o):
    """in the child: another order of directory listings"""
    import random
    if o.get("listing") is not None:
        rnd = random.Random(o["listing"])
        ls, sc = os.listdir, os.scandir

        def listdir(path="."):
            x = sorted(ls(path)); rnd.shuffle(x)
            return x

        class It:
            def __init__(self, path):
                with sc(path) as it: self.x = sorted(it, key=lambda e: os.fsencode(e.name))
                rnd.shuffle(self.x)
            def __enter__(self): return self
            def __exit__(self, *a): return None
            def close(self): pass
            def __iter__(self): return iter(self.x)
            def __next__(self):
                if not self.x: raise StopIteration
                return self.x.pop(0)
        os.listdir = listdir
        os.scandir = lambda path=".": It(path)
    if o.get("time") is not None:
        import time
        t0 = time.time
        time.time = lambda: t0() + o["time"]


def main():
    from vlib import harness
    inp, out = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
    nul = os.open("/dev/null", os.O_RDWR)
    os.dup2(nul, 0); os.dup2(2, 1)
    harness.preload()
    import logging
    logging.disable(logging.CRITICAL)
    while True:
        req = _recv(inp)
        if req is None: break
        argv, kw, o = req

        def fn():
            if "TZ" in os.environ:
                import time
                time.tzset()
            perturb(o)
            harness._main(argv)()
        r = harness.in_child(fn, **kw)
        _send(out, {"rc": r.rc, "out": r.out, "err": r.err, "exc": r.exc, "timeout": r.timeout})


if __name__ == "__main__":
    main()
