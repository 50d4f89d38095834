"""Engine: generated cases in eight shard processes, shrinking, replay files, evidence."""
from __future__ import annotations

import hashlib
import json
import os
import pickle
import random
import re
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
from collections import Counter

VERIF = "/verif"
OUT = os.environ.get("VF_OUT", VERIF)      # where replays and evidence go
SHARDS = 8


class Violation(Exception):
    """The property does not hold for this case. `finding`: id of the known finding it matches, if any."""

    def __init__(self, msg, finding=None):
        super().__init__(msg)
        self.finding = finding


class Skip(Exception):
    """The case is outside the property's domain."""


class StopSearch(BaseException):
    pass


class Leg:
    """One generated check. strategy(tier) -> Hypothesis strategy of JSON-able cases; check(case, ctx)."""

    def __init__(self, name, strategy, check, quick, thorough, rule="", enum=None):
        self.name = name; self.strategy = strategy; self.check = check
        self.quick = quick; self.thorough = thorough; self.rule = rule
        self.enum = enum  # finite domain: callable(tier) -> list of cases, run completely


class Prop:
    def __init__(self, id, legs, rule, technique, level="exploration", level_note="", assumptions=(), setup=None):
        self.id = id; self.legs = legs; self.rule = rule; self.technique = technique
        self.level = level; self.level_note = level_note; self.assumptions = list(assumptions)
        self.setup = setup


class Ctx:
    """What a check gets: a fresh scratch directory, classification counters."""

    def __init__(self, scratch):
        self.base = scratch
        self.n = 0
        self.labels = set()
        self._nontrivial = False
        self.sample = None
        self.dir = None

    def begin(self):
        self.n += 1
        self.labels = set()
        self._nontrivial = False
        self.sample = None
        self.dir = os.path.join(self.base, "c")
        if os.path.lexists(self.dir): rmtree(self.dir)
        os.mkdir(self.dir)
        os.chmod(self.dir, 0o755)

    def end(self):
        rmtree(self.dir)

    def label(self, *ls):
        self.labels.update(ls)

    def nontrivial(self, cond=True):
        if cond: self._nontrivial = True


def rmtree(path):
    def onexc(fn, p, exc):
        try:
            os.chmod(os.path.dirname(p), 0o700)
            if os.path.isdir(p) and not os.path.islink(p): os.chmod(p, 0o700)
            fn(p)
        except OSError:
            pass
    shutil.rmtree(path, onexc=onexc)


# ---------------------------------------------------------------- running the program under test

class Result:
    __slots__ = ("rc", "out", "err", "exc", "timeout", "value")

    def __repr__(self):
        return f"Result(rc={self.rc}, exc={self.exc}, timeout={self.timeout}, out={self.out[-400:]!r}, err={self.err[-1200:]!r})"


BASE_ENV = {
    "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "HOME": "/tmp", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
}


def preload():
    """Import everything the CLI imports so that forked children start warm (imports only)."""
    import auditwheel.main, auditwheel.repair, auditwheel.wheel_abi  # noqa: F401,E401
    import auditwheel.main_show, auditwheel.main_repair, auditwheel.main_lddtree  # noqa: F401,E401
    import elftools.elf.elffile, elftools.elf.dynamic, elftools.elf.gnuversions, elftools.elf.notes  # noqa: F401,E401
    import zipfile, csv, textwrap, zlib, bz2, lzma  # noqa: F401,E401


def in_child(fn, *, cwd, env=None, tmpdir=None, timeout=90, uid=None, umask=0o022, argv0="auditwheel", rlimit_fsize=None, logdir=None):
    """fork; run fn() with its own stdio, cwd, environment; fn's return value becomes .value (pickled)."""
    logdir = logdir or tempfile.mkdtemp(prefix="vfl", dir=os.environ.get("VF_SCRATCH", "/tmp"))
    of, ef, vf = (os.path.join(logdir, x) for x in ("o", "e", "v"))
    fo = os.open(of, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
    fe = os.open(ef, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 250
        try:
            signal.alarm(0)
            for s in (signal.SIGALRM, signal.SIGINT, signal.SIGTERM): signal.signal(s, signal.SIG_DFL)
            os.setpgid(0, 0)
            os.close(r)
            os.set_inheritable(w, False)
            nul = os.open("/dev/null", os.O_RDONLY)
            os.dup2(nul, 0); os.dup2(fo, 1); os.dup2(fe, 2)
            sys.stdin = open(0, closefd=False)
            sys.stdout = open(1, "w", closefd=False, encoding="utf-8", errors="surrogateescape")
            sys.stderr = open(2, "w", closefd=False, encoding="utf-8", errors="backslashreplace", buffering=1)
            e = dict(BASE_ENV)
            e.update(env or {})
            if tmpdir: e["TMPDIR"] = tmpdir
            os.environ.clear()
            os.environ.update({k: v for k, v in e.items() if v is not None})
            tempfile.tempdir = None
            os.umask(umask)
            # what runs away must not take the machine's memory or disk with it
            import resource
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            hard = resource.getrlimit(resource.RLIMIT_AS)[1]
            if hard == resource.RLIM_INFINITY: resource.setrlimit(resource.RLIMIT_AS, (3 << 30, hard))
            resource.setrlimit(resource.RLIMIT_FSIZE, (128 << 20, resource.RLIM_INFINITY))
            if uid is not None:
                os.setgroups([]); os.setresgid(uid, uid, uid); os.setresuid(uid, uid, uid)
            os.chdir(cwd)
            import logging
            root = logging.getLogger()
            for h in list(root.handlers): root.removeHandler(h)
            logging.disable(logging.NOTSET)
            val = None; exc = None; tb = None
            if rlimit_fsize is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (rlimit_fsize, resource.RLIM_INFINITY))
            try:
                val = fn()
                rc = 0
            except SystemExit as x:
                c = x.code
                rc = 0 if c is None else (c if isinstance(c, int) else 1)
                if not (c is None or isinstance(c, int)): print(c, file=sys.stderr)
            except BaseException as x:  # noqa: BLE001
                rc = 1; exc = type(x).__name__
                if rlimit_fsize is not None:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (128 << 20, resource.RLIM_INFINITY))
                tb = traceback.extract_tb(x.__traceback__)
                tb = [(f.filename, f.name) for f in tb]
                traceback.print_exc()
            if rlimit_fsize is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            sys.stdout.flush(); sys.stderr.flush()
            payload = pickle.dumps((rc, exc, tb, val))
            os.write(w, struct.pack("<I", len(payload)))
            mv = memoryview(payload)
            while mv: mv = mv[os.write(w, mv):]
            code = 0
        except BaseException:  # noqa: BLE001
            try:
                os.write(2, traceback.format_exc().encode())
            except Exception:
                pass
        finally:
            os._exit(code)
    os.close(w)
    import select
    buf = b""
    deadline = time.monotonic() + timeout
    timed = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed = True; break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            timed = True; break
        c = os.read(r, 1 << 20)
        if not c: break
        buf += c
        if len(buf) >= 4 and len(buf) >= 4 + struct.unpack("<I", buf[:4])[0]: break
    os.close(r)
    res = Result(); res.timeout = timed; res.value = None; res.exc = None
    if timed:
        try: os.killpg(pid, signal.SIGKILL)
        except OSError: pass
        try: os.kill(pid, signal.SIGKILL)
        except OSError: pass
    _, st = os.waitpid(pid, 0)
    if timed:
        res.rc = None
    elif len(buf) < 4:
        res.rc = 256 if not os.WIFSIGNALED(st) else -os.WTERMSIG(st)
        res.exc = "Died"
    else:
        res.rc, res.exc, tb, res.value = pickle.loads(buf[4:])
    os.lseek(fo, 0, 0); os.lseek(fe, 0, 0)

    def rd(fd):
        n = os.fstat(fd).st_size
        b = b""
        while len(b) < n:
            c = os.read(fd, n - len(b))
            if not c: break
            b += c
        os.close(fd)
        return b.decode("utf-8", "surrogateescape")
    res.out = rd(fo); res.err = rd(fe)
    shutil.rmtree(logdir, ignore_errors=True)
    return res


def _main(argv):
    def run():
        sys.argv = ["auditwheel", *argv]
        from auditwheel.main import main
        rc = main()
        sys.exit(rc)
    return run


def cli(argv, *, cwd, timeout=90, **kw):
    """Run `auditwheel ARGV` in a forked child of this warm process."""
    res = in_child(_main([str(a) for a in argv]), cwd=cwd, timeout=timeout, **kw)
    if res.timeout:
        res = in_child(_main([str(a) for a in argv]), cwd=cwd, timeout=timeout * 2, **kw)
        if res.timeout:
            raise Violation(f"auditwheel {' '.join(map(str, argv))} does not terminate")
    return res


def api(fn, *, cwd="/tmp", timeout=60, **kw):
    """Run a call into the code under test in a child. Exceptions come back as .exc"""
    res = in_child(fn, cwd=cwd, timeout=timeout, **kw)
    if res.timeout:
        res = in_child(fn, cwd=cwd, timeout=timeout * 2, **kw)
        if res.timeout: raise Violation("call does not terminate")
    return res


def from_repo(exc) -> bool:
    """Does the traceback of this exception pass through the code under test?"""
    tb = exc.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if "/src/auditwheel/" in fn or "/scripts/calculate_symbol_versions.py" in fn: return True
        tb = tb.tb_next
    return False


# ---------------------------------------------------------------- engine

def canon(case) -> str:
    return json.dumps(case, sort_keys=True, separators=(",", ":"), ensure_ascii=True)


def digest(case) -> str:
    return hashlib.sha256(canon(case).encode()).hexdigest()[:16]


def _alarm(sig, frm):
    raise TimeoutError("in-process call took too long")


def run_case(leg, case, ctx):
    """Returns None, or a Violation. Harness errors propagate."""
    ctx.begin()
    # checks get their own copy: shrinking must not see mutations
    c = json.loads(canon(case))
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(300)
        try:
            leg.check(c, ctx)
        finally:
            signal.alarm(0)
        return None
    except Skip:
        ctx.label("skipped")
        ctx._nontrivial = False
        return None
    except Violation as v:
        return v
    except TimeoutError as e:
        if from_repo(e): return Violation(f"no answer after 300 s: {e}")
        raise
    except (Exception, RecursionError) as e:
        if from_repo(e):
            tb = traceback.format_exception(type(e), e, e.__traceback__)
            return Violation("unexpected exception of the code under test: " + "".join(tb)[-1500:])
        raise
    finally:
        os.chdir("/")
        ctx.end()


class ShardReport:
    def __init__(self):
        self.evals = 0
        self.nontrivial = set()
        self.distinct = set()
        self.labels = Counter()
        self.samples = []
        self.fail = None     # (leg, case, msg)
        self.fails_seen = 0
        self.findings = {}
        self.error = None
        self.per_leg = Counter()
        self.stopped_early = False


def run_leg_shard(leg, n, seedval, ctx, rep, known, tier, budget_end):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    state = {"fail_since": None, "best": None, "done": 0}
    shrink_cap = float(os.environ.get("VF_SHRINK", "60" if tier == "quick" else "120"))
    hasty = "VF_SHRINK" in os.environ        # (development only) stop everywhere at the first failure
    flag = os.path.join(os.path.dirname(ctx.base), "failed")

    def one(case):
        now = time.monotonic()
        if state["fail_since"] is not None and now - state["fail_since"] > shrink_cap:
            raise StopSearch
        if hasty and state["best"] is None and os.path.exists(flag): raise StopSearch
        if state["fail_since"] is None and now > budget_end:
            rep.stopped_early = True
            raise StopSearch
        if state["fail_since"] is None and leg.enum is None:
            d = leg.name + digest(case)
            if d in rep.distinct: return        # generated again: judged already
            if state["done"] >= n:
                raise StopSearch
        v = run_case(leg, case, ctx)
        if state["fail_since"] is None:
            rep.evals += 1
            state["done"] += 1
            rep.per_leg[leg.name] += 1
            d = leg.name + digest(case)
            rep.distinct.add(d)
            for l in ctx.labels: rep.labels[l] += 1
            if ctx._nontrivial:
                if d not in rep.nontrivial and len(rep.samples) < 3:
                    rep.samples.append({"leg": leg.name, "case": ctx.sample if ctx.sample is not None else case})
                rep.nontrivial.add(d)
        if v is not None:
            if v.finding and v.finding in known:
                rep.findings.setdefault(v.finding, []).append(digest(case))
                rep.labels["known:" + v.finding] += 1
                return
            size = len(canon(case))
            if state["best"] is None or size <= state["best"][0]:
                state["best"] = (size, case, str(v))
            if state["fail_since"] is None:
                state["fail_since"] = time.monotonic()
                if hasty: open(flag, "w").close()
            rep.fails_seen += 1
            raise v

    if leg.enum is not None:
        for case in n:
            try:
                one(case)
            except Violation:
                break
            except StopSearch:
                break
    else:
        phases = (Phase.generate, Phase.shrink)
        # Hypothesis starts with some fifty prefixes per run extended by the simplest values; a last draw whose
        # simplest value is rejected makes it give up on those after five of them.
        from hypothesis import reject, strategies as hst
        from .worlds import weighted

        def guarded(pair):
            if not pair[1]: reject()
            one(pair[0])
        t = given(hst.tuples(leg.strategy(tier), weighted(98)))(guarded)
        t = settings(max_examples=n * 6 + 20, database=None, deadline=None, phases=phases, derandomize=False,
                     suppress_health_check=list(HealthCheck), report_multiple_bugs=False, print_blob=False)(t)
        t = hypothesis.seed(seedval)(t)
        try:
            t()
        except StopSearch:
            pass
        except Violation:
            pass
        except hypothesis.errors.Flaky:
            if state["best"] is None: raise
        except hypothesis.errors.HypothesisException:
            if state["best"] is None: raise
    if state["best"] is not None:
        rep.fail = (leg.name, state["best"][1], state["best"][2])
        return True
    return False


def shard_main(prop, shard, plan, seed, tier, scratch, known, out, budget):
    rep = ShardReport()
    try:
        os.environ["VF_SCRATCH"] = scratch
        tempfile.tempdir = scratch
        preload()
        import logging
        logging.disable(logging.CRITICAL)
        import hypothesis
        hypothesis.configuration.set_hypothesis_home_dir(os.path.join(scratch, "hyp"))
        ctx = Ctx(scratch)
        end = time.monotonic() + budget
        for leg in prop.legs:
            n = plan[leg.name]
            if not n: continue
            sv = int.from_bytes(hashlib.sha256(f"{prop.id}/{leg.name}/{seed}/{shard}".encode()).digest()[:6], "big")
            if run_leg_shard(leg, n, sv, ctx, rep, known, tier, end): break
    except BaseException:  # noqa: BLE001
        rep.error = traceback.format_exc()
    with open(out, "wb") as f:
        pickle.dump(rep, f)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    with open(p) as f: return json.load(f)["findings"]


def corpus_cases(prop):
    d = os.path.join(VERIF, "corpus", prop.id)
    out = []
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if f.endswith(".json"):
                with open(os.path.join(d, f)) as fh: j = json.load(fh)
                out.append((j["leg"], j["case"]))
    return out


def write_replay(prop, leg, case, msg):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop.id}-{leg}-{digest(case)}.json")
    with open(p, "w") as f:
        json.dump({"property": prop.id, "leg": leg, "case": case, "message": msg}, f, indent=1)
    return p


def main(prop, argv):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    scale = float(os.environ.get("VF_SCALE", "1"))
    only = os.environ.get("VF_LEG")
    scratch = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    os.chmod(scratch, 0o755)
    os.environ["VF_SCRATCH"] = scratch
    legs = {l.name: l for l in prop.legs}
    kf = [k for k in load_known() if k["property"] == prop.id]
    known = {k["id"] for k in kf if k["status"] == "known"}
    try:
        return _main_inner(prop, argv, t0, seed, tier, scale, only, scratch, legs, kf, known)
    finally:
        rmtree(scratch)


def confirm(prop, legs, legname, case, scratch, known, times=2):
    """Re-run a case in a fresh process; returns the message or None."""
    def fn():
        preload()
        import logging
        logging.disable(logging.CRITICAL)
        ctx = Ctx(os.path.join(scratch, "confirm"))
        os.makedirs(ctx.base, exist_ok=True)
        os.chmod(ctx.base, 0o755)
        os.environ["VF_SCRATCH"] = scratch
        tempfile.tempdir = scratch
        v = run_case(legs[legname], case, ctx)
        return None if v is None else (str(v), v.finding)
    res = in_child(fn, cwd="/", timeout=900, env={k: os.environ.get(k) for k in ("VF_REPO", "VF_OUT")} | {"VF_SCRATCH": scratch})
    if res.exc or res.timeout or res.rc != 0:
        raise RuntimeError(f"harness error while running a case: {res!r}\n{res.err}")
    return res.value


def _main_inner(prop, argv, t0, seed, tier, scale, only, scratch, legs, kf, known):
    if argv[:1] == ["--replay"]:
        with open(argv[1]) as f: j = json.load(f)
        r = confirm(prop, legs, j["leg"], j["case"], scratch, known)
        if r is None:
            print(f"replay of {argv[1]}: the property holds")
            return 0
        print(r[0])
        if r[1] and r[1] in known:
            print(f"KNOWN-FINDING: property={prop.id} {r[1]}")
            return 0
        print(f"VIOLATION property={prop.id} replay={argv[1]}")
        return 1

    # 1. known findings and the regression corpus, exactly
    replayed = 0
    finding_lines = []
    for k in kf:
        if k["status"] != "known": continue
        r = confirm(prop, legs, k["leg"], k["case"], scratch, known)
        replayed += 1
        if r is None:
            continue      # repaired meanwhile: nothing to report
        if r[1] == k["id"]:
            finding_lines.append(f"KNOWN-FINDING: property={prop.id} {k['id']}: {k['what']}")
        else:
            p = write_replay(prop, k["leg"], k["case"], r[0])
            print(r[0]); print(f"VIOLATION property={prop.id} replay={p}")
            return 1
    for legname, case in corpus_cases(prop):
        if legname not in legs: continue
        r = confirm(prop, legs, legname, case, scratch, known)
        replayed += 1
        if r is not None and not (r[1] and r[1] in known):
            p = write_replay(prop, legname, case, r[0])
            print(r[0]); print(f"VIOLATION property={prop.id} replay={p}")
            return 1
    if prop.setup: prop.setup()

    # 2. generated search
    budget = float(os.environ.get("VF_BUDGET", "420" if tier == "quick" else "3000"))
    plans = [dict() for _ in range(SHARDS)]
    for leg in prop.legs:
        if only and leg.name != only:
            for p in plans: p[leg.name] = 0
            continue
        if leg.enum is not None:
            cases = leg.enum(tier)
            for i in range(SHARDS): plans[i][leg.name] = cases[i::SHARDS]
        else:
            n = int((leg.quick if tier == "quick" else leg.thorough) * scale)
            for i in range(SHARDS): plans[i][leg.name] = n // SHARDS + (1 if i < n % SHARDS else 0)
    pids = {}
    for i in range(SHARDS):
        sd = os.path.join(scratch, f"s{i}")
        os.mkdir(sd); os.chmod(sd, 0o755)
        pid = os.fork()
        if pid == 0:
            try:
                shard_main(prop, i, plans[i], seed, tier, sd, known, os.path.join(scratch, f"r{i}"), budget)
            finally:
                sys.stdout.flush(); os._exit(0)
        pids[pid] = i
    while pids:
        pid, _ = os.wait()
        pids.pop(pid, None)
    tot = ShardReport()
    errors = []
    fails = []
    for i in range(SHARDS):
        try:
            with open(os.path.join(scratch, f"r{i}"), "rb") as f: rep = pickle.load(f)
        except Exception as e:
            errors.append(f"shard {i} left no report: {e}"); continue
        tot.evals += rep.evals; tot.nontrivial |= rep.nontrivial; tot.distinct |= rep.distinct
        tot.labels += rep.labels; tot.per_leg += rep.per_leg
        tot.samples += rep.samples[:2]; tot.stopped_early |= rep.stopped_early
        for k, v in rep.findings.items(): tot.findings.setdefault(k, []).extend(v)
        if rep.error: errors.append(rep.error)
        if rep.fail: fails.append(rep.fail)
    violations = 0
    confirmed = None
    for legname, case, msg in sorted(fails, key=lambda f: len(canon(f[1]))):
        for _ in range(2):
            r = confirm(prop, legs, legname, case, scratch, known)
            if r is not None and not (r[1] and r[1] in known):
                confirmed = (legname, case, r[0]); break
        if confirmed: break
    if confirmed: violations = 1
    ev = {
        "property": prop.id, "tier": tier, "seed": seed, "level": prop.level,
        "coverage": {
            "evaluations": tot.evals, "distinct_nontrivial": len(tot.nontrivial), "rule": prop.rule,
            "samples": [_trim(s) for s in tot.samples[:5]],
            "distinct": len(tot.distinct), "per_leg": dict(sorted(tot.per_leg.items())),
            "classes": dict(sorted(tot.labels.items())), "replayed_fixed_cases": replayed,
            "known_finding_hits": {k: len(v) for k, v in tot.findings.items()},
            "stopped_by_time_budget": tot.stopped_early,
            "shards": SHARDS,
        },
        "assumptions": prop.assumptions, "wall_s": round(time.monotonic() - t0, 2), "violations": violations,
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    tmp = os.path.join(OUT, "evidence", f".{prop.id}.tmp")
    with open(tmp, "w") as f: json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(OUT, "evidence", f"{prop.id}.json"))
    print(f"{prop.id}: {tot.evals} cases, {len(tot.nontrivial)} distinct non-trivial, {ev['wall_s']} s"
          + (" (stopped by the time budget)" if tot.stopped_early else ""))
    if os.environ.get("VF_VERBOSE"):
        for k, v in sorted(tot.labels.items()): print(f"   {k}: {v}")
        print("  ", dict(tot.per_leg))
    for l in finding_lines: print(l)
    if confirmed:
        p = write_replay(prop, *confirmed)
        print(confirmed[2])
        print(f"VIOLATION property={prop.id} replay={p}")
        return 1
    if errors:
        print("HARNESS ERROR\n" + "\n".join(errors[:2]), file=sys.stderr)
        return 2
    if fails:
        print("HARNESS ERROR: failing case did not reproduce: " + fails[0][2] + "\n" + canon(fails[0][1])[:3000], file=sys.stderr)
        return 2
    return 0


def _trim(s, limit=4000):
    t = canon(s)
    return s if len(t) <= limit else {"leg": s.get("leg"), "case_json_prefix": t[:limit]}
