"""Mutation analysis (development aid, not a check): small edits of the code that the existing tests do not notice, each run against the checks.

mutate.py gen OUT.jsonl            all mutants
mutate.py tests IN.jsonl OUT.jsonl [N] [SEED]  a sample of N mutants; keeps those that pass the tests
mutate.py checks IN.jsonl OUT.jsonl    runs the checks against the survivors
"""
import ast
import copy
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

SRC = "/repo/src/auditwheel"
FILES = {  # file -> properties, the likeliest first
    "lddtree.py": "C06 C07 C02 C01 C03 C08 C09 C27",
    "wheel_abi.py": "C01 C02 C04 C03 C08 C21 C14 C18 C30 C27",
    "repair.py": "C09 C15 C16 C10 C19 C17 C21 C13 C20 C14 C12 C30 C18",
    "elfutils.py": "C01 C02 C09 C27 C04",
    "patcher.py": "C23 C09 C15 C14",
    "wheeltools.py": "C11 C12 C29 C24 C17 C10 C14 C26",
    "tools.py": "C24 C17 C10 C18 C11",
    "policy/__init__.py": "C25 C01 C02 C12 C30",
    "main_repair.py": "C14 C18 C12 C26 C09 C30",
    "main_show.py": "C05 C26",
    "main_lddtree.py": "C06",
    "sboms.py": "C22 C17",
    "_vendor/whichprovides/__init__.py": "C22",
    "architecture.py": "C29 C01 C04",
    "libc.py": "C04 C01 C29",
    "hashfile.py": "C16",
    "condatools.py": "", "json.py": "C05", "tmpdirs.py": "C24 C14", "elf.py": "", "options.py": "C07 C05 C26 C18", "error.py": "C04",
    "_platform.py": "C28", "main.py": "C26",
}


def edits(tree, src):
    """(lineno, text of the replaced node, new text)"""
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def span(n): return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n): s, e = span(n); return b[s:e].decode()
    out = []

    def rep(n, new):
        s, e = span(n)
        if b[s:e].decode() != new: out.append((s, e, new, n.lineno))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING":
            for m in ast.walk(n): skip.add(id(m))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and re.match(r"(log|logger|logging)\.", seg(n)):
            for m in ast.walk(n): skip.add(id(m))
        if isinstance(n, (ast.FunctionDef, ast.AnnAssign)):
            for a in ([*n.args.args, *n.args.kwonlyargs] if isinstance(n, ast.FunctionDef) else [n]):
                if getattr(a, "annotation", None):
                    for m in ast.walk(a.annotation): skip.add(id(m))
            if isinstance(n, ast.FunctionDef) and n.returns:
                for m in ast.walk(n.returns): skip.add(id(m))
        if isinstance(n, (ast.Assign,)) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("msg", "__all__"):
            for m in ast.walk(n): skip.add(id(m))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            for m in ast.walk(n): skip.add(id(m))
        if isinstance(n, ast.keyword) and n.arg in ("help", "metavar", "description"):
            for m in ast.walk(n): skip.add(id(m))
    for n in ast.walk(tree):
        if id(n) in skip: continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = seg(n.left), seg(n.comparators[0])
            sw = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
            for o in sw.get(type(n.ops[0]), []): rep(n, f"({l} {o} {r})")
        elif isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                op = " and " if isinstance(n.op, ast.And) else " or "
                rep(n, "(" + op.join(f"({seg(v)})" for v in rest) + ")")
            rep(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join(f"({seg(v)})" for v in n.values) + ")")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): rep(n, f"({seg(n.operand)})")
        elif isinstance(n, (ast.If, ast.While)):
            if isinstance(n, ast.If):
                rep(n.test, "False")
                rep(n.test, "True")
        elif isinstance(n, ast.IfExp):
            rep(n, f"({seg(n.body)})"); rep(n, f"({seg(n.orelse)})")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool): rep(n, str(not n.value))
            elif isinstance(n.value, int): rep(n, str(n.value + 1)); n.value > 0 and rep(n, str(n.value - 1))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call): rep(n, "pass")
        elif isinstance(n, ast.Continue): rep(n, "break"); rep(n, "pass")
        elif isinstance(n, ast.Break): rep(n, "continue"); rep(n, "pass")
        elif isinstance(n, ast.Call):
            f = seg(n.func)
            if f in ("sorted", "set", "frozenset", "list", "dedupe", "reversed", "unique_by_index", "normpath", "str", "tuple") and len(n.args) == 1 and not n.keywords: rep(n, f"({seg(n.args[0])})" if f != "sorted" else f"list({seg(n.args[0])})")
            if isinstance(n.func, ast.Attribute):
                o = seg(n.func.value)
                a = n.func.attr
                args = ", ".join(seg(x) for x in n.args)
                alt = {"startswith": "endswith", "endswith": "startswith", "split": "rsplit", "rsplit": "split", "partition": "rpartition", "rpartition": "partition", "append": None, "add": None, "update": None, "resolve": "absolute", "extend": None, "setdefault": None,
                       "issubset": "issuperset", "is_file": "exists", "exists": "is_file", "match": "search", "search": "match", "fullmatch": "match", "find": "rfind", "strip": "rstrip", "lstrip": "strip", "rstrip": "strip", "copy": "__copy"}.get(a)
                if alt == "__copy" and not n.args: rep(n, o)
                elif alt: rep(n, f"{o}.{alt}({args})")
                if a in ("lower", "strip", "rstrip", "lstrip", "resolve", "absolute") and not n.args: rep(n, o)
            if len(n.args) == 2 and f not in ("isinstance", "getattr", "open", "print") and not n.keywords: rep(n, f"{f}({seg(n.args[1])}, {seg(n.args[0])})")
            for i, k in enumerate(n.keywords):
                if k.arg: rep(n, f"{f}(" + ", ".join([seg(x) for x in n.args] + [f"{q.arg}={seg(q.value)}" if q.arg else "**" + seg(q.value) for j, q in enumerate(n.keywords) if j != i]) + ")")
        elif isinstance(n, (ast.List, ast.Set, ast.Tuple)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load) and 2 <= len(n.elts) <= 12:
            o, c = {"List": "[]", "Set": "{}", "Tuple": "()"}[type(n).__name__]
            for i in {0, len(n.elts) - 1, len(n.elts) // 2}:
                es = [seg(x) for j, x in enumerate(n.elts) if j != i]
                rep(n, o + ", ".join(es) + ("," if len(es) == 1 and o == "(" else "") + c)
        elif isinstance(n, ast.BinOp):
            l, r = seg(n.left), seg(n.right)
            if isinstance(n.op, (ast.Add, ast.Sub, ast.BitOr, ast.BitAnd)): rep(n, f"({l})"); rep(n, f"({r})")
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant): rep(n, "return None")
        elif isinstance(n, ast.Slice):
            if n.lower: rep(n, ":" + (seg(n.upper) if n.upper else ""))
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            for g in n.generators:
                for c in g.ifs: rep(c, "True")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)): rep(n, "pass")
        elif isinstance(n, ast.AugAssign): rep(n, "pass")
        elif isinstance(n, ast.Raise): rep(n, "pass")
        elif isinstance(n, ast.JoinedStr): pass
    return out


def gen(out):
    ms = []
    for f in FILES:
        p = f"{SRC}/{f}"
        if not os.path.exists(p): print("no", f); continue
        src = open(p).read()
        seen = set()
        for s, e, new, line in edits(ast.parse(src), src):
            b = src.encode()
            t = (b[:s] + new.encode() + b[e:]).decode()
            if t in seen: continue
            seen.add(t)
            try: ast.parse(t)
            except SyntaxError: continue
            ms.append({"file": f, "line": line, "old": b[s:e].decode(), "new": new, "s": s, "e": e})
    with open(out, "w") as fh:
        for i, m in enumerate(ms): fh.write(json.dumps({"id": i, **m}) + "\n")
    print(len(ms))


def load(p): return [json.loads(l) for l in open(p)] if os.path.exists(p) else []


def apply(m, R):
    p = f"{R}/src/auditwheel/{m['file']}"
    b = open(f"{SRC}/{m['file']}", "rb").read()
    assert b[m["s"]:m["e"]].decode() == m["old"], m
    open(p, "wb").write(b[:m["s"]] + m["new"].encode() + b[m["e"]:])


def copyrepo(T):
    R = T + "/repo"
    subprocess.run(["cp", "-a", "/repo", R], check=True)
    return R


def tests(inp, out, n, seed):
    ms = load(inp)
    done = {m["id"] for m in load(out)}
    rnd = random.Random(seed)
    rnd.shuffle(ms)
    ms = [m for m in ms[:n] if m["id"] not in done]
    import queue
    pool = queue.Queue()
    T = tempfile.mkdtemp(prefix="mut-")
    W = int(os.environ.get("W", "5"))
    for i in range(W):
        os.mkdir(f"{T}/{i}"); pool.put(copyrepo(f"{T}/{i}"))

    def one(m):
        R = pool.get()
        try:
            apply(m, R)
            env = {**os.environ, "PYTHONPATH": R + "/src", "PATH": "/opt/venv/bin:" + os.environ["PATH"], "PYTHONDONTWRITEBYTECODE": "1"}
            try:
                r = subprocess.run(f"exec /opt/venv/bin/python -m pytest -x -q -p no:cacheprovider --timeout=100 --basetemp={R}/../pt --ignore=tests/integration/test_manylinux.py", shell=True, cwd=R, env=env, capture_output=True, text=True, timeout=200, start_new_session=True)
                ok = r.returncode == 0
            except subprocess.TimeoutExpired: ok = False
            m["survives"] = ok
            shutil.copy(f"{SRC}/{m['file']}", f"{R}/src/auditwheel/{m['file']}")
            return m
        finally: pool.put(R)
    with ThreadPoolExecutor(W) as ex, open(out, "a") as fh:
        for m in ex.map(one, ms):
            fh.write(json.dumps(m) + "\n"); fh.flush()
    shutil.rmtree(T)


def checks(inp, out):
    done = {m["id"] for m in load(out)}
    T = tempfile.mkdtemp(prefix="mut-")
    R = copyrepo(T)
    V = os.environ.get("VCOPY", "/verif")
    while True:
        ms = [m for m in load(inp) if m["survives"] and m["id"] not in done]
        if not ms:
            if os.path.exists(inp + ".done"): break
            import time
            time.sleep(20); continue
        m = ms[0]
        done.add(m["id"])
        apply(m, R)
        m["caught"] = None
        m["runs"] = []
        for p in FILES[m["file"]].split():
            shutil.rmtree(T + "/out", True)
            env = {**os.environ, "VF_REPO": R, "VF_OUT": T + "/out", "VF_SHRINK": "3", "VF_SCALE": os.environ.get("SCALE", "0.6"), "VF_BUDGET": "150", "VERIF_SEED": "1"}
            try: r = subprocess.run(["python3", V + "/run.py", p], env=env, capture_output=True, text=True, timeout=800)
            except subprocess.TimeoutExpired:
                m["runs"].append([p, "timeout"]); continue
            m["runs"].append([p, r.returncode])
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                m["caught"] = p
                m["msg"] = r.stdout[-600:]
                break
            if r.returncode not in (0, 1): m["err"] = (r.stdout + r.stderr)[-500:]
        shutil.copy(f"{SRC}/{m['file']}", f"{R}/src/auditwheel/{m['file']}")
        with open(out, "a") as fh: fh.write(json.dumps(m) + "\n")
    shutil.rmtree(T)


if sys.argv[1] == "gen": gen(sys.argv[2])
elif sys.argv[1] == "tests":
    tests(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 10**9, int(sys.argv[5]) if len(sys.argv) > 5 else 1)
else: checks(sys.argv[2], sys.argv[3])
