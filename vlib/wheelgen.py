"""Materialises a world case: a wheel file, library directories, search paths; and reads wheels back."""
from __future__ import annotations

import base64
import csv
import hashlib
import io
import json
import os
import random
import stat
import zipfile

from . import elfgen

_cache: dict[str, bytes] = {}


def real_spec(spec, X):
    """virtual /X/... in search paths -> real directories"""
    out = spec
    for k in ("rpath", "runpath"):
        if spec.get(k):
            if out is spec: out = dict(spec)
            out[k] = ":".join(X + e[2:] if e == "/X" or e.startswith("/X/") else e for e in spec[k].split(":"))
    if spec.get("interp", "").startswith("/X/"):
        if out is spec: out = dict(spec)
        out["interp"] = X + spec["interp"][2:]
    return out


def elf_bytes(spec, X=""):
    s = real_spec(spec, X)
    k = json.dumps(s, sort_keys=True)
    b = _cache.get(k)
    if b is None:
        if len(_cache) > 3000: _cache.clear()
        b = elfgen.build(s)
        if s.get("tail"): b += b"\0" * s["tail"][0] + bytes([s["tail"][1] % 256])
        _cache[k] = b
    return b


def node_bytes(n, X=""):
    if "elf" in n: return elf_bytes(n["elf"], X)
    if "rnd" in n: return random.Random(n["rnd"][0]).randbytes(n["rnd"][1])
    if "hex" in n: return bytes.fromhex(n["hex"])
    return n["data"].encode("utf-8", "surrogateescape")


def sha(b):
    return "sha256=" + base64.urlsafe_b64encode(hashlib.sha256(b).digest()).rstrip(b"=").decode()


def dist_name(case):
    return f"{case.get('name', 'foo')}-{case.get('ver', '1.0')}"


def wheel_name(case):
    parts = [case.get("name", "foo"), case.get("ver", "1.0")]
    if case.get("build"): parts.append(case["build"])
    parts += [case.get("py", "cp312"), case.get("abi", "cp312"), ".".join(case["plats"])]
    return "-".join(parts) + ".whl"


def wheel_tags(case):
    return [f"{p}-{a}-{t}" for p in case.get("py", "cp312").split(".") for a in case.get("abi", "cp312").split(".") for t in case["plats"]]


def wheel_text(case):
    h = case.get("whl") or {}
    lines = ["Wheel-Version: 1.0", f"Generator: {h.get('generator', 'vf (1.0)')}",
             f"Root-Is-Purelib: {h.get('purelib', 'true' if set(case['plats']) == {'any'} else 'false')}"]
    tags = [f"Tag: {t}" for t in (h.get("tags") or wheel_tags(case))]
    if case.get("build"): lines.append(f"Build: {case['build']}")
    lines += [f"{k}: {v}" for k, v in h.get("extra", [])]
    if h.get("tags_first"): lines = lines[:1] + tags + lines[1:]
    else: lines += tags
    return "\n".join(lines) + "\n"


def contents(case, X=""):
    """[(path, bytes, mode)] of the wheel without RECORD, in RECORD order"""
    di = dist_name(case) + ".dist-info"
    out = [(m["p"], node_bytes(m, X), m.get("mode", 0o644)) for m in case["members"]]
    have = {p for p, _, _ in out}
    for p, b in ((di + "/METADATA", f"Metadata-Version: 2.1\nName: {case.get('name', 'foo')}\nVersion: {case.get('ver', '1.0')}\n".encode()),
                 (di + "/WHEEL", wheel_text(case).encode())):
        if p not in have: out.append((p, b, 0o644))
    return out


def record_text(files, di, crlf=False):
    s = io.StringIO()
    w = csv.writer(s, lineterminator="\r\n" if crlf else "\n")
    for p, b, _ in files: w.writerow((p, sha(b), str(len(b))))
    w.writerow((di + "/RECORD", "", ""))
    return s.getvalue()


def write_wheel(case, path, X=""):
    z = case.get("zip") or {}
    files = contents(case, X)
    di = dist_name(case) + ".dist-info"
    rec = record_text(files, di, z.get("crlf", False)).encode()
    arch = files + [(di + "/RECORD", rec, 0o644)]
    order = z.get("order")
    if order: arch = [arch[i % len(arch)] for i in order] if False else sorted(arch, key=lambda f: hashlib.md5((str(order) + f[0]).encode()).digest())
    comp = z.get("comp", 8)
    date = tuple(z.get("date", (2020, 2, 2, 2, 2, 2)))
    seen = set()
    with zipfile.ZipFile(path, "w", comp) as zf:
        for p, b, mode in arch:
            if z.get("dirs"):
                parts = p.split("/")[:-1]
                for i in range(1, len(parts) + 1):
                    d = "/".join(parts[:i]) + "/"
                    if d not in seen:
                        seen.add(d)
                        zi = zipfile.ZipInfo(d, date)
                        zi.external_attr = (stat.S_IFDIR | 0o755) << 16 | 0x10
                        zf.writestr(zi, b"")
            zi = zipfile.ZipInfo(p, date)
            zi.compress_type = comp
            zi.create_system = z.get("sys", 3)
            zi.external_attr = 0 if mode is None else (stat.S_IFREG | mode) << 16
            zf.writestr(zi, b, compress_type=comp, compresslevel=1 if comp == 8 else None)
            if mode is None: zi.external_attr = 0       # zipfile replaced it


class Mat:
    """A materialised world. self.X: library root, self.wheel: path"""

    def __init__(self, case, root, wheel_dir="in", libs=True):
        self.case = case
        self.root = root
        self.X = os.path.join(root, "X")
        os.makedirs(os.path.join(root, wheel_dir), exist_ok=True)
        for d in ("cwd", "tmp", "out", "X"): os.makedirs(os.path.join(root, d), exist_ok=True)
        self.cwd = os.path.join(root, "cwd"); self.tmp = os.path.join(root, "tmp"); self.out = os.path.join(root, "out")
        self.wheel = os.path.join(root, wheel_dir, wheel_name(case))
        write_wheel(case, self.wheel, self.X)
        if libs: self.write_libs()

    def write_libs(self):
        for d, files in (self.case.get("dirs") or {}).items():
            dd = os.path.join(self.X, d)
            os.makedirs(dd, exist_ok=True)
            for n, f in files.items():
                p = os.path.join(dd, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if "link" in f:
                    t = f["link"]
                    os.symlink(self.X + t[2:] if t.startswith("/X/") else t, p)
                else:
                    with open(p, "wb") as fh: fh.write(node_bytes(f, self.X))
                    os.chmod(p, f.get("mode", 0o755))

    def env(self, extra=None):
        e = {}
        ep = [self.X + p[2:] if p.startswith("/X") else p for p in self.case.get("env_paths") or []]
        if ep: e["AUDITWHEEL_LD_LIBRARY_PATH"] = ":".join(ep)
        e.update(extra or {})
        return e

    def ldargs(self):
        return ["--ldpaths", ":".join(self.X + p[2:] if p.startswith("/X") else p for p in self.case.get("ld_paths") or [])]

    def real(self, v):
        """virtual library path -> real path"""
        return self.X + v[2:] if v is not None and v.startswith("/X/") else v

    def virt(self, r):
        return "/X" + r[len(self.X):] if r is not None and r.startswith(self.X + "/") else r


class Whl:
    """A wheel file read independently of the code under test."""

    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)
        with zipfile.ZipFile(path) as z:
            self.infos = z.infolist()
            self.bad = z.testzip()
            self.data = {i.filename: z.read(i) for i in self.infos if not i.is_dir()}
        self.names = [i.filename for i in self.infos]
        self.mode = {i.filename: (i.external_attr >> 16) for i in self.infos}
        self.files = [i.filename for i in self.infos if not i.is_dir()]
        self.di = next((n.split("/")[0] for n in self.names if n.split("/")[0].endswith(".dist-info")), None)

    def record_rows(self):
        return list(csv.reader(io.StringIO(self.data[self.di + "/RECORD"].decode("utf-8"), newline="")))

    def wheel_headers(self):
        out = []
        for l in self.data[self.di + "/WHEEL"].decode().splitlines():
            if l.strip():
                k, _, v = l.partition(":")
                out.append((k.strip(), v.strip()))
        return out

    def elves(self):
        from .elfread import Elf
        out = {}
        for n in self.files:
            if self.data[n][:4] == b"\x7fELF": out[n] = Elf(self.data[n])
        return out


def tree_state(*roots):
    """{path: (kind, mode, mtime_ns?, content hash / link)} of everything below the roots"""
    out = {}
    for root in roots:
        for d, ds, fs in os.walk(root):
            out[d] = ("d", stat.S_IMODE(os.lstat(d).st_mode))
            for f in fs + [x for x in ds if os.path.islink(os.path.join(d, x))]:
                p = os.path.join(d, f)
                st = os.lstat(p)
                if stat.S_ISLNK(st.st_mode): out[p] = ("l", os.readlink(p))
                elif stat.S_ISREG(st.st_mode):
                    with open(p, "rb") as fh: h = hashlib.sha256(fh.read()).hexdigest()
                    out[p] = ("f", stat.S_IMODE(st.st_mode), h)
                else: out[p] = ("o", st.st_mode)
    return out
