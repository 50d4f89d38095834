"""Independent ELF reader: what the dynamic loader sees (through PT_DYNAMIC), plus section names."""
from __future__ import annotations

import hashlib
import struct


class NotElf(Exception):
    pass


class Elf:
    def __init__(self, b: bytes):
        if len(b) < 52 or b[:4] != b"\x7fELF" or b[4] not in (1, 2) or b[5] not in (1, 2):
            raise NotElf
        self.b = b
        self.is64 = b[4] == 2
        self.le = b[5] == 1
        self.osabi = b[7]
        E = self.E = "<" if self.le else ">"
        if self.is64:
            (self.type, self.machine, _, self.entry, self.phoff, self.shoff, self.flags, _, self.phes, self.phn, self.shes, self.shn, self.shstr) = struct.unpack_from(E + "HHIQQQIHHHHHH", b, 16)
        else:
            (self.type, self.machine, _, self.entry, self.phoff, self.shoff, self.flags, _, self.phes, self.phn, self.shes, self.shn, self.shstr) = struct.unpack_from(E + "HHIIIIIHHHHHH", b, 16)
        self.ph = []
        for i in range(self.phn):
            o = self.phoff + i * self.phes
            if self.is64:
                t, fl, off, va, pa, fs, ms, al = struct.unpack_from(E + "IIQQQQQQ", b, o)
            else:
                t, off, va, pa, fs, ms, fl, al = struct.unpack_from(E + "IIIIIIII", b, o)
            self.ph.append((t, fl, off, va, fs, ms, al))
        self.sh = []
        for i in range(self.shn):
            o = self.shoff + i * self.shes
            if self.is64:
                self.sh.append(struct.unpack_from(E + "IIQQQQIIQQ", b, o))
            else:
                self.sh.append(struct.unpack_from(E + "IIIIIIIIII", b, o))
        self.needed = []; self.soname = None; self.rpath = None; self.runpath = None
        self.dyn = []
        self.interp = None
        for t, fl, off, va, fs, ms, al in self.ph:
            if t == 3:
                self.interp = b[off:off + fs].rstrip(b"\0").decode("utf-8", "surrogateescape")
        self._dynamic()

    def off(self, va):
        for t, fl, off, a, fs, ms, al in self.ph:
            if t == 1 and a <= va < a + fs:
                return off + va - a
        raise ValueError(f"address {va:#x} not mapped")

    def cstr(self, o):
        e = self.b.index(b"\0", o)
        return self.b[o:e].decode("utf-8", "surrogateescape")

    def _dynamic(self):
        seg = [p for p in self.ph if p[0] == 2]
        self.has_dynamic = bool(seg)
        if not seg:
            return
        _, _, off, _, fs, _, _ = seg[0]
        fmt = self.E + ("QQ" if self.is64 else "II")
        sz = struct.calcsize(fmt)
        for o in range(off, off + fs, sz):
            t, v = struct.unpack_from(fmt, self.b, o)
            if t == 0:
                break
            self.dyn.append((t, v))
        d = dict(self.dyn)
        if 5 not in d:
            return
        st = self.off(d[5])
        self.st = st
        for t, v in self.dyn:
            if t == 1: self.needed.append(self.cstr(st + v))
            elif t == 14: self.soname = self.cstr(st + v)
            elif t == 15: self.rpath = self.cstr(st + v)
            elif t == 29: self.runpath = self.cstr(st + v)

    def dynsyms(self):
        """[(name, info, defined, size, version or None)] in table order"""
        d = dict(self.dyn)
        if 6 not in d or 4 not in d:
            return []
        h = self.off(d[4]); wide = self.is64 and self.machine in (22, 0x9026)
        _, n = struct.unpack_from(self.E + ("QQ" if wide else "II"), self.b, h)
        o = self.off(d[6])
        vern = self.versions()
        vo = self.off(d[0x6FFFFFF0]) if 0x6FFFFFF0 in d else None
        out = []
        for i in range(1, n):
            if self.is64:
                nm, info, oth, nd, val, sz = struct.unpack_from(self.E + "IBBHQQ", self.b, o + 24 * i)
            else:
                nm, val, sz, info, oth, nd = struct.unpack_from(self.E + "IIIBBH", self.b, o + 16 * i)
            v = None
            if vo is not None:
                v = vern.get(struct.unpack_from(self.E + "H", self.b, vo + 2 * i)[0] & 0x7FFF)
            out.append((self.cstr(self.st + nm), info, nd != 0, sz, v))
        return out

    def verneed(self):
        """{lib: [versions]}"""
        d = dict(self.dyn)
        out = {}
        if 0x6FFFFFFE not in d:
            return out
        o = self.off(d[0x6FFFFFFE])
        for _ in range(d.get(0x6FFFFFFF, 0)):
            _, cnt, fo, ao, nx = struct.unpack_from(self.E + "HHIII", self.b, o)
            lib = self.cstr(self.st + fo)
            a = o + ao
            for _ in range(cnt):
                _, _, oth, nm, an = struct.unpack_from(self.E + "IHHII", self.b, a)
                out.setdefault(lib, []).append((self.cstr(self.st + nm), oth))
                a += an
            o += nx
            if not nx:
                break
        return out

    def verdef(self):
        d = dict(self.dyn)
        out = []
        if 0x6FFFFFFC not in d:
            return out
        o = self.off(d[0x6FFFFFFC])
        for _ in range(d.get(0x6FFFFFFD, 0)):
            _, fl, ix, cnt, _, ao, nx = struct.unpack_from(self.E + "HHHHIII", self.b, o)
            nm, _ = struct.unpack_from(self.E + "II", self.b, o + ao)
            out.append((self.cstr(self.st + nm), ix, fl))
            o += nx
            if not nx:
                break
        return out

    def versions(self):
        m = {}
        for lib, vs in self.verneed().items():
            for v, ix in vs: m[ix] = ("need", lib, v)
        for v, ix, fl in self.verdef():
            if not fl & 1: m[ix] = ("def", v)
        return m

    def sections(self):
        if not self.sh:
            return {}
        so = self.sh[self.shstr][4]
        return {self.cstr(so + s[0]): s for s in self.sh[1:]}

    def section_bytes(self, name):
        s = self.sections().get(name)
        return None if s is None else self.b[s[4]:s[4] + s[5]]


def read(path) -> Elf:
    with open(path, "rb") as f:
        return Elf(f.read())


def is_elf(b: bytes) -> bool:
    return b[:4] == b"\x7fELF"


def sha(b: bytes) -> str:
    return hashlib.sha256(b).hexdigest()
