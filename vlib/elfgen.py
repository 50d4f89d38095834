"""ELF writer: turns a JSON spec into the bytes of a shared library or executable.

spec keys (all optional):
  machine   preset name (x86_64 i686 aarch64 armv7l ppc64 ppc64le s390x riscv64 loongarch64 mips ...)
  cls,le,em,flags,osabi   overrides of the header fields of the preset
  type      "dyn" | "exec"
  interp    program interpreter
  needed    [soname]          soname str    rpath str   runpath str
  undef     [{n, t, b, v}]    undefined symbols (v = [lib, version])
  defs      [{n, t, ret | call+add, ver}]   defined symbols
  verneed   {lib: [version]}  versions needed without a symbol
  verdef    [version]         versions defined
  isa       int               x86 ISA_1_NEEDED property
  symtab    bool              static symbol table
  debug     int               size of the debug sections
  main      {call: sym}|{ret: n}   program entry
  static    bool              no dynamic section at all
  seed      int               content of .data/.rodata
"""
from __future__ import annotations

import hashlib
import struct

EM = {
    "x86_64": (62, 64, True, 0), "i686": (3, 32, True, 0), "aarch64": (183, 64, True, 0),
    "armv7l": (40, 32, True, 0x05000400), "ppc64": (21, 64, False, 1), "ppc64le": (21, 64, True, 2),
    "s390x": (22, 64, False, 0), "riscv64": (243, 64, True, 5), "loongarch64": (258, 64, True, 0x43),
    # not supported by the tool under test
    "armsf": (40, 32, True, 0x05000200), "armnf": (40, 32, True, 0x05000000), "armeabi4": (40, 32, True, 0x04000400), "mips": (8, 32, False, 0x1000),
    "x32": (62, 32, True, 0), "sparcv9": (43, 64, False, 0), "riscv32": (243, 32, True, 4), "aarch64be": (183, 64, False, 0),
    "ilp32": (183, 32, True, 0), "ppc32": (20, 32, False, 0), "s390": (22, 32, False, 0), "armbe": (40, 32, False, 0x05000400),
    "x86_64be": (62, 64, False, 0), "i686be": (3, 32, False, 0), "alpha": (0x9026, 64, True, 0), "riscv64be": (243, 64, False, 5),
}
ARCHES = ["x86_64", "i686", "aarch64", "armv7l", "ppc64", "ppc64le", "s390x", "riscv64", "loongarch64"]

STT = {"NOTYPE": 0, "OBJECT": 1, "FUNC": 2, "TLS": 6, "GNU_IFUNC": 10}
STB = {"L": 0, "G": 1, "W": 2}


def sysv_hash(name: bytes) -> int:
    h = 0
    for c in name:
        h = (h << 4) + c
        g = h & 0xF0000000
        if g:
            h ^= g >> 24
        h &= ~g & 0xFFFFFFFF
    return h


class _Str:
    def __init__(self):
        self.b = bytearray(b"\0")
        self.m = {"": 0}

    def add(self, s: str) -> int:
        if s not in self.m:
            self.m[s] = len(self.b)
            self.b += s.encode("utf-8", "surrogateescape") + b"\0"
        return self.m[s]


def build(spec: dict) -> bytes:
    em, cls, le, flags = EM[spec.get("machine", "x86_64")]
    em = spec.get("em", em); cls = spec.get("cls", cls); le = spec.get("le", le)
    flags = spec.get("flags", flags)
    osabi = spec.get("osabi", 0)
    is64 = cls == 64
    E = "<" if le else ">"
    W = 8 if is64 else 4
    native = em == 62 and is64 and le

    def word(v): return struct.pack(E + ("Q" if is64 else "I"), v & ((1 << (8 * W)) - 1))

    interp = spec.get("interp")
    static = spec.get("static", False)
    etype = 2 if spec.get("type") == "exec" else 3
    base = 0x400000 if etype == 2 else 0
    PAGE = 0x1000

    dynstr = _Str()
    # ---- symbols
    undef = list(spec.get("undef") or [])
    defs = list(spec.get("defs") or [])
    main = spec.get("main")
    imports = []
    for d in defs:
        if d.get("call") and d["call"] not in imports: imports.append(d["call"])
    if main and main.get("call") and main["call"] not in imports: imports.append(main["call"])
    known_undef = {u["n"] for u in undef}
    for s in imports:
        if s not in known_undef:
            undef.append({"n": s, "t": "FUNC" if native else "NOTYPE", "b": "G"})
    # ---- versions
    verdef = list(spec.get("verdef") or [])
    for d in defs:
        if d.get("ver") and d["ver"] not in verdef: verdef.append(d["ver"])
    verneed: dict[str, list[str]] = {k: list(v) for k, v in (spec.get("verneed") or {}).items()}
    for u in undef:
        if u.get("v"):
            l = verneed.setdefault(u["v"][0], [])
            if u["v"][1] not in l: l.append(u["v"][1])
    veridx: dict = {}
    nxt = 2
    for v in verdef:
        veridx[("d", v)] = nxt; nxt += 1
    for lib, vs in verneed.items():
        for v in vs:
            veridx[("n", lib, v)] = nxt; nxt += 1
    have_ver = bool(verdef or verneed)

    # ---- section contents that do not depend on addresses
    seed = str(spec.get("seed", 0)).encode()
    rodata = hashlib.sha256(b"ro" + seed).digest() * 2
    data = hashlib.sha256(b"rw" + seed).digest()
    text = bytearray()
    funcs = {}      # name -> (offset, size)
    fixups = []     # (text offset of rel32, got symbol)
    if native:
        for d in defs:
            if d.get("t", "FUNC") not in ("FUNC", "GNU_IFUNC", "NOTYPE"): continue
            o = len(text)
            if d.get("call"):
                text += b"\x48\x83\xec\x08\xff\x15"
                fixups.append((len(text), d["call"])); text += b"\0\0\0\0"
                text += b"\x05" + struct.pack("<i", d.get("add", 0)) + b"\x48\x83\xc4\x08\xc3"
            else:
                text += b"\xb8" + struct.pack("<i", d.get("ret", 0)) + b"\xc3"
            funcs[d["n"]] = (o, len(text) - o)
            while len(text) % 16: text += b"\x90"
        entry_off = None
        if main is not None:
            entry_off = len(text)
            text += b"\x48\x8b\x1c\x24\x48\x8d\x6c\x24\x08\x48\x83\xe4\xf0"
            if main.get("call"):
                text += b"\xff\x15"; fixups.append((len(text), main["call"])); text += b"\0\0\0\0"
            else:
                text += b"\xb8" + struct.pack("<i", main.get("ret", 0))
            text += b"\x41\x89\xc4\x83\xfb\x01"
            body = (b"\x48\x8b\x75\x08\x48\x8b\x54\xdd\x08\x48\x29\xf2"
                    b"\xbf\x01\x00\x00\x00\xb8\x01\x00\x00\x00\x0f\x05")
            text += b"\x7e" + bytes([len(body)]) + body
            text += b"\x41\x8d\x3c\x1c\xb8\xe7\x00\x00\x00\x0f\x05"
    else:
        entry_off = 0 if main is not None else None
        for d in defs:
            if d.get("t", "FUNC") in ("FUNC", "GNU_IFUNC", "NOTYPE"):
                funcs[d["n"]] = (len(text), 16); text += bytes([len(text) & 255]) * 16
    text += hashlib.sha256(b"tx" + seed).digest()

    for s in spec.get("needed") or []: dynstr.add(s)
    for k in ("soname", "rpath", "runpath"):
        if spec.get(k) is not None: dynstr.add(spec[k])
    for u in undef: dynstr.add(u["n"])
    for d in defs: dynstr.add(d["n"])
    for v in verdef: dynstr.add(v)
    if verdef: dynstr.add(spec.get("soname") or "base")
    for lib, vs in verneed.items():
        dynstr.add(lib)
        for v in vs: dynstr.add(v)

    symsz = 24 if is64 else 16
    nsym = 1 + len(undef) + len(defs)
    relasz = 24 if is64 else 12

    # ---- layout
    secs = []  # dict(name,type,flags,addr,off,size,link,info,align,entsize,data)

    def sec(name, typ, fl, align, size, entsize=0):
        s = dict(name=name, type=typ, flags=fl, align=align, size=size, entsize=entsize, addr=0, off=0, link=0, info=0, data=None)
        secs.append(s)
        return s

    ehs = 64 if is64 else 52
    phs = 56 if is64 else 32
    isa = spec.get("isa")
    note = b""
    if isa is not None:
        pal = 8 if is64 else 4
        prop = struct.pack(E + "III", spec.get("isa_type", 0xC0008002), 4, isa)
        prop += b"\0" * (-len(prop) % pal)
        if spec.get("isa_pre"):  # other properties before it
            pre = struct.pack(E + "III", 0xC0000002, 4, 3); pre += b"\0" * (-len(pre) % pal)
            prop = pre + prop
        if spec.get("isa_post"):  # ... and after it: what is used, not what is needed
            post = struct.pack(E + "III", 0xC0010002, 4, 15); prop += post + b"\0" * (-len(post) % pal)
        note = struct.pack(E + "III", 4, len(prop), 5) + b"GNU\0" + prop
    buildid = spec.get("buildid")
    bnote = b""
    if buildid is not None:
        bnote = struct.pack(E + "III", 4, 8, 3) + b"GNU\0" + hashlib.sha256(b"%d" % buildid).digest()[:8]

    if interp is not None: s_interp = sec(".interp", 1, 2, 1, len(interp) + 1)
    if bnote: s_bnote = sec(".note.gnu.build-id", 7, 2, 4, len(bnote))
    if note: s_note = sec(".note.gnu.property", 7, 2, 8 if is64 else 4, len(note))
    if not static:
        hw = 8 if is64 and em in (22, 0x9026) else 4
        s_hash = sec(".hash", 5, 2, 8, (2 + 1 + nsym) * hw, hw)
        s_dynsym = sec(".dynsym", 11, 2, 8, nsym * symsz, symsz)
        s_dynstr = sec(".dynstr", 3, 2, 1, len(dynstr.b))
        if have_ver:
            s_ver = sec(".gnu.version", 0x6FFFFFFF, 2, 2, nsym * 2, 2)
            if verdef: s_verd = sec(".gnu.version_d", 0x6FFFFFFD, 2, 8, (1 + len(verdef)) * 28)
            if verneed: s_verr = sec(".gnu.version_r", 0x6FFFFFFE, 2, 8, sum(16 + 16 * len(v) for v in verneed.values()))
        if imports and native: s_rela = sec(".rela.dyn", 4, 2, 8, relasz * len(imports), relasz)
    s_ro = sec(".rodata", 1, 2, 16, len(rodata))
    s_text = sec(".text", 1, 6, 16, len(text))
    if not static:
        dyn_n = (len(spec.get("needed") or []) + 12 + 4 + 3 * (spec.get("extra_dyn", 0)))
        s_dyn = sec(".dynamic", 6, 3, 8, dyn_n * 2 * W, 2 * W)
        if imports and native: s_got = sec(".got", 1, 3, 8, 8 * len(imports), 8)
    s_data = sec(".data", 1, 3, 16, len(data))
    alloc = list(secs)
    comment = b"GCC: (elfgen) 1.0\0"
    s_comment = sec(".comment", 1, 0x30, 1, len(comment), 1)
    s_comment["data"] = comment
    if spec.get("debug"):
        d = hashlib.sha256(b"dbg" + seed).digest() * spec["debug"]
        for n in (".debug_info", ".debug_abbrev", ".debug_str"):
            sec(n, 1, 0x30 if n.endswith("str") else 0, 1, len(d), 1 if n.endswith("str") else 0)["data"] = d
    symtab = spec.get("symtab", True)
    if symtab:
        s_sym = sec(".symtab", 2, 0, 8, 0, symsz)
        s_str = sec(".strtab", 3, 0, 1, 0)
    s_shstr = sec(".shstrtab", 3, 0, 1, 0)

    # program headers
    ph = []
    if interp is not None: ph += ["phdr", "interp"]
    ph += ["load_r", "load_x", "load_w"]
    if not static: ph.append("dynamic")
    if bnote: ph.append("bnote")
    if note: ph += ["note", "prop"]
    ph.append("stack")

    off = ehs + phs * len(ph)
    segend = {}
    segstart = {"load_r": (0, base)}
    cur = "load_r"
    delta = base  # addr - off
    for s in alloc:
        want = "load_w" if s["flags"] & 1 else ("load_x" if s["flags"] & 4 else "load_r")
        if want != cur:
            segend[cur] = off
            # new page: address continues on the next page, offset aligned the same way
            off = (off + PAGE - 1) // PAGE * PAGE
            cur = want
            segstart[cur] = (off, off + delta)
        off = (off + s["align"] - 1) // s["align"] * s["align"]
        s["off"] = off; s["addr"] = off + delta
        off += s["size"]
    segend[cur] = off

    idx = {s["name"]: i + 1 for i, s in enumerate(secs)}

    # ---- symbols
    def symbytes(nameoff, value, size, info, shndx):
        if is64: return struct.pack(E + "IBBHQQ", nameoff, info, 0, shndx, value, size)
        return struct.pack(E + "IIIBBH", nameoff, value, size, info, 0, shndx)

    if not static:
        sb = bytearray(symbytes(0, 0, 0, 0, 0))
        vb = bytearray(struct.pack(E + "H", 0))
        names = [b""]
        for u in undef:
            info = STB[u.get("b", "G")] << 4 | STT[u.get("t", "FUNC")]
            sb += symbytes(dynstr.add(u["n"]), 0, 0, info, 0)
            vb += struct.pack(E + "H", veridx[("n", u["v"][0], u["v"][1])] if u.get("v") else 1)
            names.append(u["n"].encode())
        for d in defs:
            t = d.get("t", "FUNC")
            info = STB[d.get("b", "G")] << 4 | STT[t]
            if d["n"] in funcs:
                o, sz = funcs[d["n"]]; val = s_text["addr"] + o; nd = idx[".text"]
            else:
                val = s_data["addr"]; sz = 8; nd = idx[".data"]
            sb += symbytes(dynstr.add(d["n"]), val, sz, info, nd)
            vb += struct.pack(E + "H", veridx[("d", d["ver"])] if d.get("ver") else 1)
            names.append(d["n"].encode())
        s_dynsym["data"] = bytes(sb); s_dynsym["link"] = idx[".dynstr"]; s_dynsym["info"] = 1
        s_dynstr["data"] = bytes(dynstr.b)
        chain = [0] * nsym
        head = 0
        for i in range(nsym - 1, 0, -1):
            chain[i] = head; head = i
        s_hash["data"] = struct.pack(E + ("Q" if hw == 8 else "I") * (3 + nsym), 1, nsym, head, *chain)
        s_hash["link"] = idx[".dynsym"]
        if have_ver:
            s_ver["data"] = bytes(vb); s_ver["link"] = idx[".dynsym"]
            if verdef:
                out = b""
                ents = [(1, 1, spec.get("soname") or "base")] + [(0, veridx[("d", v)], v) for v in verdef]
                for i, (fl, ix, nm) in enumerate(ents):
                    last = i == len(ents) - 1
                    out += struct.pack(E + "HHHHIII", 1, fl, ix, 1, sysv_hash(nm.encode()), 20, 0 if last else 28)
                    out += struct.pack(E + "II", dynstr.add(nm), 0)
                s_verd["data"] = out; s_verd["link"] = idx[".dynstr"]; s_verd["info"] = len(ents)
            if verneed:
                out = b""
                libs = list(verneed.items())
                for i, (lib, vs) in enumerate(libs):
                    last = i == len(libs) - 1
                    out += struct.pack(E + "HHIII", 1, len(vs), dynstr.add(lib), 16 if vs else 0, 0 if last else 16 + 16 * len(vs))
                    for j, v in enumerate(vs):
                        out += struct.pack(E + "IHHII", sysv_hash(v.encode()), 0, veridx[("n", lib, v)], dynstr.add(v), 0 if j == len(vs) - 1 else 16)
                s_verr["data"] = out; s_verr["link"] = idx[".dynstr"]; s_verr["info"] = len(libs)
        if imports and native:
            out = b""
            symno = {u["n"]: i + 1 for i, u in enumerate(undef)}
            for i, s in enumerate(imports):
                out += struct.pack("<QQq", s_got["addr"] + 8 * i, symno[s] << 32 | 6, 0)
            s_rela["data"] = out; s_rela["link"] = idx[".dynsym"]
            s_got["data"] = b"\0" * s_got["size"]
            for o, s in fixups:
                rel = s_got["addr"] + 8 * imports.index(s) - (s_text["addr"] + o + 4)
                text[o:o + 4] = struct.pack("<i", rel)
        dyn = [(1, dynstr.add(s)) for s in spec.get("needed") or []]
        if spec.get("soname") is not None: dyn.append((14, dynstr.add(spec["soname"])))
        if spec.get("rpath") is not None: dyn.append((15, dynstr.add(spec["rpath"])))
        if spec.get("runpath") is not None: dyn.append((29, dynstr.add(spec["runpath"])))
        if spec.get("rpath_last"): pass
        dyn += [(4, s_hash["addr"]), (5, s_dynstr["addr"]), (6, s_dynsym["addr"]), (10, s_dynstr["size"]), (11, symsz)]
        if imports and native: dyn += [(7, s_rela["addr"]), (8, s_rela["size"]), (9, relasz)]
        if have_ver:
            if verdef: dyn += [(0x6FFFFFFC, s_verd["addr"]), (0x6FFFFFFD, 1 + len(verdef))]
            if verneed: dyn += [(0x6FFFFFFE, s_verr["addr"]), (0x6FFFFFFF, len(verneed))]
            dyn.append((0x6FFFFFF0, s_ver["addr"]))
        if interp is not None: dyn.append((0x6FFFFFFB, 0x8000000))
        # DT_HASH first is as good an order as any; size was reserved generously
        b = b"".join(word(t) + word(v) for t, v in dyn)
        assert len(b) + 2 * W <= s_dyn["size"], (len(dyn), dyn_n)
        s_dyn["data"] = b + b"\0" * (s_dyn["size"] - len(b)); s_dyn["link"] = idx[".dynstr"]
    s_ro["data"] = rodata; s_text["data"] = bytes(text); s_data["data"] = data
    if interp is not None: s_interp["data"] = interp.encode() + b"\0"
    if note: s_note["data"] = note
    if bnote: s_bnote["data"] = bnote

    # ---- non-alloc sections
    if symtab:
        st = _Str()
        sb = bytearray(symbytes(0, 0, 0, 0, 0))
        sb += symbytes(st.add("elfgen.c"), 0, 0, 4, 0xFFF1)
        sb += symbytes(st.add("local_helper"), s_text["addr"], 4, 2, idx[".text"])
        nlocal = 3
        for n, (o, sz) in funcs.items():
            sb += symbytes(st.add(n), s_text["addr"] + o, sz, 0x12, idx[".text"])
        s_sym["data"] = bytes(sb); s_sym["size"] = len(sb); s_sym["link"] = idx[".strtab"]; s_sym["info"] = nlocal
        s_str["data"] = bytes(st.b); s_str["size"] = len(st.b)
    shs = _Str()
    for s in secs: s["nm"] = shs.add(s["name"])
    s_shstr["data"] = bytes(shs.b); s_shstr["size"] = len(shs.b)
    for s in secs:
        if s["off"] == 0:
            off = (off + s["align"] - 1) // s["align"] * s["align"]
            s["off"] = off
            off += s["size"]
    shoff = (off + 7) // 8 * 8
    shes = 64 if is64 else 40

    # ---- emit
    out = bytearray(shoff + shes * (len(secs) + 1))
    entry = 0
    if main is not None:
        entry = s_text["addr"] + (entry_off or 0)
    ident = b"\x7fELF" + bytes([2 if is64 else 1, 1 if le else 2, 1, osabi]) + b"\0" * 8
    if is64:
        eh = ident + struct.pack(E + "HHIQQQIHHHHHH", etype, em, 1, entry, 64, shoff, flags, 64, 56, len(ph), 64, len(secs) + 1, idx[".shstrtab"])
    else:
        eh = ident + struct.pack(E + "HHIIIIIHHHHHH", etype, em, 1, entry, 52, shoff, flags, 52, 32, len(ph), 40, len(secs) + 1, idx[".shstrtab"])
    out[:len(eh)] = eh

    def phdr(t, fl, o, a, sz, al):
        if is64: return struct.pack(E + "IIQQQQQQ", t, fl, o, a, a, sz, sz, al)
        return struct.pack(E + "IIIIIIII", t, o, a, a, sz, sz, fl, al)
    pb = b""
    for p in ph:
        if p == "phdr": pb += phdr(6, 4, ehs, base + ehs, phs * len(ph), 8)
        elif p == "interp": pb += phdr(3, 4, s_interp["off"], s_interp["addr"], s_interp["size"], 1)
        elif p.startswith("load"):
            o, a = segstart[p]
            pb += phdr(1, {"load_r": 4, "load_x": 5, "load_w": 6}[p], o, a, segend[p] - o, PAGE)
        elif p == "dynamic": pb += phdr(2, 6, s_dyn["off"], s_dyn["addr"], s_dyn["size"], 8)
        elif p == "bnote": pb += phdr(4, 4, s_bnote["off"], s_bnote["addr"], s_bnote["size"], 4)
        elif p == "note": pb += phdr(4, 4, s_note["off"], s_note["addr"], s_note["size"], s_note["align"])
        elif p == "prop": pb += phdr(0x6474E553, 4, s_note["off"], s_note["addr"], s_note["size"], s_note["align"])
        elif p == "stack": pb += phdr(0x6474E551, 6, 0, 0, 0, 16)
    out[ehs:ehs + len(pb)] = pb
    for s in secs:
        out[s["off"]:s["off"] + len(s["data"])] = s["data"]
    sh = b"\0" * shes
    for s in secs:
        if is64:
            sh += struct.pack(E + "IIQQQQIIQQ", s["nm"], s["type"], s["flags"], s["addr"], s["off"], s["size"], s["link"], s["info"], s["align"], s["entsize"])
        else:
            sh += struct.pack(E + "IIIIIIIIII", s["nm"], s["type"], s["flags"], s["addr"], s["off"], s["size"], s["link"], s["info"], s["align"], s["entsize"])
    out[shoff:shoff + len(sh)] = sh
    return bytes(out)
