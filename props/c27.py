"""C27: files that are no ELF files, and damaged ELF files."""
import io
import json
import os
import tarfile
import zipfile

from hypothesis import strategies as st

from vlib import harness, outputs, repairs, worlds
from vlib.elfgen import build
from vlib.elfread import Elf
from vlib.harness import Leg, Prop, Violation
from vlib.wheelgen import Mat, Whl, dist_name, tree_state
from vlib.audit import show

EPOCH = {"SOURCE_DATE_EPOCH": "1600000000"}
# ------------------------------------------------------------------ files that are not ELF
ODD = ["a.so", "libx.so.1", "b.pyd", "c.py", "d.pyc", "e", "x.txt", "lib.so.", ".so", "mod.abi3.so", "m.cpython-312-x86_64-linux-gnu.so", "ld.so", "libc.so.6", "libpython3.12.so.1.0", "patchelf", "X.SO",
       "a\u2028b.so", "a\x85b", "a\x1cb.so", "l1\nl2", "l1\r\nl2.so", " lead", "trail ", "a,b", "\"q\"", "a\tb", "é.so", "日本.so", "a\u202e.so", "x" * 200 + ".so", "%s", "{0}", "-rf", "$ORIGIN", "~", "a\\b", "e\u0301", "c\x0cd", "a;b", "*", "lib?.so"]
DIRS = ["{pkg}/", "{pkg}/", "", "{di}/", "{di}/licenses/", "{data}/scripts/", "{data}/data/lib/", "{data}/purelib/", "purelib/", "{pkg}/x.so/", "{pkg}/lib/", "zz/", "{di}/sub/"]


@st.composite
def content(draw):
    k = draw(st.integers(0, 12))
    if k == 0: return {"k": "raw", "v": draw(st.binary(max_size=64)).hex()}
    if k == 1: return {"k": "raw", "v": draw(st.sampled_from([b"", b"\x7f", b"\x7fE", b"\x7fEL", b"\x7fELf\x02\x01\x01", b"ELF", b"\x00\x7fELF\x02\x01\x01", b"\x7felf\x02\x01\x01", b"FLE\x7f\x01\x02", b"\n\x7fELF", b"\xff\x7fELF"])).hex()}
    if k == 2: return {"k": "near", "i": draw(st.integers(0, 3)), "v": draw(st.integers(0, 255))}
    if k == 3: return {"k": "shift", "n": draw(st.sampled_from([1, 2, 16, 512]))}
    if k in (4, 5): return {"k": draw(st.sampled_from(["ar", "zip", "tar", "b64", "hex", "utf16"]))}
    if k == 6: return {"k": "raw", "v": draw(st.sampled_from([b"MZ\x90\0PE\0\0", b"\xcf\xfa\xed\xfe\x0c\0\0\1", b"\xca\xfe\xba\xbe\0\0\0\2", b"BC\xc0\xde", b"!<arch>\n", b"!<thin>\n", b"\0asm\1\0\0\0", b"\x1f\x8b\x08"])).hex()}
    if k == 7: return {"k": "raw", "v": draw(st.sampled_from([b"#!python\nprint(1)\n", b"#!/bin/sh\nexit 0\n", b"#!pythonw\n", b"#!"])).hex()}
    if k == 8: return {"k": "big", "n": draw(st.sampled_from([4096, 65536, 300000])), "b": draw(st.integers(0, 255))}
    if k == 9: return {"k": "raw", "v": draw(st.text(max_size=40)).encode("utf-8", "replace").hex()}
    if k == 10: return {"k": "raw", "v": draw(st.sampled_from(["\ufeffx = 1\n", "INPUT(libe0.so.1)\n", "/* GNU ld script */\nGROUP ( libc.so.6 )\n", "libe0.so.1", "GLIBC_2.99", "../libx.so", "a\r\nb\rc\n"])).encode().hex()}
    return {"k": "raw", "v": draw(st.binary(min_size=4, max_size=200).filter(lambda b: b[:4] != b"\x7fELF")).hex()}


SAMPLE = []


def bytes_of(c):
    if not SAMPLE: SAMPLE.append(build({"machine": "x86_64", "needed": ["libq.so.9", "libc.so.6"], "soname": "libq.so.1", "verneed": {"libc.so.6": ["GLIBC_2.99"]}, "defs": [{"n": "PyInit_q", "ret": 1}], "undef": [{"n": "PyFPE_jbuf"}]}))
    e = SAMPLE[0]
    k = c["k"]
    if k == "raw": b = bytes.fromhex(c["v"])
    elif k == "near":
        b = bytearray(e); b[c["i"]] = c["v"] if c["v"] != e[c["i"]] else c["v"] ^ 0x20
    elif k == "shift": b = b"\0" * c["n"] + e
    elif k == "ar": b = b"!<arch>\n" + b"q.o/            0           0     0     644     %-10d`\n" % len(e) + e
    elif k == "zip":
        f = io.BytesIO()
        with zipfile.ZipFile(f, "w") as z: z.writestr("q.so", e)
        b = f.getvalue()
    elif k == "tar":
        f = io.BytesIO()
        with tarfile.open(fileobj=f, mode="w") as t:
            i = tarfile.TarInfo("q.so"); i.size = len(e); t.addfile(i, io.BytesIO(e))
        b = f.getvalue()
    elif k == "b64":
        import base64
        b = base64.b64encode(e)
    elif k == "hex": b = e.hex().encode()
    elif k == "utf16": b = e.decode("latin-1").encode("utf-16")
    elif k == "big": b = bytes([c["b"]]) * c["n"]
    b = bytes(b)
    return b"x" + b if b[:4] == b"\x7fELF" else b


@st.composite
def junk_case(draw):
    g = worlds.G(draw)
    case = draw(repairs.repair_world(files=2, reqs=0 if g.p(70) else 1, missing=1, scripts=15, pylib=3, dup=8, rp=40, sdirs=g.p(30)))
    di = dist_name(case)
    names = sorted({x for mm in case["members"] if "elf" in mm for x in mm["elf"].get("needed") or []})
    js = []
    for _ in range(g.n(1, 4)):
        k = g.n(0, 9)
        if k < 5: n = g.one(ODD)
        elif k < 8 and names: n = g.one(names)                       # the name of a library that is needed
        else: n = draw(st.text(st.characters(exclude_characters="/\0", exclude_categories=["Cs"]), min_size=1, max_size=12))
        if len(n.encode()) > 220 or n in (".", ".."): continue
        own = [os.path.dirname(mm["p"]) + "/" for mm in case["members"] if "elf" in mm and "/" in mm["p"]]
        d = g.one(own) if own and g.p(40) else g.one(DIRS).format(pkg=next((mm["p"].split("/")[0] for mm in case["members"] if mm["p"].endswith("__init__.py")), "pkg"), di=di + ".dist-info", data=di + ".data")
        js.append({"p": d + n, "c": draw(content()), "mode": g.one([0o644, 0o755, 0o777, 0o600, None]), "at": g.n(0, 20)})
    case["junk"] = js
    case["blank"] = g.n(0, 3) if g.p(20) else 0
    return case


def with_junk(case):
    c = dict(case)
    mem = list(case["members"])
    have = {m["p"] for m in mem}
    special = dist_name(case) + ".dist-info/"
    js = []
    for j in case["junk"]:
        p = j["p"]
        if p in have or any(h.startswith(p + "/") or p.startswith(h + "/") for h in have): continue
        if p.startswith(special) and "/" not in p[len(special):] and (p[len(special):].upper() in ("RECORD", "METADATA", "WHEEL", "RECORD.JWS", "RECORD.P7S")): continue
        if p.endswith(".dist-info"): continue
        have.add(p)
        m = {"p": p, "hex": bytes_of(j["c"]).hex(), "mode": j["mode"]}
        mem.insert(j["at"] % (len(mem) + 1), m)
        js.append(m)
    c["members"] = mem
    return c, js


def blank_lines(path, n):
    """empty lines in RECORD, which are no rows"""
    if not n: return
    with zipfile.ZipFile(path) as z: ms = [(i, z.read(i)) for i in z.infolist()]
    with zipfile.ZipFile(path, "w") as z:
        for i, b in ms:
            if i.filename.endswith(".dist-info/RECORD"):
                b = [b + b"\n", b"\n" + b, b"\r\n" + b + b"\n\n"][n - 1]
            z.writestr(i, b)


def verdict(m):
    r, j = show(m)
    return r, j


def check_junk(case, ctx):
    a = Mat(case, os.path.join(ctx.dir, "a"))
    c2, js = with_junk(case)
    b = Mat(c2, os.path.join(ctx.dir, "b"), libs=False)
    b.X = a.X       # one set of libraries: paths have to be the same
    from vlib.wheelgen import write_wheel
    write_wheel(c2, b.wheel, a.X)
    blank_lines(b.wheel, case["blank"])
    ra, ja = verdict(a)
    rb, jb = verdict(b)
    what = f"files without ELF magic added: {[j['p'] for j in js]}"
    if (ra.rc, ja) != (rb.rc, jb):
        raise Violation(f"{what}; show: {ra.rc} {ja} -> {rb.rc} {jb}; {rb.err[-700:]}")
    ra = repairs.repair(a, case["opts"], env=EPOCH)
    rb = repairs.repair(b, case["opts"], env=EPOCH)
    ctx.label("repaired" if ra.rc == 0 else "refused", f"junk:{len(js)}", *("content:" + j["c"]["k"] for j in case["junk"]))
    if case["blank"]: ctx.label("blank lines")
    if ra.rc != rb.rc:
        finding = None
        if ra.rc == 0:
            x = repairs.expected(case, a)
            if {x.dest + "/" + n for n in x.grafts.values()} & {j["p"] for j in js}: finding = "graft-place-taken"
        raise Violation(f"{what}; repair: exit status {ra.rc} -> {rb.rc}: {rb.err[-900:]}", finding)
    oa, ob = repairs.outputs(a), repairs.outputs(b)
    if oa != ob: raise Violation(f"{what}; outputs {oa} -> {ob}")
    ctx.nontrivial(bool(js))
    if not oa: return
    wa, wb = Whl(os.path.join(a.out, oa[0])), Whl(os.path.join(b.out, oa[0]))
    outputs.record(wb)
    jn = {j["p"] for j in js}
    if set(wb.files) != set(wa.files) | jn: raise Violation(f"{what}; members {sorted(set(wb.files) ^ (set(wa.files) | jn))} differ")
    for j in js:
        if wb.data[j["p"]] != bytes.fromhex(j["hex"]): raise Violation(f"{j['p']!r} changed: {bytes.fromhex(j['hex'])[:60]!r} -> {wb.data[j['p']][:60]!r}")
    for n in wa.files:
        if n != wa.di + "/RECORD" and wa.data[n] != wb.data[n]: raise Violation(f"{what}; {n} is written differently")


# ------------------------------------------------------------------ damaged ELF files
REGIONS = ["ehdr", "ehdr", "phdr", "shdr", "shdr", ".dynamic", ".dynamic", ".dynstr", ".dynsym", ".gnu.version", ".gnu.version_r", ".gnu.version_r", ".gnu.version_d", ".note.gnu.property", ".shstrtab", ".interp", ".hash", "any"]
VALS = [0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x6ffffffe, 0x7fffffffffffffff, 0xffffffffffffffff, 0x6ffffff5, 0x1d, 0xf, 14, 5]


# whole fields: of the file header, of a program header, of a section's header, of an entry of .dynamic or of a version table
FIELDS = ["ehdr", "phdr", ".dynamic", ".gnu.version_r", ".gnu.version_d", "sh:.gnu.version_r", "sh:.gnu.version_r", "sh:.gnu.version_d", "sh:.dynamic", "sh:.dynstr", "sh:.dynsym", "sh:.shstrtab", "sh:.note.gnu.property", "sh:.text"]


def fields(e, where, n):
    """(offset, width) of field n of a part"""
    o64, phoff, shoff = e.is64, e.phoff, e.shoff
    W = 8 if o64 else 4
    def at(base, ws):
        k = n % len(ws)
        return base + sum(ws[:k]), ws[k]
    if where == "ehdr": return at(16, [2, 2, 4, W, W, W, 4, 2, 2, 2, 2, 2, 2])
    if where == "phdr":
        ph = phoff + (n * 7 % 5) * (56 if o64 else 32)
        return at(ph, [4, 4, 8, 8, 8, 8, 8, 8] if o64 else [4] * 8)
    if where == ".dynamic":
        if where not in e.sections(): return None
        return e.sections()[where][4] + n * W, W
    if where in (".gnu.version_r", ".gnu.version_d"):
        if where not in e.sections(): return None
        return at(e.sections()[where][4], [2, 2, 4, 4, 4, 4, 2, 2, 4, 4] if where.endswith("r") else [2, 2, 2, 2, 4, 4, 4, 4, 4])
    names = list(e.sections())
    if where[3:] not in names: return None
    k = 1 + names.index(where[3:])
    return at(shoff + k * (64 if o64 else 40), [4, 4, 8, 8, 8, 8, 4, 4, 8, 8] if o64 else [4] * 10)


@st.composite
def damage_case(draw):
    g = worlds.G(draw)
    s = {"machine": g.one(["x86_64", "x86_64", "x86_64", "i686", "aarch64", "s390x"]), "needed": draw(st.permutations(g.some(["libe0.so.1", "libe1.so", "libm.so.6", "libz.so.1"], 3) + ["libc.so.6"]))}
    if g.p(70): s["verneed"] = {"libc.so.6": g.some(["GLIBC_2.17", "GLIBC_2.2.5", "GLIBC_2.34"], 3) or ["GLIBC_2.17"]}
    if g.p(25): s["verdef"] = ["BAD_1", "BAD_2"]
    if g.p(60): s["defs"] = [{"n": "PyInit_bad", "ret": 1}]
    if g.p(40): s["undef"] = [{"n": g.one(["PyFPE_jbuf", "PyUnicodeUCS2_Decode", "printf"]), "t": "FUNC"}]
    if g.p(40): s["soname"] = "libbad.so.1"
    if g.p(40): s[g.one(["rpath", "runpath"])] = g.one(["$ORIGIN", "/X/d0", "$ORIGIN/../q:/X/d0"])
    if g.p(30): s["isa"] = g.one([1, 4, 8])
    if g.p(30): s["buildid"] = 3
    if g.p(20): s["interp"] = worlds.INTERP[s["machine"]]; s["type"] = g.one(["dyn", "exec"])
    muts = []
    for _ in range(g.n(1, 2) if g.p(70) else g.n(1, 5)):
        k = 12 - g.n(0, 12)
        if k > 9:
            muts.append(["field", g.one(FIELDS), g.n(0, 12), g.one([["set", g.one(VALS)], ["xor", g.n(0, 63)], ["add", g.one([1, -1, 2, 0x1000])]])])
        elif k < 2: muts.append(["cut", g.one(REGIONS), g.n(0, 400)])
        elif k < 4: muts.append(["byte", g.one(REGIONS), g.n(0, 400), g.n(0, 255)])
        elif k < 7: muts.append(["val", g.one(REGIONS), g.n(0, 80), g.one([2, 4, 8]), g.one(VALS)])
        elif k < 8: muts.append(["zero", g.one(REGIONS), g.n(0, 400), g.n(1, 200)])
        elif k < 9: muts.append(["flip", g.one(REGIONS), g.n(0, 400), g.n(0, 7)])
        else: muts.append(["noise", g.one(REGIONS), g.n(0, 200), draw(st.binary(min_size=1, max_size=32)).hex()])
    arch = s["machine"]
    good = {"machine": arch, "needed": g.some(["libe0.so.1", "libe1.so"], 1) + ["libc.so.6"], "defs": [{"n": "PyInit_good", "ret": 1}]}
    if g.p(40): good["verneed"] = {"libc.so.6": [g.one({"aarch64": ["GLIBC_2.17", "GLIBC_2.34"]}.get(arch, ["GLIBC_2.3", "GLIBC_2.12", "GLIBC_2.34"]))]}
    bp = g.one(["pkg/bad.so", "pkg/bad.so", "pkg/bad.bin", "foo-1.0.data/scripts/bad", "pkg/lib/libbad.so.1", "bad.abi3.so"])
    case = {"name": "foo", "ver": "1.0", "py": "cp312", "abi": "cp312", "plats": [g.one(["linux", "linux", "manylinux_2_17"]) + "_" + arch], "ld_paths": ["/X/d0"], "opts": {}}
    case["dirs"] = {"d0": {n: {"elf": {"machine": arch, "soname": n, "needed": ["libc.so.6"]}} for n in ("libe0.so.1", "libe1.so") if g.p(90)}}
    case["members"] = [{"p": "pkg/good.so", "elf": good}, {"p": "pkg/__init__.py", "data": ""}]
    case["bad"] = {"p": bp, "elf": s, "muts": muts, "at": g.n(0, 2), "mode": 0o755}
    if g.p(15): case["opts"]["strip"] = True
    return case


def damage(spec, muts, X):
    b = bytearray(build({k: (v.replace("/X/", X + "/") if k in ("rpath", "runpath") else v) for k, v in spec.items()}))
    e = Elf(bytes(b))
    le = "little" if e.le else "big"
    w = 64 if e.is64 else 52
    secs = e.sections()
    shoff, phoff = (int.from_bytes(b[0x28:0x30], le), int.from_bytes(b[0x20:0x28], le)) if e.is64 else (int.from_bytes(b[0x20:0x24], le), int.from_bytes(b[0x1c:0x20], le))

    def off(reg, n):
        if reg == "ehdr": o = n % w
        elif reg == "phdr": o = phoff + n
        elif reg == "shdr": o = shoff + n * (4 if n < 100 else 8)
        elif reg in secs:
            s = secs[reg]
            o = s[4] + n % max(1, s[5])
        else: o = n * 13
        return min(o, max(0, len(b) - 1))
    for mu in muts:
        if mu[0] == "field":
            f = fields(e, mu[1], mu[2])
            if f is None or f[0] + f[1] > len(b): continue
            v = int.from_bytes(b[f[0]:f[0] + f[1]], le)
            how, q = mu[3]
            v = q if how == "set" else v ^ (1 << q % (8 * f[1])) if how == "xor" else v + q
            b[f[0]:f[0] + f[1]] = (v & ((1 << (8 * f[1])) - 1)).to_bytes(f[1], le)
            continue
        o = off(mu[1], mu[2])
        if mu[0] == "cut": del b[o:]
        elif mu[0] == "byte" and o < len(b): b[o] = mu[3]
        elif mu[0] == "flip" and o < len(b): b[o] ^= 1 << mu[3]
        elif mu[0] == "val":
            v = (mu[4] & ((1 << (8 * mu[3])) - 1)).to_bytes(mu[3], le)
            b[o:o + mu[3]] = v[:max(0, len(b) - o)]
        elif mu[0] == "zero": b[o:o + mu[3]] = bytes(len(b[o:o + mu[3]]))
        elif mu[0] == "noise":
            v = bytes.fromhex(mu[3]); b[o:o + len(v)] = v[:max(0, len(b) - o)]
    return bytes(b)


@st.composite
def fields_case(draw):
    """a wheel as above, and several faults of one field each, tried one after the other"""
    g = worlds.G(draw)
    case = draw(damage_case())
    case["bad"]["elf"].setdefault("verneed", {"libc.so.6": ["GLIBC_2.17"]})
    case["bad"]["muts"] = []
    fault = st.one_of(st.tuples(st.just("set"), st.sampled_from(VALS)), st.tuples(st.just("xor"), st.integers(0, 63)), st.tuples(st.just("add"), st.sampled_from([1, -1, 2, 0x1000])))
    case["faults"] = [["field", w, n, list(f)] for w, n, f in draw(st.lists(st.tuples(st.sampled_from(FIELDS), st.integers(0, 12), fault), min_size=1, max_size=10, unique_by=str))]
    return case


def check_fields(case, ctx):
    from vlib.wheelgen import write_wheel
    bad = case["bad"]
    a = Mat(case, os.path.join(ctx.dir, "a"))
    ra, ja = show(a)
    whole = damage(bad["elf"], [], a.X)
    for k, f in enumerate(case["faults"]):
        data = damage(bad["elf"], [f], a.X)
        if data == whole: continue
        c2 = dict(case, members=list(case["members"]))
        c2["members"].insert(bad["at"], {"p": bad["p"], "hex": data.hex(), "mode": bad["mode"]})
        b = Mat(c2, os.path.join(ctx.dir, f"b{k}"), libs=False)
        b.X = a.X
        write_wheel(c2, b.wheel, a.X)
        r = harness.cli(["show", "--json", *b.ldargs(), b.wheel], cwd=b.cwd, env=b.env(), tmpdir=b.tmp, timeout=20)
        ctx.label("show:" + ("ok" if r.rc == 0 else "refused" if r.rc == 1 and r.exc is None else "exception"), f[1])
        ctx.nontrivial()
        what = f"{f[1]}, field {f[2]} of a file: {f[3]}"
        if r.rc == 0: compare(ra, ja, json.loads(r.out), ctx, what)
        elif "overall_tag" in r.out: raise Violation(f"{what}: show fails and reports a tag: {r!r}")
        if os.listdir(b.tmp): raise Violation(f"{what}: left in the temporary directory: {os.listdir(b.tmp)}")


def compare(ra, ja, j, ctx, what):
    if ra.rc != 0: return
    ta, tb = ja["overall_tag"], j["overall_tag"]
    if ta == tb: return
    pr = prio(ta, tb)
    if pr is None: raise Violation(f"{what}: tag {ta} -> {tb} through a damaged file")
    if pr[1] > pr[0]: raise Violation(f"{what}: a damaged file makes the tag more compatible: {ta} -> {tb}")
    ctx.label("tag lowered")


def check_damage(case, ctx):
    bad = case["bad"]
    a = Mat(case, os.path.join(ctx.dir, "a"))
    c2 = dict(case)
    from vlib.wheelgen import real_spec, write_wheel
    data = damage(bad["elf"], bad["muts"], a.X)
    c2["members"] = list(case["members"])
    c2["members"].insert(bad["at"], {"p": bad["p"], "hex": data.hex(), "mode": bad["mode"]})
    b = Mat(c2, os.path.join(ctx.dir, "b"), libs=False)
    b.X = a.X
    write_wheel(c2, b.wheel, a.X)
    ra, ja = show(a)
    r = harness.cli(["show", "--json", *b.ldargs(), b.wheel], cwd=b.cwd, env=b.env(), tmpdir=b.tmp, timeout=25)
    out = "ok" if r.rc == 0 else "refused" if r.rc == 1 and r.exc is None else "exception"
    ctx.label("show:" + out, *("mut:" + m[0] for m in bad["muts"]), "magic" if data[:4] == b"\x7fELF" else "no magic")
    if data == damage(bad["elf"], [], a.X): ctx.label("unharmed")
    else: ctx.nontrivial()
    if r.rc == 0:
        j = json.loads(r.out)
        if data[:4] != b"\x7fELF" and j != ja: raise Violation(f"a file without ELF magic changes the report {ja} -> {j}")
        compare(ra, ja, j, ctx, "damage")
    elif "overall_tag" in r.out: raise Violation(f"show fails and reports a tag: {r!r}")
    before = tree_state(a.X, os.path.dirname(b.wheel), b.cwd)
    r2 = harness.cli(repairs.repair_args(b, case["opts"]) + b.ldargs() + [b.wheel], cwd=b.cwd, env=b.env(EPOCH), tmpdir=b.tmp, timeout=25)
    ctx.label("repair:" + ("ok" if r2.rc == 0 else "refused" if r2.rc == 1 and r2.exc is None else "exception"))
    o = repairs.outputs(b)
    if tree_state(a.X, os.path.dirname(b.wheel), b.cwd) != before: raise Violation("repair changes files other than its output")
    if r2.rc != 0:
        if o: raise Violation(f"repair fails ({r2.exc}) and leaves {o}")
    else:
        if len(o) != 1: raise Violation(f"repair succeeds and writes {o}")
        w = Whl(os.path.join(b.out, o[0]))
        if w.bad: raise Violation(f"{w.bad} in the output is damaged")
        outputs.record(w)
        miss = {m["p"] for m in c2["members"]} - set(w.files)
        if miss - {bad["p"]} or (miss and not bad["p"].startswith("foo-1.0.data/scripts/")): raise Violation(f"{miss} lost")
        if bad["p"] in w.files and data[:4] != b"\x7fELF" and w.data[bad["p"]] != data: raise Violation(f"{bad['p']}, no ELF file, changed")
    if os.listdir(b.tmp): raise Violation(f"left in the temporary directory: {os.listdir(b.tmp)}")


def prio(a, b):
    from vlib import model
    from vlib.names import arch_of, libc_of
    def p(t):
        if t.startswith("linux_"): return 0
        l = libc_of(t)
        if l is None: return None
        for q in model.raw_policies(l):
            if t.startswith(q["name"] + "_") or any(t.startswith(x + "_") for x in q["aliases"]): return q["priority"]
    x, y = p(a), p(b)
    if None in (x, y) or arch_of(a) != arch_of(b): return None
    return x, y


PROP = Prop("C27", [Leg("junk", lambda t: junk_case(), check_junk, 360, 14000), Leg("damage", lambda t: damage_case(), check_damage, 700, 40000), Leg("fields", lambda t: fields_case(), check_fields, 360, 14000)],
            rule="(junk) a repairable or refused wheel audited and repaired twice, without and with 1-4 files that are no ELF files, of any name (also of needed libraries and with line separators), content (ELF files in archives, shifted, with a changed magic number, ...) and mode; non-trivial: at least one added. (damage) a wheel with one good extension and one ELF file with 1-5 cuts, overwritten fields, flipped bits; non-trivial: the bytes differ from the intact file. (fields) the same with 1-10 faults of one field each, of headers, section headers, dynamic entries or version tables, tried one by one",
            technique="metamorphic property-based testing (Hypothesis): the same wheel with and without the file",
            level_note="Random search. Trusts: the zip reader; ELF writer.")
