"""Running `show` / the audit API on a materialised world and comparing with the model."""
from __future__ import annotations

import json
import os

from . import harness, model
from .harness import Violation


def show(m, *args, env=None, wheel=None, cwd=None, ldargs=True, verbose=0, as_json=True):
    argv = ["-v"] * verbose + ["show"] + (["--json"] if as_json else []) + list(args)
    if ldargs: argv += m.ldargs()
    argv.append(wheel or m.wheel)
    r = harness.cli(argv, cwd=cwd or m.cwd, env=m.env(env), tmpdir=m.tmp)
    j = None
    if as_json and r.out.strip():
        try:
            j = json.loads(r.out)
        except ValueError:
            raise Violation(f"show --json printed something that is no JSON document: {r.out[:500]!r}") from None
    return r, j


def modelled(case, m, **kw):
    """(Analysis, None) or (None, Rejected)"""
    try:
        return model.World(case, m.real).audit(**kw), None
    except model.Rejected as e:
        return None, e


CLEAN_EXC = {"InvalidLibcError", "ValueError", "RuntimeError", "NonPlatformWheelError", "IndexError"}


def rejected(r, j):
    """a run that reports no verdict"""
    return r.rc not in (0, None) and (j is None or "overall_tag" not in j)


def api_refs(m, exclude=(), isa=True, requested=None, allow_graft=True):
    """analyze_wheel_abi in a child -> plain data"""
    case = m.case
    ld = m.ldargs()[1]
    wheel = m.wheel

    def fn():
        from pathlib import Path

        from auditwheel.error import NonPlatformWheelError, WheelToolsError
        from auditwheel.wheel_abi import analyze_wheel_abi
        from auditwheel.wheeltools import get_wheel_architecture, get_wheel_libc
        name = os.path.basename(wheel)
        try: arch = get_wheel_architecture(name)
        except (WheelToolsError, NonPlatformWheelError): arch = None
        try: libc = get_wheel_libc(name)
        except WheelToolsError: libc = None
        w = analyze_wheel_abi(libc, arch, Path(wheel), frozenset(exclude), disable_isa_ext_check=not isa, allow_graft=allow_graft,
                              requested_policy_base_name=requested, args_ldpaths=ld)
        return {
            "overall": w.overall_policy.name, "sym": w.sym_policy.name, "ref": w.ref_policy.name, "black": w.blacklist_policy.name,
            "machine": w.machine_policy.name, "ucs": w.ucs_policy.name, "fpe": w.pyfpe_policy.name, "graft": w.graft_policy.name,
            "policies": [p.name for p in w.policies],
            "refs": {k: {"libs": {s: (None if p is None else str(p)) for s, p in v.libs.items()}, "black": {l: list(x) for l, x in v.blacklist.items()}} for k, v in w.external_refs.items()},
            "full": {str(f): {k: {s: (None if p is None else str(p)) for s, p in v.libs.items()} for k, v in d.items()} for f, d in w.full_external_refs.items()},
            "versions": {k: sorted(v) for k, v in w.versioned_symbols.items()},
        }
    return harness.api(fn, cwd=m.cwd, env=m.env(), tmpdir=m.tmp)
