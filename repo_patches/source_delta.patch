From c0a46ec9f71df5c82f6280845b1490ecb71b2f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:08 +0000
Subject: [PATCH 01/34] fix: don't assert that a program interpreter exists on
 the auditing machine

A wheel with an executable whose interpreter (e.g. ld-musl-*, ld-linux-aarch64)
isn't installed and a library with an unresolved dependency made show and
repair fail with AssertionError.
---
 src/auditwheel/wheel_abi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index b377e3a..b901f42 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -78,8 +78,8 @@ def _fixup_elf_trees(
         for candidate in resolved_executables:
             for library in candidate.libraries.values():
                 assert library.realpath is not None  # noqa: S101
-                assert library.realpath.is_file()  # noqa: S101
-                if path_to_elf.samefile(library.realpath):
+                # the program interpreter is recorded even if it's missing on this machine
+                if library.realpath.is_file() and path_to_elf.samefile(library.realpath):
                     return candidate
         return None
 
-- 
2.43.0


From 77083931288eda315ef7fa37503fdab9b85a5659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 02/34] fix: audit libraries of a wheel that only need each
 other

Libraries in a dependency cycle (or needing themselves) that no other file
needs were taken for dependencies of one another and none was walked: their
external libraries never reached the verdict.
---
 src/auditwheel/wheel_abi.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index b901f42..c38eafe 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -263,6 +263,12 @@ def get_wheel_elfdata(
                 ctx.path,
             )
 
+        # Files that only need each other are not part of any tree above, walk them as well.
+        walked_libs = {soname for tree in full_elftree.values() for soname in tree.libraries}
+        for fn, elf_tree in nonpy_elftree.items():
+            if fn.name not in walked_libs:
+                full_elftree[fn] = elf_tree
+
     log.debug("full_elftree:\n%s", json.dumps(full_elftree))
     log.debug(
         "full_external_refs (will be repaired):\n%s",
-- 
2.43.0


From e5658d52147655ae588ddee6a1515cc9a39eb8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 03/34] fix: let a RUNPATH without existing directories
 suppress RPATH

The dynamic loader ignores DT_RPATH of a file that has DT_RUNPATH, also when
no directory of the RUNPATH exists; ldd only did when one existed.
---
 src/auditwheel/lddtree.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index af46a8e..d7dd247 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -533,15 +533,18 @@ def ldd(
         for segment in elf.iter_segments():
             if not isinstance(segment, DynamicSegment):
                 continue
+            has_runpath = False
             for t in segment.iter_tags():
                 if t.entry.d_tag == "DT_RPATH":
                     rpaths = parse_ld_paths(t.rpath, path=str(path), root=root)  # type: ignore[attr-defined]
                 elif t.entry.d_tag == "DT_RUNPATH":
+                    has_runpath = True
                     runpaths = parse_ld_paths(t.runpath, path=str(path), root=root)  # type: ignore[attr-defined]
                 elif t.entry.d_tag == "DT_NEEDED":
                     needed.append(t.needed)  # type: ignore[attr-defined]
-            if runpaths:
-                # If both RPATH and RUNPATH are set, only the latter is used.
+            if has_runpath:
+                # If both RPATH and RUNPATH are set, only the latter is used,
+                # even if none of its directories exist.
                 rpaths = []
 
             # We assume there is only one PT_DYNAMIC.  This is
-- 
2.43.0


From 992fea423b59c62be720c4b81c5aef723e57e6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 04/34] fix: remove libpython from grafted libraries too

Only the needed entries of the wheel's own files were removed; a grafted
library that needs libpython kept its entry.
---
 src/auditwheel/repair.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index b9ca254..fe99851 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -46,6 +46,7 @@ def repair_wheel(
         return None
 
     soname_map: dict[str, tuple[str, Path]] = {}
+    removed_sonames: set[str] = set()
 
     out_dir = out_dir.resolve(strict=True)
     wheel_fname = wheel_path.name
@@ -84,6 +85,7 @@ def repair_wheel(
                         str(fn),
                     )
                     patcher.remove_needed(fn, soname)
+                    removed_sonames.add(soname)
                     continue
 
                 if src_path is None:
@@ -122,6 +124,8 @@ def repair_wheel(
             for n in needed:
                 if n in soname_map:
                     replacements.append((n, soname_map[n][0]))
+                elif n in removed_sonames:
+                    patcher.remove_needed(path, n)
             if replacements:
                 patcher.set_rpath(path, "$ORIGIN")
                 patcher.replace_needed(path, *replacements)
-- 
2.43.0


From 87393eeb2c171baa55be124fd12a7faac1ce3867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:59 +0000
Subject: [PATCH 05/34] fix: graft a library whose file name has no suffix

copylib() failed with 'not enough values to unpack' when the file a soname
links to has no dot in its name.
---
 src/auditwheel/repair.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index fe99851..5ce1989 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -178,8 +178,8 @@ def copylib(src_path: Path, dest_dir: Path, patcher: ElfPatcher) -> tuple[str, P
         shorthash = hashfile(f)[:8]
 
     src_name = src_path.name
-    base, ext = src_name.split(".", 1)
-    new_soname = f"{base}-{shorthash}.{ext}" if not base.endswith(f"-{shorthash}") else src_name
+    base, dot, ext = src_name.partition(".")
+    new_soname = f"{base}-{shorthash}{dot}{ext}" if not base.endswith(f"-{shorthash}") else src_name
 
     dest_path = dest_dir / new_soname
     if dest_path.exists():
-- 
2.43.0


From 3cd4550d45320e7639ade88f483f74feed09d59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 06/34] fix: keep grafted libraries of the same name apart

Two different libraries with the same soname, found through the search paths
of different files, overwrote each other in the table of grafted libraries:
the first one was neither relinked to its grafted dependencies, cleared of its
RPATH nor stripped, and dependencies could be bound to the wrong library.
---
 src/auditwheel/repair.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index 5ce1989..8d485a2 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -45,7 +45,9 @@ def repair_wheel(
     if not external_refs_by_fn:
         return None
 
-    soname_map: dict[str, tuple[str, Path]] = {}
+    # grafted libraries with the new names of the libraries they may need; libraries
+    # of the same name found at different places are different libraries
+    grafted_libs: dict[Path, dict[str, str]] = {}
     removed_sonames: set[str] = set()
 
     out_dir = out_dir.resolve(strict=True)
@@ -74,7 +76,7 @@ def repair_wheel(
         # the wheel, and v['libs'] contains its required libs
         for fn, v in external_refs_by_fn.items():
             ext_libs = v[abis[0]].libs
-            replacements: list[tuple[str, str]] = []
+            soname_map: dict[str, str] = {}
             for soname, src_path in ext_libs.items():
                 # Handle libpython dependencies by removing them
                 if LIBPYTHON_RE.match(soname):
@@ -99,10 +101,10 @@ def repair_wheel(
                     dest_dir.mkdir()
                 sbom_filepaths.append(src_path)
                 new_soname, new_path = copylib(src_path, dest_dir, patcher)
-                soname_map[soname] = (new_soname, new_path)
-                replacements.append((soname, new_soname))
-            if replacements:
-                patcher.replace_needed(fn, *replacements)
+                soname_map[soname] = new_soname
+                grafted_libs.setdefault(new_path, soname_map)
+            if soname_map:
+                patcher.replace_needed(fn, *soname_map.items())
 
             if len(ext_libs) > 0:
                 new_fn = fn
@@ -118,12 +120,12 @@ def repair_wheel(
         # we need to update those records so each now knows about the new
         # name of the other.
         # we also clear or set RPATH depending on the presence of internal dependencies
-        for _, path in soname_map.values():
+        for path, soname_map in grafted_libs.items():
             needed = elf_read_dt_needed(path)  # TODO perf, we already read those at some point
             replacements = []
             for n in needed:
                 if n in soname_map:
-                    replacements.append((n, soname_map[n][0]))
+                    replacements.append((n, soname_map[n]))
                 elif n in removed_sonames:
                     patcher.remove_needed(path, n)
             if replacements:
@@ -135,9 +137,8 @@ def repair_wheel(
         # strip before applying ELF patches to reduce chances of an invalid ELF being produced
         # as seen in https://github.com/pypa/auditwheel/issues/716
         if strip:
-            libs_to_strip = [path for (_, path) in soname_map.values()]
             extensions = [script_shims.get(path, path) for path in external_refs_by_fn]
-            strip_symbols(itertools.chain(libs_to_strip, extensions))
+            strip_symbols(itertools.chain(grafted_libs, extensions))
 
         patcher.apply_updates()
 
-- 
2.43.0


From 37acb447688fee96ae9f67de6ea4c3d4c80a7739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 07/34] fix: count the libraries to graft for --plat given as
 an alias too

With e.g. --plat manylinux2014_x86_64 no policy matched and the limit on grafted
libraries was 0, so a more compatible tag the wheel qualifies for was not
added as it is with --plat manylinux_2_17_x86_64.
---
 src/auditwheel/wheel_abi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index c38eafe..043e875 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -506,7 +506,10 @@ def analyze_wheel_abi(
             (
                 len(e.libs)
                 for e in external_refs.values()
-                if e.policy.name.startswith(f"{requested_policy_base_name}_")
+                if any(
+                    name.startswith(f"{requested_policy_base_name}_")
+                    for name in (e.policy.name, *e.policy.aliases)
+                )
             ),
             default=0,
         )
-- 
2.43.0


From d30b0f50497dcdfe87b85188fde3dea7f34cef78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:55 +0000
Subject: [PATCH 08/34] fix: don't loop forever on symbolic links that form a
 loop

---
 src/auditwheel/lddtree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index d7dd247..4441c98 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -206,7 +206,10 @@ def readlink(path: str, root: str, *, prefixed: bool = False) -> str:
     if prefixed:
         path = path[len(root) :]
 
-    while os.path.islink(root + path):
+    seen: set[str] = set()
+    # stop at the first link seen again: a loop resolves to nothing that exists
+    while os.path.islink(root + path) and path not in seen:
+        seen.add(path)
         path = os.path.join(os.path.dirname(path), os.readlink(root + path))
 
     return normpath((root + path) if prefixed else path)
-- 
2.43.0


From 8e4942492990e8985dfa806a2792f4aa104fdf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:21 +0000
Subject: [PATCH 09/34] fix: take .. in a library's symbolic link from the real
 directory

---
 src/auditwheel/lddtree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 4441c98..095027a 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -210,7 +210,12 @@ def readlink(path: str, root: str, *, prefixed: bool = False) -> str:
     # stop at the first link seen again: a loop resolves to nothing that exists
     while os.path.islink(root + path) and path not in seen:
         seen.add(path)
-        path = os.path.join(os.path.dirname(path), os.readlink(root + path))
+        parent, target = os.path.dirname(path), os.readlink(root + path)
+        if ".." in target.split("/"):
+            # ".." is the parent of the real directory, not of a link to it
+            parent = os.path.realpath(root + parent)
+            parent = "/" + os.path.relpath(parent, os.path.realpath(root or "/"))
+        path = os.path.join(parent, target)
 
     return normpath((root + path) if prefixed else path)
 
-- 
2.43.0


From a501bbc438206a1d809f9b804c8e24acd2c23791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:36 +0000
Subject: [PATCH 10/34] fix: read loader configuration files in any encoding

---
 src/auditwheel/lddtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 095027a..c8c75aa 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -292,7 +292,7 @@ def parse_ld_so_conf(ldso_conf: str, *, root: str = "/", _first: bool = True) ->
     dbg_pfx = "" if _first else "  "
     try:
         log.debug("%sparse_ld_so_conf(%s)", dbg_pfx, ldso_conf)
-        with open(ldso_conf) as f:
+        with open(ldso_conf, encoding="utf-8", errors="surrogateescape") as f:
             for input_line in f:
                 line = input_line.split("#", 1)[0].strip()
                 if not line:
-- 
2.43.0


From e4d8d499c85cc2f7df3e5a57764e9daf888454d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:50 +0000
Subject: [PATCH 11/34] fix: accept any blanks and several patterns in include
 lines of ld.so.conf

---
 src/auditwheel/lddtree.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index c8c75aa..b22507c 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -297,15 +297,16 @@ def parse_ld_so_conf(ldso_conf: str, *, root: str = "/", _first: bool = True) ->
                 line = input_line.split("#", 1)[0].strip()
                 if not line:
                     continue
-                if line.startswith("include "):
-                    line = line[8:]
-                    if line[0] == "/":
-                        line = root + line.lstrip("/")
-                    else:
-                        line = os.path.dirname(ldso_conf) + "/" + line
-                    log.debug("%s  glob: %s", dbg_pfx, line)
-                    for path in glob.glob(line):
-                        paths += parse_ld_so_conf(path, root=root, _first=False)
+                keyword, *patterns = line.split()
+                if keyword == "include" and patterns:
+                    for pattern in patterns:
+                        if pattern[0] == "/":
+                            line = root + pattern.lstrip("/")
+                        else:
+                            line = os.path.dirname(ldso_conf) + "/" + pattern
+                        log.debug("%s  glob: %s", dbg_pfx, line)
+                        for path in glob.glob(line):
+                            paths += parse_ld_so_conf(path, root=root, _first=False)
                 else:
                     paths += [normpath(root + line)]
     except OSError as e:
-- 
2.43.0


From 6dcf1f8b98c56c35872846b71fd310012d1b0065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:05 +0000
Subject: [PATCH 12/34] fix: read included ld.so.conf files in sorted order

---
 src/auditwheel/lddtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index b22507c..663b12a 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -305,7 +305,7 @@ def parse_ld_so_conf(ldso_conf: str, *, root: str = "/", _first: bool = True) ->
                         else:
                             line = os.path.dirname(ldso_conf) + "/" + pattern
                         log.debug("%s  glob: %s", dbg_pfx, line)
-                        for path in glob.glob(line):
+                        for path in sorted(glob.glob(line)):
                             paths += parse_ld_so_conf(path, root=root, _first=False)
                 else:
                     paths += [normpath(root + line)]
-- 
2.43.0


From 97a297728e9070fc188528c579c5283ae65c8795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:24 +0000
Subject: [PATCH 13/34] =?UTF-8?q?fix:=20don=E2=80=99t=20append=20the=20tru?=
 =?UTF-8?q?sted=20directories=20to=20the=20cached=20ld.so.conf=20directori?=
 =?UTF-8?q?es=20again=20and=20again?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/auditwheel/lddtree.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 663b12a..19a27ab 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -383,9 +383,11 @@ def load_ld_paths(
                 ldpaths["conf"].append(root + ldpath_stripped)
     else:
         # Load up /etc/ld.so.conf.
-        ldpaths["conf"] = parse_ld_so_conf(root + prefix + "/etc/ld.so.conf", root=root)
-        # the trusted directories are not necessarily in ld.so.conf
-        ldpaths["conf"].extend(["/lib", "/lib64/", "/usr/lib", "/usr/lib64"])
+        ldpaths["conf"] = [
+            *parse_ld_so_conf(root + prefix + "/etc/ld.so.conf", root=root),
+            # the trusted directories are not necessarily in ld.so.conf
+            *["/lib", "/lib64/", "/usr/lib", "/usr/lib64"],
+        ]
     log.debug("linker ldpaths: %s", ldpaths)
     return ldpaths
 
-- 
2.43.0


From f6902892b20d3e08217f0035ff7b4504a7f511fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:39 +0000
Subject: [PATCH 14/34] fix: split musl path files at newlines too

---
 src/auditwheel/lddtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 19a27ab..7abf92e 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -376,7 +376,7 @@ def load_ld_paths(
             ]
         else:
             ldpaths["conf"] = []
-            for ldpath in ld_musl[0].read_text().split(":"):
+            for ldpath in re.split("[:\n]", ld_musl[0].read_text()):
                 ldpath_stripped = ldpath.strip()
                 if ldpath_stripped == "":
                     continue
-- 
2.43.0


From 2e278aa039f304e7bb6c3e3269498d5f03788e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:28 +0000
Subject: [PATCH 15/34] fix: don't write the output wheel when the repair
 failed

---
 src/auditwheel/wheeltools.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index 0ac4c3a..9ec9bea 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -137,14 +137,17 @@ class InWheel(InTemporaryDirectory):
         value: BaseException | None,
         tb: TracebackType | None,
     ) -> None:
-        if self.out_wheel is not None:
-            rewrite_record(self.name)
-            date_time = None
-            timestamp = os.environ.get("SOURCE_DATE_EPOCH")
-            if timestamp:
-                date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
-            dir2zip(self.name, self.out_wheel, self.zip_compression_level, date_time)
-        return super().__exit__(exc, value, tb)
+        try:
+            # don't write a wheel that is only half done
+            if self.out_wheel is not None and exc is None:
+                rewrite_record(self.name)
+                date_time = None
+                timestamp = os.environ.get("SOURCE_DATE_EPOCH")
+                if timestamp:
+                    date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
+                dir2zip(self.name, self.out_wheel, self.zip_compression_level, date_time)
+        finally:
+            super().__exit__(exc, value, tb)
 
 
 class InWheelCtx(InWheel):
-- 
2.43.0


From 77ae0518b88d25ec09275db38bfb1e700f732477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:16 +0000
Subject: [PATCH 16/34] fix: don't leave a partial wheel behind when writing it
 fails

---
 src/auditwheel/tools.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/tools.py b/src/auditwheel/tools.py
index 639a065..08230bb 100644
--- a/src/auditwheel/tools.py
+++ b/src/auditwheel/tools.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import argparse
+import contextlib
 import logging
 import os
 import subprocess
@@ -120,6 +121,18 @@ def zip2dir(zip_fname: Path, out_dir: Path) -> None:
     )
 
 
+@contextlib.contextmanager
+def _complete_or_nothing(path: Path) -> Generator[Path]:
+    """Write to a temporary file that gets its name only when it is complete"""
+    tmp_path = path.with_name(f".{os.getpid()}.tmp")
+    try:
+        yield tmp_path
+        tmp_path.replace(path)
+    except BaseException:
+        tmp_path.unlink(missing_ok=True)
+        raise
+
+
 def dir2zip(
     in_dir: Path,
     zip_fname: Path,
@@ -156,7 +169,10 @@ def dir2zip(
         logger.warning("dir2zip, clipping timestamp to 1980-01-01")
         date_time_args = (1980, 1, 1, 0, 0, 0)
     compression = zipfile.ZIP_DEFLATED
-    with zipfile.ZipFile(zip_fname, "w", compression=compression) as z:
+    with (
+        _complete_or_nothing(zip_fname) as tmp_fname,
+        zipfile.ZipFile(tmp_fname, "w", compression=compression) as z,
+    ):
         for dname, _, files in walk(in_dir):
             if dname != in_dir:
                 out_dname = f"{dname.relative_to(in_dir)}/"
-- 
2.43.0


From c25adef01ef4206997d9245e9ac0e59c6aea132a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:33 +0000
Subject: [PATCH 17/34] fix: make the permissions in a repaired wheel
 independent of the umask

---
 src/auditwheel/repair.py | 4 +++-
 src/auditwheel/tools.py  | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index 8d485a2..533c154 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -155,7 +155,9 @@ def repair_wheel(
         if sbom_data:
             sbom_dir = Path(dist_info_dirs[0], "sboms")
             sbom_dir.mkdir(exist_ok=True)
-            (sbom_dir / "auditwheel.cdx.json").write_text(json.dumps(sbom_data))
+            sbom_path = sbom_dir / "auditwheel.cdx.json"
+            sbom_path.write_text(json.dumps(sbom_data))
+            sbom_path.chmod(0o644)
 
     return output_wheel
 
diff --git a/src/auditwheel/tools.py b/src/auditwheel/tools.py
index 08230bb..4ed9b09 100644
--- a/src/auditwheel/tools.py
+++ b/src/auditwheel/tools.py
@@ -4,6 +4,7 @@ import argparse
 import contextlib
 import logging
 import os
+import stat
 import subprocess
 import time
 import zipfile
@@ -113,6 +114,9 @@ def zip2dir(zip_fname: Path, out_dir: Path) -> None:
                 attr &= 511  # only keep permission bits
                 attr |= 6 << 6  # at least read/write for current user
                 extracted_path.chmod(attr)
+            else:
+                # no permissions recorded: don't depend on the umask
+                extracted_path.chmod(0o644)
     logger.debug(
         "zip2dir from %s to %s takes %s",
         zip_fname,
@@ -178,6 +182,7 @@ def dir2zip(
                 out_dname = f"{dname.relative_to(in_dir)}/"
                 zinfo = zipfile.ZipInfo.from_file(dname, out_dname)
                 zinfo.date_time = date_time_args
+                zinfo.external_attr = (stat.S_IFDIR | 0o755) << 16 | 0x10
                 z.writestr(zinfo, b"")
             for file in files:
                 fname = dname / file
-- 
2.43.0


From 7908757fabea9df66269607da17ef63a3bc1020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:42 +0000
Subject: [PATCH 18/34] fix: ignore packages of other files that apt-file
 finds, list packages in a fixed order

---
 src/auditwheel/_vendor/whichprovides/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/_vendor/whichprovides/__init__.py b/src/auditwheel/_vendor/whichprovides/__init__.py
index fa3e3fe..8031dad 100644
--- a/src/auditwheel/_vendor/whichprovides/__init__.py
+++ b/src/auditwheel/_vendor/whichprovides/__init__.py
@@ -328,8 +328,9 @@ def whichprovides(filepath: typing.Union[str, list[str]]) -> dict[str, ProvidedB
         filepath_provided_by.update(results)
 
     return {
-        resolved_filepaths[filepath]: value
-        for filepath, value in filepath_provided_by.items()
+        filepath: filepath_provided_by[resolved]
+        for resolved, filepath in resolved_filepaths.items()
+        if resolved in filepath_provided_by
     }
 
 
-- 
2.43.0


From 7f9609a72218036d32b49cf6ecc7dc8f3a172b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:17 +0000
Subject: [PATCH 19/34] fix: split names of apk packages that contain a dash at
 the version

---
 src/auditwheel/_vendor/whichprovides/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/_vendor/whichprovides/__init__.py b/src/auditwheel/_vendor/whichprovides/__init__.py
index 8031dad..7ec14bb 100644
--- a/src/auditwheel/_vendor/whichprovides/__init__.py
+++ b/src/auditwheel/_vendor/whichprovides/__init__.py
@@ -18,7 +18,7 @@ __all__ = ["ProvidedBy", "whichprovides"]
 __version__ = "0.4.0"
 
 _OS_RELEASE_LINES_RE = re.compile(r"^([A-Z_]+)=(?:\"([^\"]*)\"|(.*))$", re.MULTILINE)
-_APK_WHO_OWNS_RE = re.compile(r" is owned by ([^\s\-]+)-([^\s]+)$", re.MULTILINE)
+_APK_WHO_OWNS_RE = re.compile(r" is owned by ([^\s]+?)-(\d[^\s\-]*(?:-r\d+)?)$", re.MULTILINE)
 _DPKG_SEARCH_RE = re.compile(r"^([^:]+):")
 _DPKG_VERSION_RE = re.compile(r"^Version: ([^\s]+)", re.MULTILINE)
 _APT_FILE_SEARCH_RE = re.compile(r"^([^:]+): (.+)$", re.MULTILINE)
-- 
2.43.0


From 5b02aeceb78de6eb2ae664c68d9a86fc3bcc95c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:49 +0000
Subject: [PATCH 20/34] fix: treat external libraries in a fixed order

---
 src/auditwheel/policy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/policy/__init__.py b/src/auditwheel/policy/__init__.py
index b55fc59..fb9b4bc 100644
--- a/src/auditwheel/policy/__init__.py
+++ b/src/auditwheel/policy/__init__.py
@@ -282,7 +282,7 @@ class WheelPolicies:
                 )
 
             pol_ext_deps: dict[str, Path | None] = {}
-            for lib in needed_external_libs:
+            for lib in sorted(needed_external_libs):
                 if is_subdir(lddtree.libraries[lib].realpath, wheel_path):
                     # we didn't filter libs that resolved via RPATH out
                     # earlier because we wanted to make sure to pick up
-- 
2.43.0


From dcb2adba624f41d7c1ebe86a70dd505e809f0ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:00 +0000
Subject: [PATCH 21/34] fix: recognize libpython of debug and free-threaded
 builds

---
 src/auditwheel/lddtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 7abf92e..a9c068d 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -37,7 +37,7 @@ log = logging.getLogger(__name__)
 __all__ = ["LIBPYTHON_RE", "DynamicExecutable", "DynamicLibrary", "ldd"]
 
 # Regex to match libpython shared library names
-LIBPYTHON_RE = re.compile(r"^libpython\d+\.\d+m?.so(\.\d)*$")
+LIBPYTHON_RE = re.compile(r"^libpython\d+\.\d+[dmtu]*.so(\.\d)*$")
 
 # Regex to match ORIGIN references in rpaths.
 ORIGIN_RE = re.compile(r"\$(ORIGIN|\{ORIGIN\})")
-- 
2.43.0


From c6181ef59857c9665d208e464379f85e6302a5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 22/34] fix: let clear_rpath undo an earlier set_rpath

---
 src/auditwheel/patcher.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/patcher.py b/src/auditwheel/patcher.py
index e2e9d28..5717869 100644
--- a/src/auditwheel/patcher.py
+++ b/src/auditwheel/patcher.py
@@ -74,7 +74,9 @@ class ElfPatcher:
         return self.get_rpath_direct(file_name)
 
     def clear_rpath(self, file_name: Path) -> None:
-        self._update_for(file_name).clear_rpath = True
+        update_info = self._update_for(file_name)
+        update_info.rpath = None
+        update_info.clear_rpath = True
 
     def update_elf_path(self, old_file_name: Path, new_file_name: Path) -> None:
         old_key = old_file_name.resolve(strict=True)
-- 
2.43.0


From cc4c244fb9d6da5ab80b46550c70b12b4a8b8150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 23/34] fix: read RECORD as a CSV file in UTF-8

Names with line separators other than a newline, or with a newline, were
split; blank lines failed; the encoding depended on the locale.
---
 src/auditwheel/wheeltools.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index 9ec9bea..32272cf 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -189,11 +189,10 @@ class InWheelCtx(InWheel):
             msg = "This function should be called from context manager"
             raise ValueError(msg)
         record_name = _dist_info_dir(self.path) / "RECORD"
-        record = record_name.read_text()
-        reader = csv.reader(r for r in record.splitlines())
-        for row in reader:
-            filename = row[0]
-            yield Path(filename)
+        with record_name.open(newline="", encoding="utf-8") as record_file:
+            for row in filter(None, csv.reader(record_file)):
+                filename = row[0]
+                yield Path(filename)
 
 
 def add_platforms(
-- 
2.43.0


From 9306f6bae8b1cf47d4253108c8a1bd484e470f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 24/34] fix: refuse wheels whose RECORD lists files outside the
 wheel

repair would have edited an ELF file listed so in place.
---
 src/auditwheel/wheeltools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index 32272cf..de4f730 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -24,7 +24,7 @@ from auditwheel.architecture import Architecture
 from auditwheel.error import NonPlatformWheelError, WheelToolsError
 from auditwheel.libc import Libc
 from auditwheel.tmpdirs import InTemporaryDirectory
-from auditwheel.tools import dir2zip, unique_by_index, walk, zip2dir
+from auditwheel.tools import dir2zip, is_subdir, unique_by_index, walk, zip2dir
 
 if TYPE_CHECKING:
     from collections.abc import Generator, Iterable
@@ -192,6 +192,9 @@ class InWheelCtx(InWheel):
         with record_name.open(newline="", encoding="utf-8") as record_file:
             for row in filter(None, csv.reader(record_file)):
                 filename = row[0]
+                if not is_subdir(self.path / filename, self.path):
+                    msg = f"RECORD lists a file outside the wheel: {filename!r}"
+                    raise WheelToolsError(msg)
                 yield Path(filename)
 
 
-- 
2.43.0


From 2c03a1b3825ae5aaa3b5078d34d1805007f57df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:01 +0000
Subject: [PATCH 25/34] fix: sort symbol versions of more than three components

libz defines versions such as ZLIB_1.2.3.4.
---
 scripts/calculate_symbol_versions.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scripts/calculate_symbol_versions.py b/scripts/calculate_symbol_versions.py
index 787a3d9..34f1a63 100644
--- a/scripts/calculate_symbol_versions.py
+++ b/scripts/calculate_symbol_versions.py
@@ -48,7 +48,6 @@ def find_library(library):
 def versionify(version_string):
     try:
         result = [int(n) for n in version_string.split(".")]
-        assert len(result) <= 3  # noqa: S101
     except ValueError:
         result = [999999, 999999, 999999, version_string]
     return result
-- 
2.43.0


From ee687c9ecbeb461cdf5404a937145eca3d1053cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:01 +0000
Subject: [PATCH 26/34] fix: calculate the symbol versions of the architecture
 at hand

The versions of a policy are keyed by architecture: the script printed an
empty list for each architecture.
---
 scripts/calculate_symbol_versions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/calculate_symbol_versions.py b/scripts/calculate_symbol_versions.py
index 34f1a63..642856c 100644
--- a/scripts/calculate_symbol_versions.py
+++ b/scripts/calculate_symbol_versions.py
@@ -13,6 +13,8 @@ import platform
 
 from elftools.elf.elffile import ELFFile
 
+from auditwheel.architecture import Architecture
+
 if platform.architecture()[0] == "64bit":
     LIBRARY_PATHS = ["/lib64", "/usr/lib64"]
 else:
@@ -83,7 +85,7 @@ def main():
         json.dumps(
             calculate_symbol_versions(
                 policy["lib_whitelist"],
-                policy["symbol_versions"],
+                policy["symbol_versions"].get(Architecture.detect().value, {}),
                 arch,
             ),
         ),
-- 
2.43.0


From 5d52280197c55ee523d456d66da8ee833b1acc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:01 +0000
Subject: [PATCH 27/34] fix: skip candidates for a library that are no ELF
 files

---
 src/auditwheel/lddtree.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index a9c068d..678cf27 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -23,6 +23,7 @@ from dataclasses import dataclass
 from fnmatch import fnmatch
 from pathlib import Path
 
+from elftools.common.exceptions import ELFError
 from elftools.elf.constants import E_FLAGS
 from elftools.elf.dynamic import DynamicSegment
 from elftools.elf.elffile import ELFFile
@@ -434,9 +435,13 @@ def find_lib(
         path = os.path.join(ldpath, lib)
         target = Path(readlink(path, root, prefixed=True))
 
-        if target.exists():
+        if target.is_file():
             with open(target, "rb") as f:
-                libelf = ELFFile(f)
+                try:
+                    libelf = ELFFile(f)
+                except ELFError:
+                    log.debug("%s is not an ELF file, skipping", target)
+                    continue
                 if platform.is_compatible(_get_platform(libelf)):
                     return target, path
 
-- 
2.43.0


From ca622a3016b32b478d5b689b8bacc06b18812796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:54 +0000
Subject: [PATCH 28/34] fix: expand $ORIGIN in directories whose name contains
 a backslash

---
 src/auditwheel/lddtree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 678cf27..6b13ad2 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -261,7 +261,8 @@ def parse_ld_paths(str_ldpaths: str, path: str = "", root: str = "") -> list[str
             if not path:
                 msg = "can't expand $ORIGIN without a path"
                 raise ValueError(msg)
-            ldpath_ = re.sub(ORIGIN_RE, os.path.dirname(os.path.abspath(path)), ldpath)
+            # a function: backslashes in the name of the directory would be special in a template
+            ldpath_ = re.sub(ORIGIN_RE, lambda _: os.path.dirname(os.path.abspath(path)), ldpath)
         else:
             ldpath_ = root + ldpath
         ldpaths.append(normpath(ldpath_))
-- 
2.43.0


From f1bd8d83ba322cc75a937caaae6458d82a41f770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:02 +0000
Subject: [PATCH 29/34] fix: stop at the last version entry of a damaged ELF
 file

---
 src/auditwheel/elfutils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/auditwheel/elfutils.py b/src/auditwheel/elfutils.py
index 7f1b131..8a232de 100644
--- a/src/auditwheel/elfutils.py
+++ b/src/auditwheel/elfutils.py
@@ -58,7 +58,13 @@ def elf_file_filter(paths: Iterable[Path]) -> Iterator[tuple[Path, ELFFile]]:
 
 def elf_find_versioned_symbols(elf: ELFFile) -> Iterator[tuple[str, str]]:
     if section := _get_section_by_type(elf, GNUVerNeedSection):
+        last = False
         for verneed, verneed_iter in section.iter_versions():
+            if last:
+                # the count in the section header is too high: without this the
+                # last entry, which has no next one, would be read over and over
+                break
+            last = verneed.entry.vn_next == 0
             if TYPE_CHECKING:
                 # this should be enforced some other way in pyelftools
                 assert verneed.name is not None
-- 
2.43.0


From eedc9e39887cc9806fe6e83c59eb3b2c53dbffcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 30/34] fix: count the symbol versions of all external
 libraries of one name

---
 src/auditwheel/wheel_abi.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index 043e875..b024f74 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -311,14 +311,13 @@ def get_versioned_symbols(libs: dict[Path, str]) -> dict[str, dict[str, set[str]
     :return: {soname: {depname: set([symbol_version])}} e.g.
     {'external_ref.so.1': {'libc.so.6', set(['GLIBC_2.5','GLIBC_2.12'])}}
     """
-    result = {}
+    result: dict[str, dict[str, set[str]]] = {}
     for path, elf in elf_file_filter(libs.keys()):
         # {depname: set(symbol_version)}, e.g. {'libc.so.6', set(['GLIBC_2.5','GLIBC_2.12'])}
-        elf_versioned_symbols: dict[str, set[str]] = defaultdict(set)
+        elf_versioned_symbols = result.setdefault(libs[path], defaultdict(set))
         for key, value in elf_find_versioned_symbols(elf):
             log.debug("path %s, key %s, value %s", path, key, value)
             elf_versioned_symbols[key].add(value)
-        result[libs[path]] = elf_versioned_symbols
     return result
 
 
@@ -467,6 +466,10 @@ def analyze_wheel_abi(
     log.debug(json.dumps(external_refs))
 
     external_libs = get_external_libs(external_refs)
+    # the merged references hold one library per name, but files of the wheel may find
+    # different libraries under the same name
+    for fn in elftree_by_fn:
+        external_libs = get_external_libs(external_refs_by_fn[fn]) | external_libs
     external_versioned_symbols = get_versioned_symbols(external_libs)
     symbol_policies = get_symbol_policies(
         policies,
-- 
2.43.0


From e2f82e71e06508d604483da6fec99dcd21325753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:09 +0000
Subject: [PATCH 31/34] fix: mark a wheel platlib when any is replaced in its
 file name only

---
 src/auditwheel/wheeltools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index de4f730..e1a1366 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -273,7 +273,7 @@ def add_platforms(
     unwanted_tags = ["-".join(tup) for tup in product(pyc_apis, to_remove)]
     updated_tags = [tag for tag in in_info_tags if tag not in unwanted_tags]
     updated_tags += new_tags
-    if updated_tags != in_info_tags:
+    if updated_tags != in_info_tags or definitely_not_purelib:
         del info["Tag"]
         for tag in updated_tags:
             info.add_header("Tag", tag)
-- 
2.43.0


From e3d5a4833ee68e6c668a74c5224f518089d35f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:19 +0000
Subject: [PATCH 32/34] fix: skip libraries and directories that are not
 permitted to be read when searching

---
 src/auditwheel/lddtree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 6b13ad2..3de18f2 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -436,7 +436,8 @@ def find_lib(
         path = os.path.join(ldpath, lib)
         target = Path(readlink(path, root, prefixed=True))
 
-        if target.is_file():
+        # like the ldso, skip what the user is not permitted to read
+        if os.path.isfile(target) and os.access(target, os.R_OK):
             with open(target, "rb") as f:
                 try:
                     libelf = ELFFile(f)
-- 
2.43.0


From aebf92d4929fe29c3ddc247c1139cbd51fed57e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:08 +0000
Subject: [PATCH 33/34] fix: a configuration file of the loader that includes
 itself must not end the audit

---
 src/auditwheel/lddtree.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 3de18f2..27b9ae0 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -270,7 +270,13 @@ def parse_ld_paths(str_ldpaths: str, path: str = "", root: str = "") -> list[str
 
 
 @functools.lru_cache
-def parse_ld_so_conf(ldso_conf: str, *, root: str = "/", _first: bool = True) -> list[str]:
+def parse_ld_so_conf(
+    ldso_conf: str,
+    *,
+    root: str = "/",
+    _first: bool = True,
+    _parents: frozenset[str] = frozenset(),
+) -> list[str]:
     """Load all the paths from a given ldso config file
 
     This should handle comments, whitespace, and "include" statements.
@@ -283,6 +289,8 @@ def parse_ld_so_conf(ldso_conf: str, *, root: str = "/", _first: bool = True) ->
         The path to prepend to all paths found
     _first
         Recursive use only; is this the first ELF?
+    _parents
+        Recursive use only; the files that include this one
 
     Returns
     -------
@@ -290,6 +298,7 @@ def parse_ld_so_conf(ldso_conf: str, *, root: str = "/", _first: bool = True) ->
 
     """
     paths: list[str] = []
+    _parents |= {os.path.realpath(ldso_conf)}
 
     dbg_pfx = "" if _first else "  "
     try:
@@ -308,7 +317,15 @@ def parse_ld_so_conf(ldso_conf: str, *, root: str = "/", _first: bool = True) ->
                             line = os.path.dirname(ldso_conf) + "/" + pattern
                         log.debug("%s  glob: %s", dbg_pfx, line)
                         for path in sorted(glob.glob(line)):
-                            paths += parse_ld_so_conf(path, root=root, _first=False)
+                            if os.path.realpath(path) in _parents:
+                                log.warning("%s includes itself", path)
+                                continue
+                            paths += parse_ld_so_conf(
+                                path,
+                                root=root,
+                                _first=False,
+                                _parents=_parents,
+                            )
                 else:
                     paths += [normpath(root + line)]
     except OSError as e:
-- 
2.43.0


From 70436aa19333b44454a11d48c537a9ebe25ecc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:08 +0000
Subject: [PATCH 34/34] fix: relative search paths refer to the user's
 directory, not the unpacked wheel

---
 src/auditwheel/lddtree.py   | 34 +++++++++++++++++++++++++---------
 src/auditwheel/wheel_abi.py | 11 ++++++++++-
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 27b9ae0..eebdf70 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -227,7 +227,12 @@ def dedupe(items: list[str]) -> list[str]:
     return [seen.setdefault(x, x) for x in items if x not in seen]
 
 
-def parse_ld_paths(str_ldpaths: str, path: str = "", root: str = "") -> list[str]:
+def parse_ld_paths(
+    str_ldpaths: str,
+    path: str = "",
+    root: str = "",
+    cwd: str | None = None,
+) -> list[str]:
     """Parse the colon-delimited list of paths and apply ldso rules to each
 
     Note the special handling as dictated by the ldso:
@@ -243,6 +248,8 @@ def parse_ld_paths(str_ldpaths: str, path: str = "", root: str = "") -> list[str
         The path to prepend to all paths found
     path
         The object actively being parsed (used for $ORIGIN)
+    cwd
+        The directory relative paths refer to (the current directory if None)
 
     Returns
     -------
@@ -256,7 +263,7 @@ def parse_ld_paths(str_ldpaths: str, path: str = "", root: str = "") -> list[str
     for ldpath in str_ldpaths.split(":"):
         if ldpath == "":
             # The ldso treats "" paths as $PWD.
-            ldpath_ = os.getcwd()
+            ldpath_ = cwd or os.getcwd()
         elif re.search(ORIGIN_RE, ldpath):
             if not path:
                 msg = "can't expand $ORIGIN without a path"
@@ -264,7 +271,7 @@ def parse_ld_paths(str_ldpaths: str, path: str = "", root: str = "") -> list[str
             # a function: backslashes in the name of the directory would be special in a template
             ldpath_ = re.sub(ORIGIN_RE, lambda _: os.path.dirname(os.path.abspath(path)), ldpath)
         else:
-            ldpath_ = root + ldpath
+            ldpath_ = os.path.join(cwd or "", root + ldpath)
         ldpaths.append(normpath(ldpath_))
     return [p for p in dedupe(ldpaths) if os.path.isdir(p)]
 
@@ -345,6 +352,7 @@ def load_ld_paths(
     libc: Libc | None,
     root: str = "/",
     prefix: str = "",
+    cwd: str | None = None,
 ) -> dict[str, list[str]]:
     """Load linker paths from common locations
 
@@ -356,6 +364,8 @@ def load_ld_paths(
         The root tree to prepend to paths
     prefix
         The path under ``root`` to search
+    cwd
+        The directory relative paths refer to (the current directory if None)
 
     Returns
     -------
@@ -379,7 +389,7 @@ def load_ld_paths(
         # on a per-ELF basis so it can get turned into the right thing.
         # don't pass root: in case root != "/", only AUDITWHEEL_LD_LIBRARY_PATH is checked
         # it shall already contain fully resolved paths
-        ldpaths["env"] = parse_ld_paths(env_ldpath, path="")
+        ldpaths["env"] = parse_ld_paths(env_ldpath, path="", cwd=cwd)
 
     if libc == Libc.MUSL:
         # from https://git.musl-libc.org/cgit/musl/tree/ldso
@@ -411,15 +421,18 @@ def load_ld_paths(
     return ldpaths
 
 
-def ld_paths_from_arg(args_ldpaths: str | None) -> dict[str, list[str]] | None:
+def ld_paths_from_arg(
+    args_ldpaths: str | None,
+    cwd: str | None = None,
+) -> dict[str, list[str]] | None:
     """Load linker paths from the --ldpaths option and the environment."""
     if args_ldpaths is None:
         # The option was not provided, so fall back on load_ld_paths.
         return None
 
     return {
-        "conf": parse_ld_paths(args_ldpaths),
-        "env": parse_ld_paths(os.environ.get("AUDITWHEEL_LD_LIBRARY_PATH", "")),
+        "conf": parse_ld_paths(args_ldpaths, cwd=cwd),
+        "env": parse_ld_paths(os.environ.get("AUDITWHEEL_LD_LIBRARY_PATH", ""), cwd=cwd),
         "interp": [],
     }
 
@@ -475,6 +488,7 @@ def ldd(
     display: str | None = None,
     exclude: frozenset[str] = frozenset(),
     _all_libs: dict[str, DynamicLibrary] | None = None,
+    cwd: str | None = None,
 ) -> DynamicExecutable:
     """Parse the ELF dependency tree of the specified file
 
@@ -497,6 +511,8 @@ def ldd(
         List of soname (DT_NEEDED) to exclude from the tree
     _all_libs
         Recursive use only; dict of all libs we've seen
+    cwd
+        The directory relative paths in the environment refer to (the current directory if None)
 
     Returns
     -------
@@ -553,7 +569,7 @@ def ldd(
                 # if we have an interpreter and it's not MUSL, assume GLIBC
                 libc = Libc.MUSL if soname.startswith("ld-musl-") else Libc.GLIBC
                 if ldpaths is None:
-                    ldpaths = load_ld_paths(libc).copy()
+                    ldpaths = load_ld_paths(libc, cwd=cwd).copy()
                 # TODO: Should read it and scan for /lib paths.
                 ldpaths["interp"] = [
                     normpath(root + os.path.dirname(interp)),
@@ -615,7 +631,7 @@ def ldd(
                     libc = Libc.GLIBC
 
         if ldpaths is None:
-            ldpaths = load_ld_paths(libc).copy()
+            ldpaths = load_ld_paths(libc, cwd=cwd).copy()
         # Propagate the rpaths used by the main ELF since those will be
         # used at runtime to locate things.
         ldpaths["rpath"] = rpaths
diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index b024f74..85004ed 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -4,6 +4,7 @@ import dataclasses
 import functools
 import itertools
 import logging
+import os
 from collections import defaultdict
 from copy import deepcopy
 from dataclasses import dataclass
@@ -137,6 +138,9 @@ def get_wheel_elfdata(
     if libc == Libc.ANDROID and args_ldpaths is None:
         args_ldpaths = ""
 
+    # what the user gave is relative to this directory and not to the unpacked wheel
+    cwd = os.getcwd()
+
     with InGenericPkgCtx(wheel_fn) as ctx:
         shared_libraries_in_purelib = []
         shared_libraries_with_invalid_machine = []
@@ -156,7 +160,12 @@ def get_wheel_elfdata(
             # to fail and there's no need to do further checks
             if not shared_libraries_in_purelib:
                 log.debug("processing: %s", fn)
-                elftree = ldd(fn, exclude=exclude, ldpaths=ld_paths_from_arg(args_ldpaths))
+                elftree = ldd(
+                    fn,
+                    exclude=exclude,
+                    ldpaths=ld_paths_from_arg(args_ldpaths, cwd),
+                    cwd=cwd,
+                )
 
                 try:
                     elf_arch = elftree.platform.baseline_architecture
-- 
2.43.0

