"""Writes /verif/properties.jsonl (the text of every property lives here)."""
import json, pathlib
S = "src/auditwheel/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f if not f.startswith("scripts/") else f for f in files],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
            "observe_at": observe or [],
            "hook_needed": hook,
        },
    })

p("C01", "The reported platform tag is exactly the strongest one the wheel satisfies",
  "For every platform wheel, the overall tag that `auditwheel show` reports is the highest-priority policy of the wheel's libc and architecture for which all of these hold: every symbol version that an ELF file of the wheel needs is allowed by the policy, no library outside the policy's whitelist is needed from outside the wheel, no top-level ELF file (extension module, or file nothing else in the wheel needs) uses a symbol the policy blacklists or, itself or through a library from outside the wheel, an instruction-set extension beyond the baseline, and no extension module references narrow-unicode (UCS2) or PyFPE symbols. When no such policy exists the tag is `linux_<arch>`. It is never a more compatible tag than that and never a less compatible one.",
  ["inputs", "programs"], "all wheels (any number of extensions, libraries and executables), all sets of needed libraries, symbol versions, undefined symbols and ISA notes, all supported libc/architecture pairs",
  "The tests analyse about twenty bundled wheels, each at one point of the product of policies, prefixes, architectures and ELF contents; a wrong comparison for one prefix, architecture, policy or file kind is not reached.",
  ["wheel_abi.py", "policy/__init__.py", "elfutils.py", "lddtree.py", "policy/manylinux-policy.json", "policy/musllinux-policy.json"],
  [("analyze_wheel_abi", S+"wheel_abi.py"), ("WheelPolicies.versioned_symbols_policy", S+"policy/__init__.py"), ("WheelPolicies.lddtree_external_references", S+"policy/__init__.py"), ("_get_machine_policy", S+"wheel_abi.py"), ("elf_find_versioned_symbols / elf_find_ucs2_symbols / elf_references_pyfpe_jbuf", S+"elfutils.py")],
  ["auditwheel show --json: overall_tag, sym_tag, ucs2, pyfpe, unsupported_isa", "analyze_wheel_abi(...).overall_policy"])

p("C02", "External libraries are accounted for completely, per policy",
  "For every wheel and every policy, the external libraries reported are exactly the libraries reachable from the wheel's extension modules and its ELF files that nothing else in the wheel needs (or that only need each other), through needed-library entries without passing through a library that the policy whitelists, leaving out the dynamic loader, libraries found inside the wheel and excluded libraries. Each is reported with the real path of the file it resolves to, or as unlocated if there is none. The blacklisted symbols reported for a policy are exactly the non-weak undefined symbols of these files that the policy blacklists for a library they need directly, and the symbol versions reported are those needed by the wheel's files together with those of the libraries that a policy giving the verdict would graft, nothing else.",
  ["inputs", "programs"], "all dependency graphs (chains, diamonds, cycles, wheel-internal and external nodes, missing libraries, symbolic links), all policies, libcs and architectures",
  "The tests check the external libraries of three prebuilt wheels; graph shapes, per-policy whitelists and unlocated libraries are not varied.",
  ["policy/__init__.py", "wheel_abi.py", "lddtree.py", "elfutils.py"],
  [("WheelPolicies.lddtree_external_references", S+"policy/__init__.py"), ("update", S+"wheel_abi.py"), ("ldd", S+"lddtree.py"), ("filter_undefined_symbols", S+"elfutils.py")],
  ["analyze_wheel_abi(...).external_refs", "auditwheel show --json: external_libs, policy_upgrades"])

p("C03", "The verdict depends only on requirements, and more requirements never help",
  "For wheels whose architecture and libc are unambiguous, adding a requirement to a wheel (a needed library from outside the wheel, a symbol version, a blacklisted symbol, an ISA note, one more ELF file) never makes its reported tag more compatible. Changes that carry no requirement - order of archive members and of RECORD lines, pure-Python or data files, renaming data files and libraries that nothing needs, compression, weak symbols, where the wheel lies on disk, what was analysed earlier in the same process - never change the reported tag, symbol versions or libraries.",
  ["inputs", "histories"], "all wheels, all single additions of a requirement and all neutral rewrites of a wheel, all orders of analyses in one process",
  "Relations between pairs of runs are not tested at all; tests analyse single wheels.",
  ["wheel_abi.py", "policy/__init__.py", "elfutils.py", "wheeltools.py"],
  [("analyze_wheel_abi / get_wheel_elfdata (memoised)", S+"wheel_abi.py"), ("get_symbol_policies", S+"wheel_abi.py")],
  ["auditwheel show --json"])

p("C04", "Foreign-architecture, foreign-libc and purelib binaries never pass silently",
  "The architecture and libc a wheel is audited for come from its filename, or when the name does not say, from its ELF files; every ELF file of another or unknown architecture, or of another libc, is left out of the verdict with a warning naming it. A wheel in which no ELF file of its architecture remains is rejected with an error and exit status 1, listing the offending files if there are any, and a file that needs two libcs at once is rejected. A wheel with an ELF file anywhere below a `purelib` directory is always rejected, naming that file.",
  ["inputs"], "all combinations of filename tags and ELF headers (machine, class, byte order, ARM float ABI, interpreter, libc dependency), any number of files",
  "Tests use nine prebuilt one-module wheels; mixes of architectures in one wheel, class/endianness variants and purelib layouts are not generated.",
  ["wheel_abi.py", "lddtree.py", "wheeltools.py", "architecture.py", "error.py", "libc.py"],
  [("get_wheel_elfdata", S+"wheel_abi.py"), ("_get_platform", S+"lddtree.py"), ("get_wheel_architecture / get_wheel_libc", S+"wheeltools.py")],
  ["auditwheel show exit status, error text, log"])

p("C05", "The machine-readable report obeys its schema and agrees with the text report",
  "For every wheel, `auditwheel show --json` prints exactly one JSON document that validates against the published schema, and exits 0 exactly when it describes a platform wheel or a permitted pure wheel. The document and the text report of the same wheel agree on the tag, the symbol versions and what has to be eliminated to reach each higher policy, and the text lists no external library that the document does not. Versioned symbols and library lists are sorted and free of duplicates.",
  ["inputs", "configurations"], "all wheels, both output modes, all verbosity levels, pure / invalid / platform wheels",
  "Tests of --json mock the analysis and check a dozen hand-made results; the real analysis is never fed through the schema.",
  ["main_show.py", "json.py", "show-schema.json"],
  [("_output_json / execute", S+"main_show.py"), ("dumps", S+"json.py")],
  ["stdout and exit status of auditwheel show"])

p("C06", "Library resolution agrees with the dynamic loader",
  "For every ELF file and directory layout, each needed library resolves, following symbolic links to the final file, to the first readable file of a compatible ELF type along the documented search order: RPATH of the main file, RPATH or RUNPATH of the file that needs it, the library-path environment variables, RUNPATH of the main file, configured directories, the directories of the main file's interpreter; where the dynamic loader searches in the same order it opens the same file. $ORIGIN is the directory of the real file that carries the entry, an empty entry means the current directory and relative ones start there, and RUNPATH suppresses RPATH in the same file. Needed libraries are reported in file order, each name is looked up once, and cycles, missing libraries and symbolic-link loops do not prevent termination.",
  ["inputs", "configurations"], "all dependency graphs and directory layouts with RPATH / RUNPATH / environment / option paths, symbolic links, duplicates and incompatible candidates",
  "Unit tests cover one wheel and the parsing of path lists; resolution order and the ELF-compatibility skip are not tested against any loader.",
  ["lddtree.py", "main_lddtree.py"],
  [("ldd", S+"lddtree.py"), ("find_lib", S+"lddtree.py"), ("parse_ld_paths", S+"lddtree.py"), ("readlink", S+"lddtree.py"), ("Platform.is_compatible", S+"lddtree.py")],
  ["auditwheel lddtree FILE", "ldd(path).libraries"])

p("C07", "Loader search-path configuration is read as the loader reads it",
  "Reading a loader configuration file yields its directories in file order with comments and blanks ignored, each included file's directories at the place of the include (several matches of one include in sorted order), without duplicates and without directories that do not exist. For musl the directories of the loader path file are used, or the three defaults if there is none. The environment variables contribute first the AUDITWHEEL_ one, then the ordinary one; `--ldpaths` replaces the configured directories and the ordinary variable but not the AUDITWHEEL_ one; a missing or unreadable file contributes nothing.",
  ["inputs", "configurations"], "all configuration trees (nested includes, globs, comments, duplicates), all values of the two environment variables and the option",
  "Only path-list parsing has unit tests; configuration files are never parsed by a test, and the host's own file is the only input reached.",
  ["lddtree.py", "options.py"],
  [("parse_ld_so_conf", S+"lddtree.py"), ("load_ld_paths", S+"lddtree.py"), ("ld_paths_from_arg", S+"lddtree.py")],
  ["parse_ld_so_conf", "load_ld_paths", "resolution by auditwheel lddtree"])

p("C08", "Excluded libraries, and only they, are left out",
  "A library whose name, or whose resolved path, matches an `--exclude` pattern is neither reported, grafted nor renamed, and is not followed for further dependencies; the entry naming it stays in the files that need it. A dependency that is also reachable through a library that is not excluded is still grafted, and patterns that match nothing change nothing.",
  ["inputs", "configurations"], "all dependency graphs and all sets of glob patterns over names and paths",
  "Tests run one wheel with a handful of patterns; interaction of exclusion with shared dependencies and with the rewriting of grafted libraries is not tested.",
  ["lddtree.py", "main_repair.py", "wheel_abi.py", "repair.py"],
  [("ldd (exclude)", S+"lddtree.py"), ("repair_wheel", S+"repair.py")],
  ["contents of the repaired wheel", "DT_NEEDED of its files"])

p("C09", "A repaired wheel is self-contained and still runs",
  "After `auditwheel repair` succeeds, every library that any audited ELF file in the output needs is whitelisted by the policy of the new tag, excluded, the dynamic loader, or a file inside the wheel that the loader finds through the RPATH/RUNPATH stored in the wheel, wherever it is unpacked and with the original libraries removed. Each reference is bound to the same library (by original content) as before the repair.",
  ["inputs", "configurations"], "all wheels and dependency graphs over external libraries, wheel-internal libraries, nested package directories, library subdirectory names, architectures, RPATH/RUNPATH layouts",
  "The end-to-end tests that load repaired wheels need Docker and cover six fixed C projects; the runnable suite only repairs two prebuilt wheels.",
  ["repair.py", "patcher.py", "policy/__init__.py", "lddtree.py"],
  [("repair_wheel", S+"repair.py"), ("append_rpath_within_wheel", S+"repair.py"), ("_Patchelf.apply_updates", S+"patcher.py"), ("copylib", S+"repair.py")],
  ["dlopen of the repaired files in a clean directory; DT_NEEDED/RPATH closure"])

p("C10", "Repair preserves everything it has no reason to change",
  "Every file of the input wheel is present in the repaired wheel at the same path with the same permissions (owner read and write added, 0644 where the archive records none), and files other than the RECORD, the WHEEL metadata and the ELF files that had to be rewired are byte-identical. The only added files are grafted libraries, their directory, the SBOM and relocated scripts, and a signature over the old RECORD is dropped. A rewired ELF file keeps its machine, symbols, symbol versions, code and data.",
  ["inputs", "configurations"], "all wheels (file names, sizes, permissions, nested and empty directories, metadata files), all repair options without --strip",
  "Tests check one prebuilt archive's permissions and one WHEEL file; no test compares a whole wheel before and after.",
  ["repair.py", "wheeltools.py", "tools.py"],
  [("zip2dir / dir2zip", S+"tools.py"), ("rewrite_record", S+"wheeltools.py"), ("repair_wheel", S+"repair.py")],
  ["members, modes and bytes of the output archive"])

p("C11", "RECORD of every written wheel is exact",
  "In every wheel that auditwheel writes, RECORD lists every file in the archive exactly once (and nothing else) with the correct unpadded urlsafe SHA-256 and byte size of the archived content, itself without hash and size. Names with commas, quotes, spaces and non-ASCII characters are encoded so that a CSV reader recovers them. The dist-info directory comes last in the archive, RECORD being the last of the files directly in it, and no RECORD.jws remains.",
  ["inputs"], "all wheel contents and names, all repair options that modify files (grafting, stripping, shims, SBOM)",
  "No test reads the RECORD of a repaired wheel.",
  ["wheeltools.py", "tools.py", "repair.py"],
  [("rewrite_record", S+"wheeltools.py"), ("walk", S+"tools.py")],
  ["RECORD of the output archive vs its members"])

p("C12", "Filename and WHEEL metadata of a repaired wheel name the same, right platforms",
  "When tags are updated, the platform part of the output filename is the sorted, duplicate-free union of the input's platforms and the new policy with its aliases, without the `linux_<arch>` (or `any`) tag they replace; WHEEL carries for every python/abi pair of the input the matching Tag lines and no replaced ones, and is platlib if `any` was replaced. All other WHEEL headers, and the name, version, build, python and abi parts of the filename, are unchanged. With `--no-update-tags` neither filename nor WHEEL changes; a second tagging with the same platforms changes nothing.",
  ["inputs", "configurations"], "all valid wheel filenames (build numbers, compressed tag sets), WHEEL contents, policies, libcs, architectures, --plat / --only-plat / --no-update-tags",
  "One unit test checks a single header; two prebuilt wheels are retagged. Tag products, sorting, aliases and header preservation are not varied.",
  ["wheeltools.py", "repair.py", "policy/__init__.py", "_vendor/wheel/pkginfo.py"],
  [("add_platforms", S+"wheeltools.py"), ("get_replace_platforms", S+"policy/__init__.py"), ("read_pkg_info / write_pkg_info", S+"_vendor/wheel/pkginfo.py")],
  ["name of the output file, WHEEL member"])

p("C13", "A repaired wheel passes its own audit, and repairing it again is a no-op",
  "Auditing a wheel that repair produced, with the original external libraries gone, reports no external library for the policy it was repaired to and a tag at least as compatible as that policy. Repairing it again grafts nothing, renames nothing and keeps the filename, every file other than RECORD being byte-identical or equal in needed libraries, soname and search path.",
  ["inputs", "histories"], "all repairable wheels and options; sequences repair -> show -> repair",
  "No test runs show or repair on an output of repair outside Docker.",
  ["repair.py", "wheel_abi.py", "wheeltools.py", "policy/__init__.py"],
  [("repair_wheel", S+"repair.py"), ("copylib (already suffixed name)", S+"repair.py"), ("unique_by_index of RPATH entries", S+"repair.py")],
  ["auditwheel show / repair on the output"])

p("C14", "A refused or failed repair leaves no wheel behind and changes nothing",
  "Repair to a requested platform is refused, with a non-zero exit status, whenever the wheel needs symbol versions, blacklisted symbols, UCS2 symbols or ISA extensions that the platform does not allow, or a library that must be grafted cannot be located, or architecture or libc of the wheel and the platform differ. When a repair is refused, or fails at any step (a patching or stripping tool failing, an unreadable library, a write error), the output directory (which may have been created) contains no new or changed file. Whether it succeeds or fails, the input wheel (unless the output has the same path), the original external libraries, the working directory and the temporary area are as before.",
  ["inputs", "fault_sequences"], "all wheels and requested platforms; a failure injected at every external command and file operation of the repair",
  "Tests check three mismatching names and no failing step; the state left after a failure is never looked at.",
  ["main_repair.py", "repair.py", "wheeltools.py", "tmpdirs.py", "patcher.py"],
  [("execute", S+"main_repair.py"), ("InWheel.__exit__", S+"wheeltools.py"), ("InTemporaryDirectory", S+"tmpdirs.py")],
  ["exit status, output directory, input wheel, external libraries, cwd, TMPDIR"])

p("C15", "RPATHs in a repaired wheel stay inside the wheel",
  "In a repaired wheel no RPATH or RUNPATH entry of a file that repair rewired points outside the wheel root or is not $ORIGIN-relative; grafted libraries have exactly `$ORIGIN` if they need another grafted library and no entry otherwise. Each entry of the original that pointed inside the wheel is preserved in order and without duplicates, followed by the entry for the library directory. The rewired files (relocated scripts judged from their new place) of a Linux wheel get DT_RPATH, those of an Android wheel DT_RUNPATH (and Android below API level 24 is refused).",
  ["inputs"], "all RPATH/RUNPATH strings (any mix of absolute, relative, $ORIGIN, ${ORIGIN}, ../ escapes, duplicates, empty entries), all file depths",
  "Four unit tests with a mocked patcher try one entry each.",
  ["repair.py", "patcher.py", "tools.py"],
  [("append_rpath_within_wheel / _is_valid_rpath", S+"repair.py"), ("is_subdir", S+"tools.py"), ("_Patchelf.apply_updates", S+"patcher.py")],
  ["DT_RPATH / DT_RUNPATH of the files of the output"])

p("C16", "Grafted libraries are identified by content",
  "Each external library is copied once into `<name><lib-sdir>` under a file name made of its base name, the first eight hex digits of the SHA-256 of the original file, and its suffixes; its SONAME and all references to it equal that file name. Libraries with equal names but different contents get different names and never replace each other, a library reached under several names or links is stored once, and a name that already carries its hash is kept. The copy is writable by its owner and otherwise keeps its permissions, and the original is not modified.",
  ["inputs"], "all sets of external libraries: names with any number of dots, version suffixes, links, identical names in different directories, read-only files",
  "No test outside Docker inspects a grafted file except one Android library.",
  ["repair.py", "hashfile.py", "patcher.py"],
  [("copylib", S+"repair.py"), ("hashfile", S+"hashfile.py"), ("ElfPatcher.set_soname / replace_needed", S+"patcher.py")],
  ["files of the library directory of the output"])

p("C17", "Repair is reproducible",
  "With SOURCE_DATE_EPOCH set, repairing the same wheel against the same libraries gives a byte-identical output wheel whatever the hash seed, the temporary directory, the umask, the current time, the directory-listing order and the working directory; every member carries that timestamp, clipped to 1980-01-01 and rounded down to two seconds. The members of the archive come in a fixed order given by their names (sorted, the dist-info directory last), whatever the order and compression of the input archive.",
  ["inputs", "configurations"], "all wheels and dependency graphs, all SOURCE_DATE_EPOCH values that a zip archive can represent, perturbed environments",
  "One prebuilt wheel is checked for its timestamps; two runs are never compared.",
  ["tools.py", "wheeltools.py", "repair.py", "policy/__init__.py", "sboms.py"],
  [("dir2zip / walk", S+"tools.py"), ("InWheel.__exit__", S+"wheeltools.py"), ("lddtree_external_references (set iteration)", S+"policy/__init__.py")],
  ["bytes of the output archive over repeated runs"])

p("C18", "Equivalent ways of asking for a repair give the same wheel",
  "A policy alias and the policy it names, an option and the environment variable that stands for it, several wheels in one command and one command per wheel, and `--plat auto` and naming the policy auto selects together give identical output wheels. A command-line option overrides its environment variable, and invalid values are rejected. `--only-plat` yields the requested policy and its aliases only; without it the wheel also gets a more compatible tag exactly if it qualifies without grafting more libraries.",
  ["inputs", "configurations", "histories"], "all wheels, policies with aliases, option/environment combinations and sequences of wheels",
  "Tests check the parsing of two environment variables only.",
  ["main_repair.py", "wheel_abi.py", "tools.py", "policy/__init__.py"],
  [("execute", S+"main_repair.py"), ("analyze_wheel_abi (graft policy)", S+"wheel_abi.py"), ("EnvironmentDefault", S+"tools.py")],
  ["name and bytes of the output wheels, exit status"])

p("C19", "Repaired executables in scripts still run",
  "An ELF executable directly in a wheel's scripts directory that needs grafted libraries is moved to `<name>.scripts`, with a Python shim of the same name and mode in its place; after installation, running the script runs the moved executable with the same arguments and exit status and with the grafted libraries. Scripts that need not be rewired, and non-ELF scripts, stay untouched.",
  ["inputs"], "all wheels with scripts (ELF and not), any names, arguments and permissions",
  "Only a Docker test runs a repaired script, with one program.",
  ["repair.py", "patcher.py"],
  [("_replace_elf_script_with_shim / _script_shim", S+"repair.py"), ("ElfPatcher.update_elf_path", S+"patcher.py")],
  ["behaviour of the installed script"])

p("C20", "Stripping changes symbols and nothing else",
  "`repair --strip` produces the same wheel as without it as far as file set, needed libraries, sonames, search paths, dynamic symbols and symbol versions are concerned, and the files still load and give the same results. The static symbol tables and debug sections of exactly the grafted libraries and of the wheel's audited ELF files (also relocated scripts) are removed.",
  ["inputs", "configurations"], "all repairable wheels, with and without relocated scripts",
  "Stripping is tested in Docker only.",
  ["repair.py"],
  [("strip_symbols / repair_wheel", S+"repair.py")],
  ["ELF files of the outputs of both runs"])

p("C21", "A repaired Linux wheel never links against libpython",
  "In a wheel repaired for manylinux or musllinux, no ELF file - neither one of the wheel nor a grafted library - needs a versioned libpython library with whatever ABI flags (unless it is excluded), libpython and its own dependencies are never grafted, and all other needed entries are kept. In an Android wheel libpython entries are left alone.",
  ["inputs"], "all dependency graphs with libpython entries at any depth, all libpython name forms, all libcs",
  "One prebuilt wheel with a direct entry is repaired by the tests.",
  ["repair.py", "lddtree.py", "policy/__init__.py", "patcher.py"],
  [("repair_wheel", S+"repair.py"), ("LIBPYTHON_RE", S+"lddtree.py"), ("ElfPatcher.remove_needed", S+"patcher.py")],
  ["DT_NEEDED of all files of the output"])

p("C22", "The SBOM lists exactly the grafted system packages",
  "A repaired wheel carries a CycloneDX document in its dist-info exactly if at least one grafted library is provided by a package known to the system's package manager. It then has one component for the wheel itself and one per such library with the right package name and version, unique references, a dependency graph closed over its components, and package URLs whose percent-decoding gives the name, version and file name of the output wheel.",
  ["inputs", "configurations"], "all package names, versions, paths and package managers (dpkg, rpm, apk, apt-file and their failures), all grafted sets",
  "One unit test with a mocked lookup and one library.",
  ["sboms.py", "repair.py", "_vendor/whichprovides/__init__.py"],
  [("create_sbom_for_wheel", S+"sboms.py"), ("whichprovides", S+"_vendor/whichprovides/__init__.py")],
  ["auditwheel.cdx.json of the output"])

p("C23", "Queued ELF edits have the effect of applying them one by one",
  "For every sequence of edit requests on a set of ELF files (set soname, replace needed, remove needed, set or clear RPATH, read RPATH, move file), reading the RPATH always gives the value the queued edits imply, applying writes exactly the requested state to exactly the requested files, and applying again changes nothing. Contradictory requests (removing a needed entry that is being replaced, or the reverse) are refused and leave the queue unchanged; the `none` patcher never modifies a file and fails exactly when an edit is pending, and a missing patchelf or one older than 0.14.5 is refused.",
  ["histories", "inputs"], "all interleavings of edit requests over several files with links and relative paths, up to any length",
  "Unit tests mock the tool and check one or two requests at a time.",
  ["patcher.py"],
  [("ElfPatcher", S+"patcher.py"), ("_Patchelf.apply_updates", S+"patcher.py"), ("_NonePatcher.apply_updates", S+"patcher.py")],
  ["dynamic section of the files after apply"])

p("C24", "Unpacking and repacking an archive loses nothing and escapes nowhere",
  "Unpacking a zip archive and packing the result gives an archive with the same files, contents and permission bits (owner read/write always added; directories as 755), for every compression level. Unpacking never creates, changes or removes anything outside the target directory, whatever the member names are; RECORD entries that point outside it are refused, and the temporary directory used for it is removed and the working directory restored even after an error.",
  ["inputs", "fault_sequences"], "all archives: names (non-ASCII, dot-dot, absolute), sizes, modes, duplicate and directory members, compression levels -1..9",
  "One fixed archive is round-tripped.",
  ["tools.py", "tmpdirs.py", "wheeltools.py"],
  [("zip2dir", S+"tools.py"), ("dir2zip", S+"tools.py"), ("InTemporaryDirectory / InGivenDirectory", S+"tmpdirs.py")],
  ["file trees and archives"])

p("C25", "Policies are monotone, unambiguous and validated",
  "For every libc and architecture, each more compatible policy allows a subset of the symbol versions and libraries of every less compatible one, names and aliases are unique and look up to their own policy, unknown names are rejected, and the set is ordered from linux up by priority. A policy set in which a less compatible policy lacks a library or a symbol version of a more compatible one is rejected when it is loaded. Adding symbol versions never raises the policy found, and each tag's replacement rule names the `linux` tag of the same architecture.",
  ["inputs", "configurations"], "all libc/architecture pairs and shipped policies, all generated policy sets (valid and with one violation), all symbol-version sets",
  "Tests check the shipped files once and five hand-made invalid sets.",
  ["policy/__init__.py", "policy/manylinux-policy.json", "policy/musllinux-policy.json", "policy/android-policy.json", "architecture.py"],
  [("WheelPolicies", S+"policy/__init__.py"), ("_validate_pep600_compliance", S+"policy/__init__.py"), ("get_replace_platforms", S+"policy/__init__.py"), ("Architecture.is_subset", S+"architecture.py")],
  ["WheelPolicies(...)"])

p("C26", "Pure wheels and several wheels in one command are handled by the rules",
  "A wheel without ELF files makes show and repair exit 1 with an explanation, unless it is a pure (`any`) wheel and --allow-pure-python-wheel is given: then show exits 0 and repair copies it byte for byte to the output directory (or leaves it alone if it is already there). Several wheels are processed in order, each with the result it has alone; the first error stops processing with a non-zero status, wheels before it are in the output directory and wheels after it are not.",
  ["histories", "inputs"], "all sequences of pure, platform, invalid and missing wheels, with and without the option, output directory equal to or different from the input's",
  "Tests use one pure wheel, alone or twice.",
  ["main_repair.py", "main_show.py", "error.py"],
  [("execute", S+"main_repair.py"), ("execute", S+"main_show.py")],
  ["exit status and output directory"])

p("C27", "Damaged and non-ELF files are never mistaken for ELF requirements",
  "A file in a wheel that is not an ELF file - whatever its name, size or content, Python sources included - never changes the verdict or the bytes written for it, and never makes show or repair fail. An ELF file cut off or damaged at any byte is either audited, ignored as no ELF file, or reported by a non-zero exit; it never makes the wheel's tag more compatible than without it (needing no file of the wheel), hangs, or lets repair write an output wheel in the error case.",
  ["inputs", "fault_sequences"], "all byte strings as file contents; all truncations and byte mutations of ELF files",
  "Tests mock the ELF parser raising once.",
  ["elfutils.py", "wheel_abi.py", "lddtree.py"],
  [("elf_file_filter", S+"elfutils.py"), ("get_wheel_elfdata", S+"wheel_abi.py")],
  ["exit status, tag, output"])

p("C28", "The policy-maintenance script reports exactly the defined symbol versions",
  "The script that calculates symbol versions prints, for each prefix of the chosen policy, exactly the versions that the whitelisted libraries of the running system define with that prefix (PRIVATE left out), in numeric order without duplicates; an unknown policy or a missing library is an error.",
  ["inputs", "configurations"], "all sets of libraries and version definitions, all policies",
  "The script has no tests.",
  ["scripts/calculate_symbol_versions.py"],
  [("calculate_symbol_versions / versionify", "scripts/calculate_symbol_versions.py")],
  ["stdout of the script"])

p("C29", "Wheel filenames are understood exactly",
  "The architecture taken from a wheel filename is the baseline architecture common to all its platform tags, whatever their number and form; names with several architectures, an unknown one, or `any` beside another tag are rejected, and `any` alone is recognised as pure. The libc is the one common to all libc-specific tags, and names with none or several are rejected. Platform tags are reported sorted and without duplicates.",
  ["inputs"], "all compressed platform tag sets over all libcs, versions, aliases and architectures, valid and unknown, all name/version/build parts",
  "Two dozen hand-picked names.",
  ["wheeltools.py", "architecture.py", "libc.py"],
  [("get_wheel_architecture", S+"wheeltools.py"), ("get_wheel_libc", S+"wheeltools.py"), ("get_wheel_platforms", S+"wheeltools.py")],
  ["these functions' results", "auditwheel show's choice of libc and architecture"])

p("C30", "Android wheels are audited against their own API level",
  "An Android wheel is audited against the newest Android policy whose API level does not exceed the level in its tag, under its own tag name; a level below the oldest policy, or several platform tags, is an error. Repair keeps the tag, grafts exactly the libraries that this policy does not list, never searches the build machine's libraries unless paths are given, and refuses to graft below API level 24.",
  ["inputs", "configurations"], "all API levels and Android architectures, all sets of needed libraries, search paths given or not",
  "Tests cover one wheel and a few levels.",
  ["policy/__init__.py", "wheel_abi.py", "patcher.py", "wheeltools.py", "policy/android-policy.json"],
  [("WheelPolicies.__init__ (android)", S+"policy/__init__.py"), ("get_wheel_elfdata", S+"wheel_abi.py"), ("ElfPatcher.set_rpath", S+"patcher.py")],
  ["auditwheel show / repair on Android wheels"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x, sch)
except ImportError: pass
for x in P:
    n = x["statement"].count(". ") + 1
    if n > 3: print(x["id"], "sentences:", n)
print(len(P), "properties")
