#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 tools/specs.py writes both."""
import importlib.util
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = "core/ratarmountcore/"
MS = CORE + "mountsource/"

TECH = "deterministic simulation with fault injection: seeded search over "


def P(id, title, statement, over, text, why, files, mechanism, technique, note, level="exploration", state=(),
      observe=(), hook=None):
    return {"id": id, "title": title, "statement": statement, "over": over, "text": text, "why": why, "files": files,
            "mechanism": mechanism, "technique": technique, "note": note, "level": level, "state": state,
            "observe": list(observe), "hook": hook}


SPECS = [
    P("P01", "An interrupted index creation or update never changes what a later mount shows",
      "If creating or updating the index file beside an archive is cut short at any point - the process is killed, "
      "interrupted, or storage fails or fills up - then every later mount still succeeds and shows the same names, "
      "metadata, contents and checksums as a mount without any stored index. A mount that itself meets such an error "
      "either fails with an error or shows the right tree, never a partial one.",
      ["crash_points", "fault_sequences", "histories", "configurations"],
      "all crash points (system-call granularity, torn writes), storage faults and SIGINT points during index writing; "
      "all archive kinds, index locations, index options; any sequence of interrupted and undisturbed mounts",
      "Tests only load indexes that were written completely, or one prepared broken file; they do not stop an index "
      "creation at each of its system calls and then mount again.",
      [CORE + "SQLiteIndex.py", MS + "SQLiteIndexMountSource.py", MS + "formats/tar.py"],
      [("rollback journal and transactions", CORE + "SQLiteIndex.py:_open_sql_db"),
       ("temporary tables mark unfinished indexes", CORE + "SQLiteIndex.py:_load_index"),
       ("version metadata is stored last", CORE + "SQLiteIndex.py:store_metadata"),
       ("resumable checksumming", MS + "SQLiteIndexMountSource.py:_compute_and_store_hashes")],
      TECH + "crash points and storage faults at the system-call boundary, differential oracle against an index-free mount",
      "Real code, real SQLite and real files; process-kill crash model (completed writes survive, torn at 4 KiB), no power "
      "loss. Seeded search, not exhaustive.",
      observe=["names, metadata, contents and xattrs of a mount after the interruption"]),
    P("P02", "A stored index is never used for an archive it no longer describes",
      "After any sequence of mounts and archive changes (replace, grow, shrink, append, modify in place, change of "
      "modification time, move), a mount shows exactly the archive's current members, metadata and contents whenever "
      "the archive's size changed, or its modification time changed and modification-time checking is on. Mounting an "
      "unchanged archive again shows the same as the first mount, and asking for recreation always shows the current state.",
      ["histories", "inputs", "configurations", "crash_points"],
      "all histories of archive modifications, clock changes and mounts with varying options, including kills during the "
      "mounts in between",
      "Tests check one append and a few fixed metadata mismatches; the property is about every history of changes and mounts.",
      [CORE + "SQLiteIndex.py", MS + "formats/tar.py", MS + "SQLiteIndexMountSource.py"],
      [("size and mtime check", CORE + "SQLiteIndex.py:check_archive_stats"),
       ("detection of appended TARs", MS + "formats/tar.py:_try_to_mark_as_appended"),
       ("sampled validity check", MS + "formats/tar.py:_check_index_validity")],
      TECH + "histories of archive changes, clock jumps, mounts and kills, against an index-free mount",
      "Modification in place that keeps size (and mtime, or with mtime checking off) is excluded by the property. Archives "
      "that are changed while they are being indexed are excluded too."),
    P("P03", "Mounting and reading never modifies archives or anyone else's files",
      "Mounting, browsing and reading archives in any way, also when mounts fail, are killed or meet I/O errors, never "
      "creates, changes or deletes anything but index files in the configured index locations and temporary files in the "
      "temporary folder. With read-only indexes nothing at all is written outside it, existing index files stay byte-identical, and "
      "once all mounts are closed no temporary file remains.",
      ["histories", "configurations", "fault_sequences", "crash_points"],
      "all archive kinds, options, mount/browse/read/close histories, failing mounts and storage faults",
      "Tests do not look at which system calls were made; the property quantifies over everything a mount may write to.",
      [CORE + "SQLiteIndex.py", MS + "factory.py", MS + "SQLiteIndexMountSource.py", MS + "formats"],
      [("candidate index locations", CORE + "SQLiteIndex.py:get_possible_index_file_paths"),
       ("read-only index mode", CORE + "SQLiteIndex.py:_load_index"),
       ("temporary files are deleted on close", CORE + "SQLiteIndex.py:_set_index_file_path")],
      TECH + "mount histories and faults; every mutating system call is logged and judged by path",
      "The log is taken below the C library by the seam; writes through memory maps are not seen (none are used)."),
    P("P04", "Concurrent readers always get what a lone reader would get",
      "Any number of threads that open, seek, read and close files of one mount at the same time, and also list and look "
      "up paths when its index is stored in a file, observe in every interleaving exactly the results each would observe "
      "alone. No interleaving deadlocks, fails or leaves a file unreadable.",
      ["schedules", "inputs", "configurations"],
      "all thread interleavings of concurrent operations on one mount, all archive and compression kinds, compositions of "
      "mounts (recursive, union, overlay, nested)",
      "The few threaded tests run one uncontrolled schedule each; a race needs a particular interleaving.",
      [CORE + "StenciledFile.py", CORE + "SQLiteBlobFile.py", CORE + "SQLiteIndex.py", MS + "formats", MS + "compositing"],
      [("lock around shared file objects", CORE + "StenciledFile.py"),
       ("per-mount-source locks", MS + "formats/tar.py:fileObjectLock"),
       ("mount-point lock of lazily opened archives", MS + "compositing/automount.py")],
      TECH + "thread schedules (line-level preemption) with a sequential reference",
      "Preemption between source lines of the repository, zipfile and PySquashfsImage, not inside C libraries. An index kept in "
      "memory belongs to one thread (SQLite), so there only open, seek, read and close are concurrent. The shipped FUSE layer "
      "runs single-threaded; the core library documents its locks for multi-threaded use."),
    P("P05", "Random access returns exactly the bytes of the member, for every access history",
      "For every member of every supported archive or compression, any history of seeks (absolute, relative, from the "
      "end), tells and reads of any size returns the same bytes and positions as an ordinary in-memory file with the "
      "member's contents. This holds with a freshly built and with a stored seek index, through nested archives, and when "
      "the storage below returns short reads; only where a seek beyond the end stops is left open.",
      ["histories", "inputs", "configurations", "fault_sequences"],
      "all seek/read/tell histories over all members, back ends, seek-index settings and short-read patterns of the storage",
      "Tests read whole files or a few fixed offsets; the property is about every history of operations.",
      [CORE + "StenciledFile.py", CORE + "SQLiteBlobFile.py", CORE + "BlockParallelReaders.py", MS + "formats",
       CORE + "compressions.py"],
      [("joined and stenciled files", CORE + "StenciledFile.py"),
       ("seek points stored in the index", CORE + "SQLiteIndex.py:synchronize_compression_offsets"),
       ("re-opening on backward seeks", MS + "formats/libarchive.py:seek")],
      TECH + "operation histories and short reads, reference model: io.BytesIO",
      "Member sizes up to a few hundred KiB in the quick tier."),
    P("P06", "Parallel decompression delivers the right bytes under every worker schedule",
      "The block-parallel reader returns the same bytes and positions as a serial decompressor for every sequence of reads "
      "and seeks, whatever the order and delay in which its workers finish blocks. A failing worker surfaces as an error "
      "of the read that needs the block, at most once per failure so that a later read tries again, never as wrong or missing "
      "data, and closing at any moment terminates.",
      ["schedules", "histories", "fault_sequences"],
      "all orders and delays of worker completions, worker failures, access histories and cache sizes",
      "Tests read sequentially with whatever order the operating system happens to produce.",
      [CORE + "BlockParallelReaders.py"],
      [("prefetching", CORE + "BlockParallelReaders.py:Prefetcher"), ("block cache", CORE + "BlockParallelReaders.py:LRUCache"),
       ("block lookup", CORE + "BlockParallelReaders.py:find_block")],
      TECH + "completion orders of a simulated worker pool, access histories and worker failures",
      "The worker pool is replaced by a simulated one that runs the real block functions in this process; rapidgzip's own "
      "threads are C++ and outside."),
    P("P07", "A write overlay behaves like the archive extracted into a plain folder",
      "With a write overlay, every history of file-system operations (create, write, truncate, rename, link, symlink, "
      "unlink, mkdir, rmdir, chmod, utime, read, list, stat) on the mount has the same visible effect and the same "
      "success or error kind as on an ordinary folder holding the extracted archive. Nothing deleted or renamed reappears "
      "and nothing untouched disappears, also after unmounting and mounting again with the same overlay; only moving folders "
      "from or to archive paths and hard links to archive files may be refused as across devices, changing nothing.",
      ["histories", "inputs", "configurations"],
      "all operation histories over archive members and new paths, with remounts anywhere",
      "No test covers the overlay's file operations; interactions of three or more operations matter.",
      ["ratarmount/WriteOverlay.py", "ratarmount/FuseMount.py"],
      [("deleted-files database", "ratarmount/WriteOverlay.py"), ("copy-up on first write", "ratarmount/WriteOverlay.py"),
       ("union of overlay folder and archive", MS + "compositing/union.py")],
      TECH + "operation histories with remounts, reference: the same operations on a real extracted folder",
      "The operations are called as the kernel would call them, one resolved path at a time; the FUSE kernel module is not "
      "part of the run."),
    P("P08", "A crash or storage error never loses or corrupts what the overlay already holds",
      "When an operation on a writable mount fails with a storage error, or the process is killed at any point, then after "
      "mounting again every file that the operation did not touch is exactly as before. The touched path shows its old or "
      "its new state, or for writes the start of the new data over the old, completed operations stay completed, and the "
      "mount works.",
      ["crash_points", "fault_sequences", "histories"],
      "all crash points and storage faults within any operation of any history, followed by a remount",
      "Tests never fail a system call under the overlay and never kill it.",
      ["ratarmount/WriteOverlay.py", "ratarmount/FuseMount.py"],
      [("deleted-files database transactions", "ratarmount/WriteOverlay.py"), ("copy-up", "ratarmount/WriteOverlay.py")],
      TECH + "crash points and storage faults at the system-call boundary, followed by restart, against a model of allowed states",
      "Process-kill crash model; written data is judged after the kill (no power loss)."),
    P("P09", "Committing an overlay makes the archive equal to the merged view",
      "After a successful commit of a write overlay into a TAR, mounting the archive alone shows exactly the names, kinds "
      "and contents that the mount with the overlay showed before. When the commit is declined, fails or is killed at any "
      "point, archive plus overlay together still hold every file.",
      ["histories", "crash_points", "fault_sequences", "inputs"],
      "all overlay histories before the commit, all names, all failures and kills of the commit",
      "No test runs the commit.",
      ["ratarmount/WriteOverlay.py"],
      [("commit through tar --delete and --append", "ratarmount/WriteOverlay.py:commit_overlay")],
      TECH + "overlay histories and kills of the commit, real tar program below the seam",
      "The tar program is real; the confirmation prompt is answered by the simulator."),
    P("P10", "A union mount always resolves each path to the same, last-given source",
      "In a union of mounts, listing, lookup, open, versions and extended attributes agree with each other and with the "
      "rule that the last source containing a path wins and folders are merged. The result never depends on when it is "
      "asked, on earlier queries, on the cache or on the clock.",
      ["inputs", "histories", "configurations", "schedules"],
      "all sets of sources with conflicting names, all query histories, all clock behaviours during cache building",
      "Tests use small fixed unions without conflicts between kinds and never let the cache time out.",
      [MS + "compositing/union.py"],
      [("path cache with time limit", MS + "compositing/union.py:_build_path_cache"),
       ("reverse search order", MS + "compositing/union.py:lookup")],
      TECH + "query histories and clock jumps during cache building, executable reference model of union semantics",
      "Sources are real folder and archive mounts."),
    P("P11", "Recursive and lazy mounting show the same tree in every access order",
      "Mounting archives inside archives lazily, eagerly or with any recursion depth shows the same tree, limited only by "
      "depth, in whatever order paths are visited. A nested archive that cannot be opened "
      "stays accessible as a plain file and does not affect its siblings.",
      ["histories", "configurations", "fault_sequences"],
      "all nestings, access orders, recursion options, and damaged or unreadable inner archives",
      "Tests compare a few fixed trees in one access order.",
      [MS + "compositing/automount.py", MS + "factory.py", MS + "formats/tar.py"],
      [("on-demand mounting", MS + "compositing/automount.py"), ("recursion depth accounting", MS + "formats/tar.py")],
      TECH + "access orders and faults on inner archives, against a reference tree built with the archives",
      "Nesting up to three levels."),
    P("P12", "All versions of an overwritten member stay accessible and in order",
      "When an archive holds several members of the same name, the plain path shows the last one, and the version folders "
      "list and deliver every one of them in archive order with its own metadata and contents; hard links and symbolic "
      "links keep pointing to what they meant in the archive. Appending more versions extends the list without changing "
      "the older ones.",
      ["inputs", "histories", "configurations"],
      "all sequences of repeated members, links and appends; access through every layer",
      "Tests use one fixed archive with versions.",
      [MS + "compositing/versioning.py", CORE + "SQLiteIndex.py", "ratarmount/FuseMount.py"],
      [("version lookup by order of header offset", CORE + "SQLiteIndex.py:_lookup"),
       ("version folders", MS + "compositing/versioning.py")],
      TECH + "histories of appends and mounts, reference model of the member sequence",
      "Uncompressed and compressed TARs."),
    P("P13", "Mounts can be added and removed while in use without affecting the others",
      "With mounts being added and removed at any time below one mount point, every path resolves to the innermost mount "
      "that is present at that moment, names that lead to mounts are listed, and files opened earlier stay readable. A "
      "failed request changes nothing.",
      ["histories", "schedules", "fault_sequences"],
      "all histories and interleavings of mount, unmount, list, lookup, open and read requests",
      "Tests call mount and unmount a few times in one thread.",
      [MS + "compositing/subvolumes.py", "ratarmount/FuseMount.py"],
      [("table of mounted subfolders", MS + "compositing/subvolumes.py"), ("control interface", "ratarmount/FuseMount.py")],
      TECH + "request histories and thread schedules, reference model of the mount table",
      "Requests are issued on the mount interface and through the control files in-process."),
    P("P14", "Stored checksums are the checksums of the shown contents",
      "Every checksum attribute that a mount shows for a file equals the requested checksum of the contents that the same "
      "mount delivers, for every archive kind and regardless of how often checksumming was interrupted, resumed or "
      "repeated with other algorithms. Failing to checksum one file neither fails the mount nor affects other files.",
      ["histories", "fault_sequences", "crash_points", "inputs"],
      "all interruptions and repetitions of checksumming with varying algorithm sets, read faults",
      "Tests compute each hash once on undisturbed archives.",
      [CORE + "hashing.py", MS + "SQLiteIndexMountSource.py"],
      [("resume query", MS + "SQLiteIndexMountSource.py:_compute_and_store_hashes")],
      TECH + "interruptions, read faults and repeated mounts; oracle: recomputation from the delivered contents",
      "Checksums are recomputed with hashlib and zlib."),
    P("P15", "Mount operations report errors, never wrong data, when reading the archive fails",
      "When reads of the archive file fail or are cut short - once, repeatedly or for a while - each operation on the mount "
      "either returns the right result or fails with an error, for opening, listing and reading alike. Once the storage "
      "works again, the same mount, or one mounted anew, returns the right results.",
      ["fault_sequences", "histories", "configurations"],
      "all placements of read errors and short reads in mounting, listing and reading histories, all back ends",
      "Tests never fail a read.",
      [CORE + "StenciledFile.py", MS + "formats", "ratarmount/FuseMount.py", CORE + "compressions.py"],
      [("error propagation", "ratarmount/FuseMount.py"), ("position tracking of shared files", CORE + "StenciledFile.py")],
      TECH + "read faults at the system-call boundary during operation histories",
      "A truncated view (early end of file) of formats without checksums cannot be told from a short archive and is only "
      "injected where the size is known."),
    P("P16", "The mounted file system answers every call like a file system",
      "For every history of calls that the kernel may send, with any number of open handles, the mount answers with data, "
      "attributes and listings that are consistent with each other, or with the matching error number. Handles are unique "
      "while open and released when closed, reads are bounded by the file size, and no call disturbs a later one.",
      ["histories", "inputs"],
      "all histories of file-system calls with valid and invalid arguments and any number of handles in use",
      "No test covers the file-system layer.",
      ["ratarmount/FuseMount.py"],
      [("table of open files", "ratarmount/FuseMount.py:open"), ("mapping of errors", "ratarmount/FuseMount.py")],
      TECH + "interleaved call histories over many handles, reference model of a read-only file system",
      "Calls are made in-process on the object that the FUSE binding dispatches to; the kernel and libfuse are not run. Calls are "
      "sequential because the shipped mount runs libfuse single-threaded."),
    P("P17", "Mounts that share an index do not disturb each other",
      "While mounts of an archive are in use, other mounts of it that share the index location may be added, may rebuild or "
      "extend the index, may be killed or fail while doing so, may be closed, or the index may be removed: each mount still "
      "shows the archive's whole tree and contents, files opened earlier stay readable, and later mounts show the same.",
      ["histories", "configurations", "crash_points", "fault_sequences"],
      "all histories of adding, using, closing and killing mounts of one unchanged archive that share an index location, with "
      "one mount being created at a time",
      "Tests mount one archive at a time; the conflict needs mounts that hold the index while others touch it.",
      [CORE + "SQLiteIndex.py", MS + "SQLiteIndexMountSource.py", MS + "factory.py"],
      [("database locks", CORE + "SQLiteIndex.py:_open_sql_db"), ("read-only after creation", CORE + "SQLiteIndex.py:finalize_index"),
       ("removal of indexes that cannot be loaded", CORE + "SQLiteIndex.py:_try_load_index"),
       ("checksums added to an existing index", MS + "SQLiteIndexMountSource.py:_resume_hashes")],
      TECH + "interleaved histories of several mounts, others killed or failing at drawn system calls, oracle: an index-free mount",
      "Mounts live in one process with database connections of their own, those that are killed in processes of their own. Creations "
      "that overlap in time are left out: the tree has known races there (see DESIGN.md)."),
]


def claimed(id):
    return os.path.exists(os.path.join(HERE, "props", id.lower() + ".py"))


NOT_APPLICABLE = {}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for s in SPECS:
            f.write(json.dumps({
                "id": s["id"], "title": s["title"], "statement": s["statement"],
                "quantifier": {"over": s["over"], "text": s["text"]}, "why_tests_cant": s["why"],
                "anchors": {"files": s["files"], "state": [dict(zip(("name", "meaning", "where"), x)) for x in s["state"]],
                            "mechanism": [{"name": n, "where": w} for n, w in s["mechanism"]],
                            "observe_at": s["observe"], "hook_needed": s["hook"]}}) + "\n")
    checks, na = [], []
    for s in SPECS:
        if claimed(s["id"]) and s["id"] not in NOT_APPLICABLE:
            checks.append({"property": s["id"], "quick_cmd": f"python3 check.py {s['id']} --tier quick",
                           "thorough_cmd": f"python3 check.py {s['id']} --tier thorough",
                           "evidence_file": f"evidence/{s['id']}.json", "technique": s["technique"], "level": s["level"],
                           "level_note": s["note"]})
        else:
            na.append({"property": s["id"], "reason": NOT_APPLICABLE.get(s["id"], "no check built yet")})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 check.py --setup",
                   "checks": checks, "not_applicable": na,
                   "notes": "No hooks in /repo: all seams are outside (LD_PRELOAD shim, patched clock/threading, in-process "
                            "drivers)."}, f, indent=1)
        f.write("\n")
    for s in SPECS:
        assert len(s["title"]) <= 80, s["id"]
        assert s["statement"].count(". ") <= 2, s["id"]


if __name__ == "__main__":
    main()
