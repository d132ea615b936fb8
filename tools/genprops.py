#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe=None, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], 
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        "observe_at": observe or [], "hook_needed": hook}})

prop("C01", "Deterministic mode: one input, one output file",
 "With -d, the bytes of the output file are a function of the input files and the option list alone. Scheduling of the worker threads, the number of CPUs of the machine, an explicit thread count (t=), the clock, map iteration order and object-pool hits must not change a single byte, including when a blockmap endgoal (e=1, e=2) lets workers stop early and when multi-tree mode is used.",
 ["schedules", "configurations", "inputs"], "every worker schedule, CPU count, thread count and clock behaviour, for every input wad and option list containing -d",
 "The unit tests call single functions on one goroutine; none runs the program twice, let alone under different schedules. The promise (documentation section 06) quantifies over schedules.",
 ["level.go", "blockmapgen.go", "multitree_plain.go", "writebus.go", "multiformat_tree.go"],
 [("deferred in-order write of nodes, reject, blockmap", "level.go WaitForAndWriteData"), ("earliest-offset rule, offset sieve and hole chasing (backtracking)", "blockmapgen.go BlockmapHive/BlockmapHoleChaser"), ("earlier root wins ties", "multitree_plain.go")],
 ["bytes of the output file after exit"])

prop("C02", "Without -d the result is still the same level, only reordered",
 "Without -d, two runs on the same input with the same options may differ only in where lump data lies in the file and in which of several equally good blockmaps is picked. The directory (names and order), every lump other than BLOCKMAP, and (without an endgoal) the size of BLOCKMAP are the same for every schedule, CPU count and thread count, and equal to what -d produces.",
 ["schedules", "configurations", "inputs"], "every worker schedule, CPU count and thread count, for every input wad and option list without -d",
 "No test runs the whole program or more than one goroutine.",
 ["level.go", "writebus.go", "multitree_plain.go", "blockmapgen.go", "solidblocks.go"],
 [("workers get private copies of what they modify", "level.go shallowCopy / UnshareData"), ("single writer goroutine", "writebus.go WriteBusLoop")],
 ["parsed lumps of the output file"])

prop("C03", "The output is a well-formed wad that keeps everything not rebuilt",
 "Whatever the schedule, a build that reports success leaves a wad whose header and directory are valid, whose entries lie inside the file, do not overlap the header, the directory or each other (zero-filled REJECT lumps may share one run of zeroes), and in which every lump that was not requested to be rebuilt is byte-identical to the input and in its original place in the sequence. Rebuilt levels have each lump exactly once in canonical order with missing buildable lumps created; invalid levels and levels excluded by -m / -!m are copied verbatim; --eject keeps exactly the levels selected by -m / -!m (all of them without a filter), an invalid one among them verbatim.",
 ["schedules", "inputs", "configurations"], "every schedule, input wad and option list",
 "The tests never read or write a wad. The writer goroutine fills directory entries in arrival order, so consistency depends on the schedule.",
 ["wad.go", "writebus.go", "lumpwrite.go", "vigilantbsp.go", "trollgen.go", "level.go"],
 [("directory rebuilt and schedule re-indexed", "wad.go UpdateDirectoryAndSchedule"), ("offset and size recorded where the data is written", "lumpwrite.go"), ("shared zero pool", "trollgen.go, vigilantbsp.go main")],
 ["bytes of the output file"])

prop("C04", "Source files are never modified in separate-output mode",
 "With -o naming another file, the input wad, the RMB option file and any wad named by NOPROCESS are never created, written, truncated, renamed or removed, at any moment, under any I/O fault and any schedule. If the output name refers to the input file by any path spelling, hard link or symbolic link, the program refuses before touching it. The same holds for the report file: when its name (the RMB file's name with .rpt) leads to the input, the output, the RMB file or a NOPROCESS wad, no report is written there.",
 ["fault_sequences", "crash_points", "inputs", "configurations"], "every fault sequence, crash point, path aliasing and option list with -o",
 "No test touches the file system.",
 ["filecontrol.go", "vigilantbsp.go"],
 [("same-file refusal", "vigilantbsp.go main os.SameFile"), ("inputs opened read-only", "filecontrol.go OpenInputFile")],
 ["journal of simulated file-system mutations"])

prop("C05", "In-place rebuild never loses the map",
 "While a wad is rebuilt in place, at every instant at which the process can be killed or the machine can lose power (losing everything not yet synced), and after every I/O failure, some file beside the input holds the complete original or the complete new wad: the input path itself, or the temporary file. In particular, a full disk or write error while the original is being overwritten must not destroy both.",
 ["crash_points", "fault_sequences", "schedules"], "every crash point (process kill or power loss) and every sequence of failing system calls during an in-place build",
 "The tests never touch the file system, and no example-based test can place a crash or failing call at each system call.",
 ["filecontrol.go", "vigilantbsp.go", "writebus.go"],
 [("output goes to a temporary file next to the input", "filecontrol.go OpenOutputFile"), ("temporary file copied over the input and removed only at the end", "filecontrol.go tempFileReplacesInput")],
 ["simulated disk contents (page cache and durable) at every operation"])

prop("C06", "Success is reported only when the output is complete",
 "If the program exits with status 0 and says the file was successfully written, the destination holds exactly the bytes an undisturbed run would have produced and the temporary file is gone. Any failing, short or truncated read of the input wad or of an existing RMB file and any failing or short write, seek, sync or close of the output is reported and ends with a non-zero exit status. (A missing .rej file is no failure, a NOPROCESS source that cannot be read is declined as C15 says, and the report file is covered by C16.)",
 ["fault_sequences", "inputs", "schedules"], "every fault sequence injected into file operations, under every schedule",
 "No test injects an I/O error.",
 ["lumpwrite.go", "writebus.go", "level.go", "wad.go", "vigilantbsp.go", "filecontrol.go"],
 [("success printed only after closing and replacing files without error", "filecontrol.go Success, vigilantbsp.go main")],
 ["exit status, standard output, final file contents"])

prop("C07", "Temporary files do not outlive the run",
 "A run that ends by itself (successfully, with a reported error, or by aborting) in which removing files works leaves no temporary file behind, except when overwriting the original has failed and the temporary file is the only complete copy of the result. No other file is created besides the requested output and the RMB report.",
 ["fault_sequences", "schedules", "inputs"], "every way a run can end by itself, under every fault sequence in which removal itself does not fail",
 "No test runs the program to an error exit.",
 ["filecontrol.go", "vigilantbsp.go", "wad.go"],
 [("deferred Shutdown removes the temporary file", "filecontrol.go Shutdown")],
 ["simulated directory listing after exit"])

prop("C08", "Every build terminates, without stuck or crashing workers",
 "For every valid wad and option list (misspelled options and extreme numbers included: these are refused or announced and ignored), every schedule and every CPU or thread count, the program runs to completion in a bounded number of steps: no deadlock, no livelock, no worker panic. When it ends, no worker is left blocked on a message that will never come.",
 ["schedules", "configurations", "inputs"], "every schedule, CPU count, thread count and option list",
 "The tests start no goroutine. Deadlocks and lost messages need particular interleavings of the request/reply channels between workers.",
 ["solidblocks.go", "blockmapgen.go", "level.go", "multitree_plain.go", "multiformat_tree.go", "writebus.go", "reject.go", "nodegen.go"],
 [("solid blockmap control protocol", "solidblocks.go"), ("cancellation and channel closing", "blockmapgen.go BlockmapBee/BlockmapHive"), ("dispatch over dynamic channel sets", "multitree_plain.go, level.go")],
 ["scheduler state: blocked tasks, step count, panics"])

prop("C09", "Levels do not influence each other",
 "The lumps produced for a level depend only on that level (and options): building a wad of several levels gives each level the same lumps as building a wad that contains this level alone, whatever the order of the levels, the schedule, and whatever still runs in the background from earlier levels.",
 ["schedules", "inputs", "histories"], "every schedule and every sequence of levels in one wad",
 "No test builds even one level; leftovers of an earlier level (reused structures, pooled buffers, late workers) only matter across a history of levels.",
 ["level.go", "reject.go", "blockmapgen.go", "writebus.go", "trollgen.go", "selfref.go"],
 [("reinitialisation of the reused level object", "level.go DoLevel"), ("reject work state reset", "reject.go main")],
 ["per-level lump bytes"])

prop("C10", "Progress output is truthful and grouped by level",
 "Under every schedule, everything printed about a level appears after that level is announced and before the next level is announced or the final success message, and nothing about it is lost or printed twice (the order of messages within one level, and of the members of listed sector sets, is unspecified). The size (and, with --hashlump, the hash) printed for each lump equals the size and content of that lump in the output file (no hash is printed for a zero-filled REJECT).",
 ["schedules", "inputs", "configurations"], "every schedule and verbosity",
 "Ordering of messages from concurrent workers depends on the schedule; no test captures the output of more than one goroutine.",
 ["mylogger.go", "writebus.go", "lumpwrite.go", "nodegen.go", "level.go"],
 [("write bus sync between levels", "writebus.go Sync"), ("mutex in logger", "mylogger.go")],
 ["standard output of the run"])

prop("C11", "Multi-tree picks the documented best tree for any thread count",
 "In multi-tree mode every eligible root is tried exactly once, and the tree written is the best one under the documented comparison (no precious split, then fewest subsectors, smaller difference of heights, smaller height, fewest segs; a tree that fits the requested node format is preferred to one that does not unless --ableist is given) with ties going to the earliest root, regardless of the number of threads, the schedule, the --speedtree memory pooling setting and the order in which workers finish.",
 ["schedules", "configurations", "inputs"], "every thread count, schedule and pooling behaviour",
 "The tests never run multi-tree mode; which worker finishes first is decided by the scheduler.",
 ["multitree_plain.go", "multiformat_tree.go", "superblocks.go", "nodegen.go"],
 [("worker dispatch and comparison", "multitree_plain.go MTPSentinel_MakeBestBSPTree"), ("pooled superblocks", "multitree_plain.go MTPWorker_SpeedGenerateBSPTrees")],
 ["NODES, SEGS, SSECTORS, VERTEXES of the output; progress messages"])

prop("C12", "The blockmap search returns the optimum of its candidates",
 "When several blockmap offsets are tried without an endgoal, the blockmap written is as small as the smallest one any tried offset gives on its own (and fits the vanilla limits if any candidate does), for every number of workers and schedule. With an endgoal, the written blockmap meets the goal whenever some tried offset meets it, and with -d it is the first such offset in sequence.",
 ["schedules", "configurations", "inputs"], "every schedule, worker count, offset mode, compression mode and endgoal",
 "The search runs on several goroutines that recycle buffers and cancel each other; the tests call none of it.",
 ["blockmapgen.go", "bblocks.go"],
 [("hive comparison", "blockmapgen.go IsBlockmapBetter"), ("cancellation", "blockmapgen.go BlockmapBee"), ("backtracking over skipped offsets", "blockmapgen.go BlockmapHoleChaser"), ("lump buffer pool", "bblocks.go BlockmapGCShield")],
 ["BLOCKMAP lump compared with single-offset builds"])

prop("C13", "Every blockmap written is complete, whatever the workers did",
 "Under every schedule, the written BLOCKMAP has a valid header and in-range block lists, its blocks cover all collidable linedefs, and every such linedef is listed in every block its interior crosses and in no block its bounding box does not reach, even though the concurrent builders reuse each other's retired buffers. Dummy scroller lines are never listed. Identical lists are stored once, no word of the lump is wasted, the longest list comes last (without compression), and compression requested without a question mark (s, a) is carried out as documented.",
 ["schedules", "inputs", "configurations"], "every schedule, worker count and compression mode",
 "Buffer reuse between generations is only unsafe under interleavings in which a worker runs ahead of the collector; no test builds blockmaps concurrently.",
 ["bblocks.go", "blockmapgen.go", "blockity.go"],
 [("three-slot lump pool", "bblocks.go RotateLumpPool/getUnusedSlot")],
 ["BLOCKMAP and LINEDEFS lumps of the output"])

prop("C14", "The lumps of a rebuilt level fit together",
 "Under every schedule the concurrently produced lumps of a level reference each other correctly: LINEDEFS that are not dummies keep their order, properties and geometry, SEGS lie on their linedef and side and tile it completely (sides that are marked as not to be rendered have none), SSECTORS partition SEGS into convex pieces of one sector (unless it is tagged 900 or above), NODES form one binary tree whose leaves are exactly the subsectors, whose bounding boxes contain their segs and whose partition lines have every seg on its own side, and REJECT and BLOCKMAP match the number of sectors and linedefs. Every node format (vanilla, DeeP, extended, compressed) carries the same guarantees; when the level exceeds what the vanilla format can number, the program says so and leaves the nodes lumps empty rather than writing damaged ones.",
 ["schedules", "inputs", "configurations"], "every schedule, node format, partitioner and option list",
 "Nodes, reject and blockmap are built concurrently from shared geometry that the nodes builder renumbers; the tests build none of them.",
 ["nodegen.go", "znodegen.go", "node_intro.go", "node_outro.go", "level.go", "universal_interfaces.go", "zstream.go"],
 [("copy-on-write of lines and vertices", "universal_interfaces.go UnshareData/PruneUnusedVertices"), ("tree serialisation", "node_outro.go, zstream.go")],
 ["parsed level lumps of the output"])

prop("C15", "Sourced REJECT (NOPROCESS) is exact or openly declined",
 "When NOPROCESS asks to take REJECT from the previous build, another map or another wad, the written REJECT equals the named source lump byte for byte (before further RMB options are applied), for every schedule and whatever was rebuilt before in the same run. If the source is missing, unreadable, of the wrong size, contradicts an ASSERT of the option file or is the file being written, the program says so and builds REJECT normally; it never writes a partial or wrong lump.",
 ["schedules", "fault_sequences", "histories", "inputs"], "every schedule, read fault and sequence of NOPROCESS requests in one run",
 "The request travels from the reject worker to the main thread and back while other workers report results; no test runs it.",
 ["reject.go", "level.go", "filecontrol.go", "wad.go"],
 [("request/reply to the level thread", "level.go handleRejectNagging"), ("pinned wad directory", "filecontrol.go PinExternalWad"), ("original directory kept", "wad.go cloneSchedule")],
 ["REJECT lumps of source and output, messages"])

prop("C16", "The RMB report says whether it is complete",
 "The report file ends with the line stating that it was written successfully only if every entry of the run is in it and every write to it succeeded; if the run aborts before all entries are written, or a write fails, it does not carry that line. (A report that is closed as complete before a failing in-place overwrite of the wad is truthful; a report that cannot be created is announced on standard error and does not fail the build.) Its entries do not depend on the schedule.",
 ["fault_sequences", "schedules", "crash_points"], "every fault sequence, abort and crash point",
 "No test produces a report file.",
 ["filecontrol.go", "rejectRMB.go"],
 [("trailer line", "filecontrol.go CloseReportFile")],
 ["contents of the .rpt file"])

prop("C17", "Workers never touch the same data unsynchronised",
 "Under every schedule, any two accesses by different workers to the same memory, at least one of them a write, are ordered by the program's own communication (channels, mutexes), so that results never rest on timing or on the CPU's memory ordering.",
 ["schedules", "configurations", "inputs"], "every schedule, option list and input",
 "The tests are single-threaded; a race only exists between the concurrent builders of a level.",
 ["level.go", "nodegen.go", "reject.go", "solidblocks.go", "blockmapgen.go", "multitree_plain.go", "universal_interfaces.go", "writebus.go", "mylogger.go"],
 [("private copies and ownership transfer over channels", "level.go, universal_interfaces.go, multitree_plain.go")],
 ["happens-before relation of the simulated run"])

prop("C18", "Restart after a crash converges",
 "If an in-place build is killed at any point and the same command is run again on what is left, the second run either produces the same file an undisturbed build of the original or of the finished wad would produce, or refuses with a reported error and a non-zero status; it never builds from a half-written wad, and leftover temporary files of the first run are neither read nor damaged.",
 ["crash_points", "histories", "schedules"], "every crash point of the first run followed by a complete second run",
 "Needs a crash at an arbitrary system call followed by a restart on the surviving files.",
 ["filecontrol.go", "vigilantbsp.go", "wad.go", "level.go"],
 [("input validated before output is opened", "vigilantbsp.go main, wad.go TryReadWadDirectory"), ("unique temporary names", "filecontrol.go OpenOutputFile")],
 ["files after the second run"])

prop("C19", "A rebuild depends on the map, not on earlier builds of it",
 "Building the nodes, REJECT and BLOCKMAP of a wad that this program has built before, any number of times, with any options and formats, gives every rebuilt level exactly the lumps which the same command (with -d) gives on the original wad: nothing of an earlier build (vertices added for splits, converted or compressed nodes, created or emptied lumps, a changed order of the directory) finds its way into a later one, and what is not rebuilt stays the same however often the wad is rewritten.",
 ["histories", "schedules", "configurations", "inputs"], "every sequence of builds with any options, each under any schedule, for every wad",
 "No test builds a wad even once; leftovers of one build only matter to the next.",
 ["universal_interfaces.go", "level.go", "wad.go", "node_vmap.go", "lumpwrite.go"],
 [("vertices only used by old segs are pruned", "universal_interfaces.go PruneUnusedVertices"), ("lumps re-indexed on every build", "wad.go UpdateDirectoryAndSchedule")],
 ["lumps of the wad after the last build"])

# --- not applicable to this technique: pure functions of their input
prop("C40", "REJECT never hides sectors that can see each other",
 "Without RMB options, two sectors are marked mutually invisible only if no line of sight exists between any of their two-sided lines.",
 ["inputs"], "every level geometry", "Tests sample no maps for reject.",
 ["reject.go", "rejectLOS.go", "rejectDFS.go", "rejectFAST.go", "rejectSYMM.go"], [("line-of-sight computation", "rejectLOS.go")])
prop("C41", "RMB option files mean what the documentation says",
 "Parsing accepts exactly the documented grammar, and each RMB effect changes REJECT exactly as documented.",
 ["inputs"], "every RMB file and level", "Tests sample a handful of option lines.",
 ["rmbparse.go", "rejectRMB.go", "rmbunit.go"], [("parser", "rmbparse.go"), ("effects", "rejectRMB.go")])
prop("C42", "BSP partitions are geometrically exact enough to render",
 "Every seg lies on its side of every ancestor partition within the rounding the format allows, and all subsectors are convex.",
 ["inputs"], "every level geometry", "Tests sample a few hundred lines.",
 ["nodegen.go", "picknode.go", "diffgeometry.go", "intgeometry.go"], [("side classification", "nodegen.go doLinesIntersect")])
prop("C43", "Generated sources match their templates",
 "The committed generated sources equal what the generator produces from the originals.",
 ["programs"], "every revision of the sources", "No test runs the generator.",
 ["gen/codegen.go", "znodegen.go", "rejectFAST.go", "rejectSYMM.go"], [("generator", "gen/codegen.go")])
prop("C44", "Command line options are parsed as documented",
 "Every documented option string is accepted and sets the documented configuration; everything else is refused with an error.",
 ["inputs"], "every argument vector", "No test parses a command line.",
 ["cmdparser.go", "config.go"], [("parser", "cmdparser.go")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
