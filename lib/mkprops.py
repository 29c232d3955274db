#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (python3 lib/mkprops.py rewrites it)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Every reachable file is visited exactly once, and nothing else is",
  "For any static directory tree and set of starting paths, a search with no filters visits each starting path and every file beneath it exactly once, under the path formed from the starting path, and visits nothing else. This holds for every search strategy (bfs, dfs, ids, eds), number of threads, sorting mode, -depth, optimization level, directory size and descriptor limit.",
  ["inputs", "configurations", "schedules"], "all trees (width, depth, names, types), all strategies x -j x -s x -depth x RLIMIT_NOFILE, all thread schedules",
  "The test suite walks a dozen small fixed trees; it never samples wide/deep random trees, tight descriptor budgets or perturbed schedules.",
  ["src/bftw.c", "src/dir.c", "src/ioq.c"],
  [("directory queue and file queue with slot/balance accounting", "bftw.c bftw_queue_*"), ("getdents buffering", "dir.c bfs_polldir/bfs_getdent"), ("iterative deepening bookkeeping of pruned/ancestor directories", "bftw.c bftw_ids*/bftw_eds")],
  ["paths printed by -print0/-printf"])

p("C02", "Visit order: parents first, -depth parents last, strategies keep their order",
  "A directory is always visited before anything beneath it, or after everything beneath it with -depth, under every strategy, thread count and schedule. Iterative deepening (ids) visits files in nondecreasing depth (nonincreasing with -depth), exponential deepening (eds) visits the depth ranges 0, 1, 2-3, 4-7, ... in order. With one thread (-j1) or with -s, breadth-first search visits files in nondecreasing depth, and depth-first search visits each directory's whole subtree contiguously.",
  ["inputs", "configurations", "schedules"], "all trees, strategies, thread counts and schedules",
  "Existing tests compare sorted output, so order is only pinned for a handful of -s cases.",
  ["src/bftw.c"],
  [("queue disciplines", "bftw.c bftw_queue flags/bftw_init"), ("post-order garbage collection", "bftw.c bftw_gc")],
  ["sequence of printed paths and depths"])

p("C03", "Sorted searches (-s) produce one deterministic order",
  "With -s, starting paths and the siblings in each directory are visited in ascending collation order, and the whole output is the same byte sequence on every run, equal to the order the strategy defines over sorted directories, whatever the thread count, schedule, descriptor limit or on-disk order.",
  ["inputs", "schedules", "configurations"], "all trees, -j, strategies, schedules, directory orders",
  "Tests run -s on tiny trees once per configuration; nondeterminism needs perturbed completion orders.",
  ["src/bftw.c"],
  [("sorted batches and buffered/ordered queues", "bftw.c bftw_list_sort, BFTW_QBUFFER/BFTW_QORDER")],
  ["sequence of printed paths"])

p("C04", "Expressions are evaluated with find's operator semantics",
  "For every well-formed expression and every file, tests and actions are evaluated left to right with the documented precedence (parentheses, negation, and, or, comma) and short-circuiting: an action takes effect exactly when the operands to its left require it, and only the last comma operand supplies the value. The default print is added exactly when no other action that suppresses it is present, and it applies to the whole expression.",
  ["inputs", "programs"], "all expression trees over tests and actions, all files",
  "The suite has a few dozen hand-written expressions; precedence and short-circuit bugs need arbitrary nesting with side-effecting operands.",
  ["src/parse.c", "src/eval.c", "src/expr.c", "src/opt.c"],
  [("recursive descent parser", "parse.c parse_expr/parse_clause/parse_term/parse_factor"), ("eval_and/eval_or/eval_not/eval_comma", "eval.c")],
  ["order and content of action outputs per file"])

p("C05", "Optimization levels never change what a search does",
  "For every command line, running with -O1, -O2 or -O3 (the default) has the same observable result as -O0: the same actions for the same files in the same per-file order, and the same exit status. This includes expressions whose tests contradict, imply or repeat each other.",
  ["programs", "inputs"], "all expressions over all tests/actions (with -exclude, -mindepth/-maxdepth), all trees",
  "Tests run each expression at one level with a handful of -O variants; the data-flow facts interact only in particular combinations of tests.",
  ["src/opt.c", "src/eval.c"],
  [("data flow analysis over predicates/ranges/types", "opt.c data_flow_*"), ("reordering by cost, simplification, short-circuit elimination", "opt.c reorder_andor/simplify_*")],
  ["outputs and exit status at each level"])

p("C06", "Depth limits, pruning, exclusion and early stop select exactly",
  "-mindepth/-maxdepth evaluate the expression exactly for files in the depth range, -prune (without -depth) skips exactly the contents of directories where it is evaluated, -exclude (and -nohidden) removes matching files and everything beneath them from the search, -X rejects exactly the files whose names xargs would split or unquote, and these compose. -quit, -exit and -limit stop the search at that point: no later file is evaluated, previously started actions complete, and the exit status is the requested one.",
  ["inputs", "programs", "configurations", "schedules"], "all combinations of controls, trees, strategies, thread counts",
  "Tests cover each control alone on one tree, not their interaction with strategies, -depth, threads and each other.",
  ["src/eval.c", "src/bftw.c", "src/parse.c", "src/opt.c"],
  [("eval_callback depth window/exclude/prune logic", "eval.c eval_callback"), ("bftw prune/stop actions and cleanup", "bftw.c bftw_visit/bftw_stop")],
  ["visited files and exit status"])

p("C07", "Metadata tests agree with the file's real metadata",
  "-type, -size (all units, rounding up), -empty, -perm (all modes and prefixes), -links, -inum, -uid/-gid/-user/-group, -nouser/-nogroup, -samefile, -sparse and -depth N match exactly the files whose metadata satisfies the documented comparison (N, +N, -N), for every value including boundaries.",
  ["inputs"], "all file metadata and all test arguments",
  "Tests use a few sizes/modes; boundary values, units, special bits and symbolic modes are not sampled.",
  ["src/eval.c", "src/parse.c", "src/stat.c", "src/dir.c", "src/pwcache.c"],
  [("bfs_expr_cmp and eval_* tests", "eval.c"), ("parse_icmp/parse_size/parse_mode", "parse.c"), ("statx conversion", "stat.c bfs_statx_convert")],
  ["set of matched files vs. lstat/stat"])

p("C08", "Time tests and timestamps are exact",
  "-[acmB]time, -[acmB]min, -used, -newer/-newerXY, -[acmB]newer and -[acmB]since compare file timestamps with nanosecond accuracy in the documented direction, unit and rounding, and -daystart measures from the coming midnight in local time. Every accepted timestamp argument denotes the instant its ISO-8601-like text, @seconds or reference file means in the current time zone; anything else is rejected.",
  ["inputs", "configurations"], "all file times, arguments and time zones",
  "Tests use a couple of files and dates with wide margins; boundaries, units, zones and sub-second differences are unsampled.",
  ["src/eval.c", "src/parse.c", "src/xtime.c"],
  [("timespec arithmetic", "xtime.c, eval.c eval_time/eval_newer/eval_used"), ("timestamp parser", "xtime.c xgetdate"), ("-daystart", "parse.c parse_daystart")],
  ["set of matched files vs. utimensat values"])

p("C09", "Name, path, link and regex tests match exactly what the pattern means",
  "-name/-iname (base name), -path/-wholename/-ipath/-iwholename (whole path), -lname/-ilname (link target) match exactly the files whose string matches the shell pattern (literal fast paths included), and -regex/-iregex match exactly when the regular expression of the selected -regextype matches the whole path. -hidden matches exactly names beginning with a dot.",
  ["inputs"], "all patterns and names (including bytes invalid in the locale, trailing slashes, escapes)",
  "Tests try a few dozen patterns on ordinary names.",
  ["src/eval.c", "src/parse.c", "src/xregex.c"],
  [("literal detection and fnmatch", "parse.c parse_fnmatch, eval.c eval_fnmatch"), ("anchored regex execution", "xregex.c bfs_regexec")],
  ["set of matched files vs. fnmatch(3) and an independent regex oracle"])

p("C10", "Symlinks are followed exactly as requested, and every search terminates",
  "-P never follows, -H follows only starting paths, -L/-follow follows everywhere and treats broken links as links; -type, -xtype and all metadata tests see the file or the link accordingly. Symlink cycles always terminate: each loop is reported as an error and not descended, unless -unique, under which every file is visited at most once per identity.",
  ["inputs", "configurations", "schedules"], "all symlink graphs, modes and strategies",
  "Tests contain one or two loops; arbitrary link graphs through several directories are not sampled.",
  ["src/bftw.c", "src/eval.c", "src/stat.c", "src/dir.c"],
  [("stat flag selection and fallback", "bftw.c bftw_stat_flags, stat.c bfs_stat_tryfollow"), ("ancestor identity loop detection", "bftw.c bftw_visit (BFTW_DETECT_CYCLES)"), ("-unique id set", "eval.c eval_file_unique")],
  ["visited paths, reported loops, exit status"])

p("C11", "Filesystem boundaries are respected",
  "-xdev visits mount points but nothing beneath them, -mount visits neither, for every strategy and starting path (each starting path defines its own filesystem); without them all filesystems are crossed. -fstype and %F name the type of the filesystem that holds the file.",
  ["inputs", "configurations"], "all arrangements of device boundaries in the tree",
  "Mount tests are skipped without privileges and cover one arrangement.",
  ["src/bftw.c", "src/mtab.c", "src/eval.c"],
  [("device comparison", "bftw.c bftw_is_mount/bftw_should_... (BFTW_PRUNE_MOUNTS/BFTW_SKIP_MOUNTS)"), ("mount table", "mtab.c")],
  ["visited paths with known device layout"])

p("C12", "-delete removes exactly the matching files, never anything else",
  "After a search with -delete, exactly the files for which -delete was evaluated successfully are gone; no file outside the starting trees and no symlink target is ever removed, directories are removed only when empty (children first), and each failed removal is reported and makes the exit status nonzero while the rest proceeds. This includes symlinks to files and directories elsewhere, unremovable files, removals that fail, and non-matching files inside matching directories.",
  ["inputs", "fault_sequences", "schedules", "configurations"], "all trees/expressions/strategies, injected unlink failures",
  "Tests delete one small tree; containment under failure and links is unsampled.",
  ["src/eval.c", "src/bftw.c"],
  [("unlinkat relative to the parent descriptor with no-follow type", "eval.c eval_delete"), ("post-order", "parse.c -delete implies -depth")],
  ["every unlinkat/rmdir issued; the tree afterwards"])

p("C13", "-exec ... ; runs once per file with exact arguments and truth value",
  "-exec CMD ; (and -ok after an affirmative answer) runs the command exactly once for each file it is evaluated on, with every {} replaced by the exact bytes of the path, waits for it, and is true exactly when it exits with status 0; it never goes through a shell and preceding output is visible before the command runs. A command that cannot be started is reported and makes the exit status nonzero.",
  ["inputs", "programs", "fault_sequences"], "all names, templates, exit statuses, spawn failures",
  "Tests use plain names and a couple of templates.",
  ["src/exec.c", "src/xspawn.c", "src/eval.c"],
  [("template substitution and spawn", "exec.c bfs_exec_format_arg/bfs_exec_spawn"), ("flush before exec", "exec.c/ctx.c bfs_ctx_flush")],
  ["argv log recorded by the executed command"])

p("C14", "-exec ... {} + passes every match exactly once within system limits",
  "The concatenation of the argument lists of all invocations of -exec CMD {} + is exactly the sequence of files it was evaluated on, in order, none lost, duplicated or altered, each invocation beginning with the fixed arguments and fitting the system's argument limits, even when the kernel rejects a batch as too long or files arrive after failures. Invocations are batched (not one per file), and the exit status is nonzero if any invocation fails.",
  ["inputs", "fault_sequences", "configurations"], "all numbers/lengths of names, limits (stack rlimit, environment size), injected E2BIG and exit failures",
  "Tests use fewer than twenty short names in one batch.",
  ["src/exec.c"],
  [("argument size accounting, E2BIG recovery with leftover arguments", "exec.c bfs_exec_flush/bfs_exec_args_remain/bfs_exec_update_min/max"), ("final flush", "eval.c eval_finish / exec.c bfs_exec_finish")],
  ["argv logs of the invocations"])

p("C15", "-execdir runs in the file's own directory with ./name arguments",
  "-execdir/-okdir (both ; and +) run the command with its working directory set to the directory that contains the file and with {} replaced by ./ plus the base name, such that the argument names that very file from there, for all starting path spellings, strategies and -depth. With +, an invocation contains only files of one directory, and every match is passed exactly once.",
  ["inputs", "configurations"], "all trees, starting path spellings, -depth/strategies, batches",
  "Tests check a few paths; trailing slashes, roots and batch flushing across directories are barely sampled.",
  ["src/exec.c", "src/xspawn.c"],
  [("working directory tracking", "exec.c bfs_exec_openwd/closewd/changed_dirs"), ("fchdir in the child", "xspawn.c bfs_spawn_addfchdir")],
  ["cwd + argv + device/inode seen by the executed command"])

p("C16", "Executed commands inherit a clean, original process environment",
  "Commands run by -exec/-ok variants see only the standard descriptors (no leaked descriptors), the original working directory (or the file's directory), the original descriptor limit, signal dispositions and signal mask, and the original environment. bfs itself never leaves zombie or orphan children.",
  ["configurations", "schedules", "programs"], "all strategies, thread counts, numbers of open directories at spawn time",
  "Descriptor hygiene is only checked by one closed-stdin style test.",
  ["src/xspawn.c", "src/exec.c", "src/eval.c", "src/dir.c", "src/sighook.c"],
  [("O_CLOEXEC everywhere", "dir.c/bfstd.c/exec.c"), ("rlimit restore", "exec.c bfs_exec_spawn, xspawn.c bfs_spawn_setrlimit"), ("signal mask/handler reset", "xspawn.c bfs_spawn_exec, sighook.c sigreset")],
  ["/proc/self of the executed command"])

p("C17", "Failures are reported, never silent, and never stop the rest",
  "If opening, reading, examining or acting on any file fails, bfs prints a diagnostic naming it, still processes everything else it can reach, and exits with a nonzero status; with no failure it exits 0 with nothing on stderr. -noerror and -ignore_readdir_race suppress exactly what they document.",
  ["fault_sequences", "inputs", "configurations"], "every system call failure point, all strategies and thread counts",
  "Tests cover permission-denied on one directory; other failure points need fault injection.",
  ["src/bftw.c", "src/eval.c", "src/dir.c", "src/ioq.c", "src/diag.c", "src/main.c"],
  [("BFTW error propagation", "bftw.c bftw_error/bftw_visit with BFTW_RECOVER"), ("error accounting", "eval.c eval_error/eval_report_error")],
  ["stderr, exit status, visited set under injected faults"])

p("C18", "No output is lost or reordered silently",
  "Everything an output action writes reaches its destination completely and in evaluation order — including several actions sharing one file under different names, stdout shared with executed commands, and interleaved file outputs — and if any write, flush or close fails (full disk, closed descriptor, broken pipe), the exit status is nonzero and the error is reported. An output file named on the command line is created even if nothing matches.",
  ["fault_sequences", "inputs", "programs"], "all write failure points, output sizes and file aliasings",
  "Only /dev/full with one action is tested.",
  ["src/ctx.c", "src/eval.c", "src/color.c", "src/printf.c"],
  [("deduplicated output files", "ctx.c bfs_ctx_dedup"), ("flush/close error checks", "ctx.c bfs_ctx_fflush/bfs_ctx_free")],
  ["bytes received, exit status under write faults"])

p("C19", "Results do not depend on resource limits; descriptors do not leak",
  "A search yields the same results under any descriptor limit that leaves a few descriptors free as without limits, never holds more descriptors than allowed, and has closed every directory it opened by the time it ends. Descriptor use does not grow with the number of files.",
  ["configurations", "inputs", "schedules"], "all RLIMIT_NOFILE values/inherited descriptors, tree shapes, strategies",
  "One test uses a low ulimit on one deep tree.",
  ["src/bftw.c", "src/eval.c", "src/dir.c"],
  [("descriptor cache with LRU eviction", "bftw.c bftw_cache_*"), ("raise/infer limits", "eval.c raise_fdlimit/infer_fdlimit")],
  ["open/close event log"])

p("C20", "No memory-safety errors or undefined behaviour on any input",
  "No command line, environment (colors, locale, time zone), file tree, file metadata or input file makes bfs read or write memory out of bounds, use freed or uninitialized memory, leak without bound, overflow signed arithmetic, or abort on an internal assertion.",
  ["inputs", "programs", "configurations"], "all argument vectors, environments and trees",
  "The suite runs without sanitizers and on well-behaved inputs.",
  ["src"],
  [("bounds-checked strings, arenas and tries", "dstring.c alloc.c trie.c"), ("parser validation", "parse.c printf.c xtime.c color.c")],
  ["sanitizer reports, signals"])

p("C21", "Parallel searches are race-free and always terminate",
  "For every schedule of the background I/O threads, including early stop, errors, thread creation failure and cancellation while requests are in flight, there is no data race, no deadlock or lost wakeup, and the process terminates with the same result as a sequential run (or, if its threads cannot be created, with an error).",
  ["schedules", "fault_sequences", "configurations"], "all interleavings of the main and I/O threads for all trees and stop points",
  "Tests run under one natural schedule per run without a race detector.",
  ["src/ioq.c", "src/bftw.c", "src/thread.c", "src/sighook.c", "src/atomic.h"],
  [("blocking MPMC queue with monitors", "ioq.c ioqq_*"), ("cancellation and stop sentinels", "ioq.c ioq_cancel/ioq_ring_exit")],
  ["race detector reports, termination, results"])

p("C22", "Every queued I/O request is answered exactly once",
  "Each request accepted by the asynchronous I/O layer yields exactly one response carrying its own identity and the result the operation would have had synchronously, under any number of threads, queue depth, submission order, back-end (kernel ring or threads), short submission and kernel error; after cancellation pending work completes or reports interruption, and closes still happen. Requests beyond capacity are refused, not dropped.",
  ["schedules", "histories", "fault_sequences"], "all sequences of submissions/pops/cancel with any depth and thread count",
  "The unit test pushes one queue's worth of no-ops.",
  ["src/ioq.c", "src/ioq.h"],
  [("queue capacity accounting", "ioq.c ioq_request/ioq_capacity"), ("batch push/pop", "ioq.c ioqq_push_batch/ioqq_pop_batch"), ("ring dispatch and reaping", "ioq.c ioq_ring_*")],
  ["request/response history"])

p("C23", "Running out of memory is a clean failure",
  "If any of bfs's own allocations fails at any point of a search, it never crashes, corrupts output or loops: it either recovers with complete correct results or reports an error and exits nonzero. (An owner whose name cannot be looked up may be shown by number.)",
  ["fault_sequences"], "every allocation site and ordinal, for many command lines",
  "Allocation failure is never exercised by the suite.",
  ["src"],
  [("checked allocation", "alloc.c, dstring.c and callers"), ("error propagation", "bftw.c, eval.c, parse.c, ioq.c")],
  ["exit status, sanitizer reports, output vs. model"])

p("C24", "Concurrent modification never corrupts a search",
  "While other processes create, rename and delete files in the tree, files that exist undisturbed for the whole search are still visited exactly once with correct paths, files that never existed are never reported, and the search terminates; with -ignore_readdir_race disappearing files cause no error.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of the search with external mutations",
  "The suite has one or two scripted races.",
  ["src/bftw.c", "src/eval.c", "src/stat.c"],
  [("openat relative to cached parents", "bftw.c bftw_file_openat"), ("race error filtering", "eval.c eval_should_ignore")],
  ["visited paths vs. mutation log"])

p("C25", "-printf and -ls render exactly the documented text",
  "-printf/-fprintf produce, for each file, exactly the format with every directive (with flags, width and precision), escape and literal byte rendered from that file's path and metadata, and -ls/-fls show the file's inode, blocks, mode, links, owner, group, size or device, time, path and link target.",
  ["inputs"], "all formats and all files",
  "Tests cover each directive about once.",
  ["src/printf.c", "src/eval.c", "src/bfstd.c"],
  [("format compiler and directive table", "printf.c bfs_printf_parse"), ("mode string", "bfstd.c xstrmode"), ("eval_fls", "eval.c")],
  ["output bytes vs. model"])

p("C26", "Paths are emitted unambiguously and terminals are protected",
  "-print0 and non-terminal -print/-printf output paths byte for byte; -printx escapes so that the shell-word splitting it documents recovers the path; with colors enabled the text that -print, -ls and the plain (unpadded) path directives of -printf write, and the paths in error messages, are the path itself with control and undecodable bytes shown as $'...' escapes denoting the same bytes, so that no file name can inject terminal sequences; and command-line arguments quoted in diagnostics are valid shell words denoting exactly those bytes.",
  ["inputs", "configurations"], "all byte strings usable as names, in every locale",
  "Tests use a couple of odd names.",
  ["src/color.c", "src/bfstd.c", "src/dstring.c", "src/eval.c"],
  [("wordesc/ttyesc", "bfstd.c wordesc/wordnesc"), ("colored printing", "color.c print_path_colored/print_wordesc")],
  ["output bytes on pipes and on a pseudo-terminal"])

p("C27", "LS_COLORS is interpreted like ls does",
  "For every accepted LS_COLORS/BFS_COLORS value and every file, the color chosen for each path component (type, permissions, links, orphan/missing, hard links, case-aware longest/last extension match, reset/left/right/end codes) is the one the documented precedence dictates, and malformed values disable color (or, with -color, are rejected with an error) rather than misbehave.",
  ["inputs", "configurations"], "all LS_COLORS strings and files",
  "Tests use a few fixed LS_COLORS strings.",
  ["src/color.c", "src/trie.c"],
  [("extension tries with smart case", "color.c set_ext/build_iext_trie/get_ext"), ("file_color precedence", "color.c file_color")],
  ["escape sequences emitted per file"])

p("C28", "Invalid command lines are rejected before doing anything",
  "A command line with an unknown or malformed option, test, action, argument or operator structure is rejected with a diagnostic and nonzero status before any file is visited or any action (print, exec, delete) takes effect (output files named by -fprint and the like may already have been created), and a valid one is never rejected.",
  ["programs", "inputs"], "all argument vectors",
  "Tests check a list of specific bad command lines.",
  ["src/parse.c", "src/printf.c", "src/exec.c", "src/xtime.c"],
  [("parser error paths", "parse.c parse_*")],
  ["exit status, stderr, side effects"])

p("C29", "Starting paths from every source are all searched, in order",
  "Starting paths given before, between or after expressions, after -f, or NUL-separated via -files0-from (file or stdin) are each searched exactly as given and in order, '.' is used exactly when none is given, and a missing starting path is reported while the others are still searched. Any byte string usable as a path works, including ones that begin with a dash when given via -f, -files0-from or ./.",
  ["inputs", "programs"], "all lists of paths and placements",
  "Tests use two or three simple roots.",
  ["src/parse.c", "src/ctx.c", "src/bfstd.c"],
  [("path collection", "parse.c parse_root/parse_f/parse_files0_from, bfs_parse_cmdline default root")],
  ["visited roots in order"])

p("C30", "Interruption and closed pipes stop bfs cleanly",
  "If bfs is terminated by a signal it stops promptly at any point and dies by that signal, and if its output reader goes away it dies by SIGPIPE or reports the broken pipe; what was written until then is a beginning of the correct output (no garbled, duplicated or invented record). Colours and the status line are undone on the terminal. Signals that do not terminate bfs (resizing, continuing, ignored ones) change nothing, SIGUSR1 during the search only shows or hides the status line, and a status line never corrupts normal output or what was on the screen.",
  ["crash_points", "schedules"], "all instants of signal delivery",
  "Only a couple of signals are tested at quiet moments.",
  ["src/sighook.c", "src/eval.c", "src/bar.c", "src/xspawn.c"],
  [("async-signal-safe hook lists", "sighook.c"), ("SIGINFO/bar handling", "eval.c, bar.c")],
  ["wait status, output prefix, terminal byte stream"])

p("C31", "Core containers behave like their mathematical models",
  "The string map, growable string, list and arena facilities behave exactly like a map, string, sequence and allocator for every sequence of operations and any byte content: what was inserted is found (by exact, prefix and longest-match lookup), nothing else is, removal is precise, iteration covers everything once, live allocations never overlap, and memory given back is used again.",
  ["histories", "inputs"], "all operation sequences and keys",
  "Unit tests use a fixed list of about twenty keys.",
  ["src/trie.c", "src/dstring.c", "src/list.h", "src/alloc.c"],
  [("qp-trie with SIMD-ish prefix search", "trie.c"), ("dynamic strings", "dstring.c"), ("intrusive lists", "list.h"), ("arenas", "alloc.c")],
  ["operation history vs. reference model"])

p("C32", "Access, attribute and ownership tests reflect the system's answer",
  "-readable/-writable/-executable agree with what the invoking user may actually do, and -xattr/-xattrname, -acl and -capable match exactly the files that carry the corresponding extended data, for files, directories and links under every symlink mode.",
  ["inputs", "configurations"], "all mode/owner combinations for privileged and unprivileged users, all attribute sets",
  "Tests check one file each, mostly skipped without privileges.",
  ["src/eval.c", "src/fsade.c", "src/bfstd.c"],
  [("faccessat", "bfstd.c xfaccessat, eval.c eval_access"), ("xattr/ACL/capability queries", "fsade.c")],
  ["set of matched files vs. direct system queries"])

p("C33", "Drop-in compatibility with GNU find",
  "For the options, tests, operators and actions that GNU find documents with the same meaning, bfs selects the same files, prints the same records (whatever the order), runs the same commands, leaves the same tree after -delete, and exits with zero exactly when GNU find does, for every tree, symlink mode, set of starting paths and unreadable directory, whatever the strategy and number of threads.",
  ["inputs", "configurations"], "all command lines over the shared features, all trees",
  "The test suite compares with stored expected outputs for a few fixed trees.",
  ["src/parse.c", "src/eval.c", "src/printf.c", "src/exec.c", "src/bftw.c"],
  [("argument parsing", "parse.c"), ("expression evaluation", "eval.c"), ("-printf, -fls", "printf.c, eval.c"), ("-exec family", "exec.c"), ("traversal", "bftw.c")],
  ["records on standard output and in files, executed commands, tree afterwards, exit status of both programs"])

p("C34", "Debugging, warning and informational flags never change what bfs does",
  "Debugging flags (-D opt, cost, exec, rates, search, stat, tree, all), -warn/-nowarn, -noleaf, -nocolor, -status and other flags documented as informational or accepted for compatibility never change the files matched, the output, the commands run, the files deleted or the exit status; they only add diagnostics on standard error.  --help, --version and the help variants of -D, -S and -regextype print their text, exit with zero, and do nothing else, whatever else is on the command line.",
  ["inputs", "configurations"], "all command lines with any combination of these flags",
  "The tests run each debugging flag about once, and compare nothing but the output of one command.",
  ["src/parse.c", "src/opt.c", "src/eval.c", "src/bftw.c", "src/main.c", "src/diag.c", "src/bar.c"],
  [("flag parsing", "parse.c"), ("debugging output", "diag.c, expr.c, eval.c, opt.c, exec.c"), ("status bar", "bar.c, eval.c")],
  ["standard output, output files, executed commands, tree afterwards and exit status with and without the flags"])

p("C35", "Doubtful command lines do nothing unless confirmed",
  "When standard input and standard error are a terminal, a command line with a misspelled primary, with -prune made useless by -depth, or with a test whose result is ignored after an action that cannot be undone, is questioned before anything is done.  Unless every question is answered with yes (any other answer, or end of file, is no), bfs prints nothing to standard output, runs no command, deletes nothing and exits with a nonzero status; when all are confirmed it does exactly what the corrected command line does.  Without a terminal a misspelled primary is always an error.",
  ["inputs", "histories"], "all command lines, misspellings, sequences of answers",
  "The tests have no terminal, so that none of the interactive code runs.",
  ["src/parse.c", "src/opt.c", "src/typo.c", "src/bfstd.c", "src/diag.c"],
  [("guessing", "parse.c parse_primary"), ("warnings about ignored results", "opt.c"), ("reading the answer", "bfstd.c ynprompt, xrpmatch")],
  ["prompts shown on a pseudo-terminal, answers, executed commands, deleted files, output, exit status"])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            x["statement"] = x["statement"].replace("  ", " ")
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P))
