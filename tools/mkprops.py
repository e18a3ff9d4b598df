#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single place where the property texts are edited)."""
import json, os
S = "preload-src/src/"
P = []
def at(f): return f[1:] if f[0] == "/" else S + f
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": [at(f) for f in files],
                          "state": [{"name": a, "meaning": b, "where": at(c)} for a, b, c in state],
                          "mechanism": [{"name": a, "where": at(b)} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "A save replaces the state file completely or not at all",
 "Whatever happens while the state is being saved (the process is killed at any system call, the disk is full, a write is short or fails, the target cannot be replaced), the state file afterwards holds either the complete previous state or the complete new one, never a partial file. A save that did not succeed is reported as failed, leaves the model marked unsaved so that a later save writes it, and leaves no temporary file or descriptor behind. Saving never writes through a symbolic link or stale file planted at the temporary name.",
 ["crash_points", "fault_sequences", "inputs"],
 "every model content x every file-system call of a save x {kill, ENOSPC, EIO, EACCES, short write, EINTR, size limit} x pre-existing file/link at the target and temporary names",
 "The unit tests save small models on a working disk only; the guarantee is over every interruption point and error.",
 ["handling/state_io.c", "handling/state.c"],
 [("write to <file>.tmp opened O_EXCL, then rename", "handling/state_io.c preload_state_write_file"),
  ("dirty flag cleared only on success", "handling/state.c preload_state_save")],
 ["bytes of the state file, directory listing, open descriptors, dirty flag after a save that was interrupted or failed"],
 [("dirty", "scan performed since last successful save", "handling/state.h")])

prop("C02", "Nothing learned is lost or altered by saving and restarting",
 "Saving the model and loading it again, in the same or a later daemon lifetime, yields the same model: model time, every tracked program with its running time, every file section with offset and length, every pair statistic (counts, dwell times, simultaneous time) and every learned launch sequence with its count, for file names of any bytes and any length the system allows to be tracked. Repeating save and load changes nothing further, and files written in the documented format by earlier versions (including without sequence data, which is then seeded from the pair statistics) are still understood. The periodic autosave bounds what an abrupt end can lose to one autosave period.",
 ["inputs", "histories"],
 "every reachable model (path bytes, sizes, counts, sequence trees) and every number of save/restart rounds",
 "test_state_io round-trips one or two tiny models with plain ASCII paths and never restarts the daemon on them.",
 ["handling/state_io.c", "handling/state.c", "algorithm/vomm.c"],
 [("line format PRELOAD/MAP/BADEXE/EXE/EXEMAP/MARKOV/VOMMNODE, paths as file URIs", "handling/state_io.c"),
  ("sequence tree export/import", "algorithm/vomm.c vomm_export_state, vomm_import_node"),
  ("hydrate sequences from pair statistics when the file has none", "algorithm/vomm.c vomm_hydrate_from_state")],
 ["the model after load compared with the model before save", "text of the second save compared with the first"])

prop("C03", "No state file content can crash or corrupt the daemon",
 "For any bytes in the state file, starting the daemon ends in exactly one of: the content is loaded, the file is ignored with a warning, or start-up is refused with an error message and a failure exit status; it never crashes, hangs, reads or writes invalid memory, or modifies the file while reading it. Whenever a file was accepted, the daemon can go on to scan, predict with either algorithm, save and reload without crashing or aborting. References to unknown items, duplicate items and syntax errors are rejected rather than half-applied silently, except sequence nodes that are unknown, orphaned, repeated or deeper than the model allows, which are skipped.",
 ["inputs"],
 "all byte strings, concentrated on structure-aware mutations of valid state files",
 "The tests feed about ten hand-written malformed files; the guarantee is over all files and over what the daemon does after accepting one.",
 ["handling/state_io.c", "handling/state.c", "algorithm/vomm.c", "algorithm/markov.c"],
 [("per-line parser with error codes", "handling/state_io.c read_state"),
  ("header/version check", "handling/state_io.c read_state"),
  ("fatal error on unreadable state", "handling/state.c preload_state_load")],
 ["exit status, sanitizer reports and log of a daemon started on the file", "bytes of the file afterwards"])

prop("C04", "The daemon survives every history of events in one piece",
 "Under every sequence of program starts, exits and re-launches, disappearing files, configuration reloads, algorithm switches, saves at any moment (requested, periodic, at exit), state dumps and restarts, the daemon performs no invalid memory access, trips no internal consistency assertion, does not hang and exits with success when asked to stop. Removing programs from the model at a save never leaves a dangling reference that later scanning, learning, predicting or saving uses. Releasing the whole model at shutdown in debug mode finds it consistent.",
 ["histories", "schedules"],
 "every interleaving of environment events and requests with the scan, update, predict and save phases, over several daemon lifetimes",
 "Unit tests call functions one at a time on fresh state; the failures live in event orderings between timers, signals and the environment.",
 ["handling/state.c", "monitoring/spy.c", "algorithm/vomm.c", "handling/exe.c", "handling/model_utils.c", "daemon/preload.c"],
 [("scan/update split over half cycles with pending lists", "monitoring/spy.c"),
  ("removal of vanished programs on save", "handling/model_utils.c preload_cleanup_invalid_entries"),
  ("reference-counted maps", "handling/map.c"), ("sequence tree holding program pointers", "algorithm/vomm.c")],
 ["sanitizer-instrumented daemon under generated event histories: exit status, reports, assertion messages"])

prop("C05", "The model contains exactly the eligible programs and their file sections",
 "After each observation round the tracked programs are exactly those ever observed running long enough to be examined whose path passes the program filter and whose accepted file mappings total at least the configured minimum size (less those later removed because their file vanished), and each is linked to exactly the accepted file sections it had mapped when first examined, shared between programs when path, offset and length agree. Programs below the minimum size are remembered as uninteresting and are examined again only after the next save; programs that end before they can be examined are not recorded. A program that is running is known as running exactly if the latest scan saw it.",
 ["histories", "configurations", "inputs"],
 "every process table history, mapping layout, filter and size limit",
 "No test drives the scan and update rounds; only object constructors are unit-tested.",
 ["monitoring/spy.c", "monitoring/proc.c", "handling/exe.c", "handling/map.c"],
 [("scan, then examine new programs half a cycle later", "monitoring/spy.c preload_spy_scan, preload_spy_update_model"),
  ("/proc/PID/maps parsing", "monitoring/proc.c proc_get_maps"), ("map sharing by (path, offset, length)", "handling/map.c")],
 ["model written out after each round compared with a reference model of the process history"])

prop("C06", "Model time and running-time accounting follow real elapsed time",
 "The model clock advances by exactly the time that elapses while the daemon runs, across normal cycles, battery-slowed cycles, reconfigured cycle lengths and restarts, at the granularity of half cycles, and rounds happen once per configured cycle. Each program's total running time grows at every accounting by the time since the previous accounting exactly if the latest scan saw it running, and the simultaneous time of a pair grows the same way exactly if both run. Running time never exceeds model time and never decreases.",
 ["histories", "configurations"],
 "every history of starts and exits, cycle length, battery state and restart point",
 "No test runs the timers; accounting over a history of cycles is never exercised.",
 ["handling/state.c", "monitoring/spy.c"],
 [("tick/tick2 advance of the model clock", "handling/state.c preload_state_tick, preload_state_tick2"),
  ("accounting period since last accounting", "monitoring/spy.c preload_spy_update_model")],
 ["saved model time, per-program time and per-pair time against virtual elapsed time"])

prop("C07", "Pair statistics are exactly those of the observed history",
 "For every two tracked programs there is exactly one pair record, and its transition counts, its number of departures from each of the four joint running states, its mean dwell time in each state and its current state equal those computed from the sequence of observed joint states since both were known, each transition being counted once even when both programs change in the same round. Time before a restart or while the daemon was down is not counted as dwell time. A pair created when one program is already known starts from the known program's last observed change.",
 ["histories"],
 "every interleaving of starts and exits of any set of programs over any number of cycles and restarts",
 "test_markov checks single transitions by hand; the invariant is over whole histories with several programs and restarts.",
 ["algorithm/markov.c", "monitoring/spy.c", "handling/exe.c", "handling/state.c"],
 [("state change accounting", "algorithm/markov.c preload_markov_state_changed"),
  ("reconstruction of the previous joint state for new pairs", "algorithm/markov.c preload_markov_new"),
  ("recompute running state on load", "handling/state.c preload_state_load")],
 ["pair records in the written model compared with statistics recomputed from the generated history"])

prop("C08", "Markov prediction ranks by the documented probability model",
 "With the Markov algorithm, the need assigned to each program that is not running is the combination over all its pairs of the probability that the pair leaves its current state within one and a half cycles, times the observed share of departures that lead to the program running, times the absolute correlation when enabled; pairs without departures or with mean dwell of at most one second contribute nothing. The need of a file section combines its programs, a running program counting against it, and sections are prefetched in order of need, never one without positive need. Predictions never change what has been learned.",
 ["inputs", "histories"],
 "every combination of pair statistics, running set, correlation setting and cycle length",
 "Only the correlation function has unit tests on a few values; bidding, combination and ranking are untested.",
 ["algorithm/prophet.c", "algorithm/markov.c"],
 [("bid formula", "algorithm/prophet.c markov_bid_for_exe"), ("correlation", "algorithm/markov.c preload_markov_correlation"),
  ("map need and sort", "algorithm/prophet.c preload_prophet_predict")],
 ["per-program and per-section need, and the sequence of prefetched ranges, against an independent computation"])

prop("C09", "Sequence learning records exactly the observed launch sequence",
 "Every observed launch of a tracked program (first examination, or transition from not running to running, once each regardless of its number of processes) extends the current context path by one counted step and counts one transition from the previously launched program to it; nothing else changes the counts. Contexts are at most five launches deep, after which learning continues from the empty context, so the model is bounded by the set of programs rather than by uptime. Learned sequences survive restarts, and removing a vanished program removes only what involves it.",
 ["histories"],
 "every launch sequence, of any length, over any set of programs, across restarts and removals",
 "test_vomm feeds short hand-written sequences and checks only that calls do not crash.",
 ["algorithm/vomm.c", "monitoring/spy.c", "handling/state.c"],
 [("tree and bigram update", "algorithm/vomm.c vomm_update"), ("launch events", "monitoring/spy.c running_process_callback, new_exe_callback")],
 ["sequence nodes in the written model compared with a reference tree built from the generated launches"])

prop("C10", "Sequence prediction favours what more often follows the recent launches",
 "With the VOMM algorithm, a program that is not running gets positive need exactly if it was ever observed to follow another launch, its need combines 1 - min(0.99, share of launches following the context) over every entry of the last five launches and the current deeper context, a small constant boost for direct continuations of the current context, and the dampened global share (0.1 + 0.4 x share of all transitions). All else equal a more frequent follower never ranks below a less frequent one. Running programs get no bid and the files only they use are not prefetched.",
 ["inputs", "histories"],
 "every learned tree, launch history and running set",
 "test_vomm only checks that prediction runs; ordering and combination are never compared with anything.",
 ["algorithm/vomm.c", "algorithm/prophet.c"],
 [("context, fallback and global voting", "algorithm/vomm.c vomm_predict"), ("map need and sort", "algorithm/prophet.c preload_prophet_predict")],
 ["per-program need and prefetch order against an independent computation", "metamorphic: followers that differ in frequency only, compare ranks"])

prop("C11", "Prefetching stays within the configured memory budget, most needed first",
 "In each cycle the sections chosen for prefetch are the longest run, in decreasing order of need, whose sizes (rounded up to kilobytes) all fit in what remains of max(0, total x memtotal% + available x memfree%) + cached x memcached% + buffers x membuffers%, percentages clamped to -100..100 and memory figures as currently reported by the kernel, with available memory estimated from free, cached and buffers on kernels that do not report it. Sections without positive need are never chosen, and nothing is prefetched when the budget is zero or negative.",
 ["inputs", "configurations"],
 "every memory report, percentage setting and set of section sizes and needs",
 "No test covers the budget or selection at all.",
 ["algorithm/prophet.c", "monitoring/proc.c"],
 [("budget and greedy cut-off", "algorithm/prophet.c preload_prophet_readahead"), ("/proc/meminfo parsing", "monitoring/proc.c proc_get_memstat")],
 ["set and order of prefetch requests against the reference selection"])

prop("C12", "Prefetch requests cover exactly the chosen file ranges in strategy order",
 "For every list of chosen sections the byte ranges requested from the kernel are, per file, exactly the union of the chosen ranges (touching or overlapping sections may be merged), whatever the overlaps, order, duplicates and sort strategy; a file that cannot be opened costs only its own ranges. Requests are issued in the configured order: none = order of need, path = by path then offset, inode = by inode number, block = by on-disk block with the inode number where the block is unknown. Where readahead is unsupported by the file system the same range is requested by the page-aligned memory-advice fallback.",
 ["inputs", "configurations", "fault_sequences"],
 "every list of sections, strategy, worker count and per-file failure",
 "No test calls the prefetch path.",
 ["handling/readahead.c"],
 [("sorting, merging", "handling/readahead.c preload_readahead, sort_files"), ("fallback", "handling/readahead.c try_readahead_with_fallback")],
 ["recorded kernel requests (file, offset, length, order) against the union of the input ranges"])

prop("C13", "Parallel prefetch respects the worker limit and always finishes",
 "At no time do more than the configured number of prefetch worker processes exist, with a limit of zero (or less) no process is created, and when a prefetch round ends every worker has been reaped. This holds when process creation fails at any point, when waiting is interrupted or reports that there are no children, when child-exit signals are ignored, and when a worker dies abnormally; the round always terminates. Workers never return into the daemon's own code or disturb its state.",
 ["schedules", "fault_sequences", "configurations"],
 "every number of requests, limit, and sequence of fork/wait failures and worker timings",
 "No test runs the parallel path; the property is over schedules and failures of fork/wait.",
 ["handling/readahead.c"],
 [("procs counter, wait_for_children", "handling/readahead.c"), ("fork per request", "handling/readahead.c process_file")],
 ["number of child processes after every fork and at the end of the round, termination within a time bound"])

prop("C14", "Configuration means what the documentation says and reloads atomically",
 "Every documented key sets its documented quantity in its documented unit, keys left out take their documented defaults, and an unreadable or ill-formed file or value is reported; at start-up that is fatal, at reload the previous configuration stays in force in full. A reload takes effect on the running daemon from the next cycle (the autosave period from the next autosave), for every key including the prediction algorithm, and removing a key returns it to its default. Repeated reloads, good or bad, never mix old and new settings.",
 ["configurations", "histories"],
 "every configuration text and every sequence of reloads of good and bad files",
 "No test loads a configuration file; the smoke test uses only the shipped template.",
 ["config/conf.c", "config/confkeys.h", "config/preload.conf.in", "daemon/preload.c"],
 [("confkeys x-macro with defaults and units", "config/confkeys.h"), ("load into a new struct, swap at the end", "config/conf.c preload_conf_load")],
 ["effective settings after each load compared with a reference interpretation of the text", "daemon behaviour after SIGHUP"])

prop("C15", "Program and file filters and path recognition follow the documented rules",
 "A path is decided by the first list item that is a prefix of it (an item starting with '!' rejects), and accepted if none matches, for programs and for mapped files alike. Only absolute, not deleted paths are considered, a file renamed by prelink counts as the original, and a path is recorded byte for byte, whatever characters it contains, or not at all if it is too long to be represented. Process entries that vanish, are unreadable or malformed are skipped without affecting the others, and the daemon never considers itself.",
 ["inputs", "configurations"],
 "every path, prefix list and process-table content",
 "No test exercises the filters or the /proc parsers.",
 ["monitoring/proc.c"],
 [("sanitize_file, accept_file", "monitoring/proc.c"), ("proc_foreach, proc_get_maps", "monitoring/proc.c")],
 ["programs and sections reported for a generated /proc against a reference interpretation"])

prop("C16", "Saving forgets exactly the programs whose files are gone",
 "At a save, exactly the programs that are not running and whose file no longer exists (or is no longer a regular file) are dropped, with all their pair records, launch-sequence entries and the file sections no remaining program uses; running programs, replaced files and files that merely cannot be examined (permission, stale handle, I/O error) are kept with everything known about them. Nothing else in the model changes, apart from the list of uninteresting programs being cleared.",
 ["inputs", "histories", "fault_sequences"],
 "every model, running set and combination of file conditions and stat errors",
 "test_model_utils checks the predicate on a few files; the effect on a connected model is not checked.",
 ["handling/model_utils.c", "handling/state.c", "handling/exe.c", "algorithm/vomm.c"],
 [("two-pass cleanup", "handling/model_utils.c preload_cleanup_invalid_entries"), ("validity predicate", "handling/model_utils.c preload_validate_exe"),
  ("unregister", "handling/exe.c preload_state_unregister_exe")],
 ["model before and after a save compared with the reference result"])

prop("C17", "Scanning, predicting and power saving obey their switches",
 "While any battery reports discharging the daemon neither scans nor prefetches and its rounds come at the documented slower pace, and it resumes on the next round after that ends. With scanning off the model, its learned data and its set of running programs do not change and it is not rewritten to disk, while prediction continues from the last known running set; with prediction off nothing is prefetched while learning continues. Each switch takes effect from the round after it is changed.",
 ["histories", "configurations"],
 "every sequence of battery states and switch settings over time",
 "No test runs rounds with switches or a battery.",
 ["handling/state.c", "utils/power.c"],
 [("checks at the start of each tick", "handling/state.c preload_state_tick"), ("power_supply status", "utils/power.c preload_on_battery")],
 ["prefetch requests, model contents and state-file writes per round against the schedule of switches"])

prop("C18", "Resources used depend on what is known, not on how long it has run",
 "Over any number of rounds, saves, failed saves, reloads, failed reloads, status requests and log reopenings that leave the model the same size, the daemon's open descriptors, child processes and allocated memory do not grow. In particular the learned sequence data of a fixed set of programs is bounded regardless of how many launches are observed, and every error path releases what it acquired.",
 ["histories", "fault_sequences"],
 "every repeated sequence of operations, including failing ones",
 "Tests run each operation a handful of times and do not measure resources.",
 ["handling/state_io.c", "config/conf.c", "monitoring/spy.c", "algorithm/vomm.c", "utils/log.c", "utils/power.c"],
 [("freeing of scan lists, GError, URIs, key files", "across the listed files")],
 ["descriptor count and allocated bytes before and after repeating the same generated block"])

prop("C19", "Every signal is honoured, whenever and however densely it arrives",
 "At any moment, including bursts and arrival in the middle of any activity, a hang-up signal leads to a configuration reload and log reopen, the user signals to a status dump and to an immediate save, and a termination, interrupt or quit signal to a final save and a successful exit; requests of the same kind may coalesce but none is lost, and the last request is acted on after it arrived. Signal arrival never deadlocks, crashes or otherwise disturbs the daemon.",
 ["schedules", "histories"],
 "every timing and combination of signals relative to the daemon's activity",
 "The smoke test sends one termination signal to an idle daemon; the property is over all arrival points.",
 ["daemon/preload.c", "handling/state.c", "utils/log.c", "config/conf.c"],
 [("handler defers work to the main loop", "daemon/preload.c sig_handler, sig_handler_sync")],
 ["reaction (files written, log lines, exit status) of a running daemon to generated signal schedules"])

prop("C20", "Start-up obeys the command line, in any combination of options",
 "Whatever sequence and spelling of options is given (short, long, abbreviated, joined, clustered, repeated, mixed with other words), the last occurrence of each setting decides which configuration, state and log file are used, the niceness, the verbosity and whether the daemon detaches; -d stands for no log file, foreground and verbosity 9 at its place. File names mean what they mean where the daemon is started, in the foreground and in the background, at start and later. Only the files so named are ever read as such or written; an existing log is appended to, new log and state files are not open to others, and messages appear in the log exactly up to the verbosity asked for. Asking for help or the version prints it and does nothing else; wrong usage, a configuration that cannot be loaded, a log that cannot be opened and a failing fork make the start fail with a message and a failure status before anything is left running, and a malformed state file likewise ends the daemon; otherwise, unless in the foreground, the caller gets success at once and the daemon runs detached from session, directory and umask.",
 ["inputs", "histories"],
 "every command line and every combination of named files that are present, absent or malformed",
 "No test passes a command line beyond a fixed one; the property is over all combinations.",
 ["config/cmdline.c", "daemon/preload.c", "utils/log.c", "handling/context.c", "config/conf.c", "handling/state_io.c"],
 [("option parsing", "config/cmdline.c preload_cmdline_parse"), ("start-up order and detaching", "daemon/preload.c main, daemonize"), ("log set-up and verbosity", "utils/log.c")],
 ["exit status, output, files, session, niceness, log content and loaded data of daemons started with generated command lines"])

prop("C21", "Installing, upgrading and removing touch only what is the daemon's own",
 "Under any sequence of installing, upgrading and removing with scripts/install.sh (and building and installing with scripts/build.sh), under any init system, any answers and whatever was there before: after a successful install the shipped program is in place and executable, an existing configuration is kept unless the user agrees to overwrite it, the service of a recognised init system is installed, enabled and started unless that is declined (a running one is stopped before its program is replaced, and what runs afterwards is the program just installed), and the daemon started in the installed way runs and can keep its state and its log. Removing stops and disables the service and removes the program and the service file, and removes the configuration and the daemon's state only where the user agrees, each separately. Nothing else in the system changes. Without root rights, with something to install missing, or with wrong usage nothing is changed and failure is reported; a step that fails makes the script report failure, never completion.",
 ["inputs", "histories", "fault_sequences"],
 "every sequence of operations, init system, answers and initial file tree, and every directory that cannot be written",
 "No test runs the installer at all; damage to the user's configuration or data needs a particular history and particular answers.",
 ["/scripts/install.sh", "/scripts/build.sh", "/preload-src/Makefile", "config/preload.conf.in"],
 [("installing", "/scripts/install.sh install, install_config, enable_service, stop_preload"), ("removing", "/scripts/install.sh uninstall"), ("building and installing", "/scripts/build.sh install_preload")],
 ["exit status, output, the whole file tree before and after, state of the service manager, and the installed daemon when it runs"])

prop("C22", "Status reports and verbosity tell the truth and change nothing",
 "Whenever a status report is requested, at any moment and any verbosity, the log receives the model time, the number of tracked programs, of uninteresting programs, of file sections and of programs known to be running, as they are at that moment, and every setting in force in its documented unit, in a form that read back as a configuration means the same settings. Neither a report nor the verbosity asked for changes what is learned, predicted, requested or saved, whatever the model and the settings are (including empty lists and values that look like format directives).",
 ["inputs", "histories", "configurations"],
 "every model, every configuration and every moment of every history at which a report may be requested",
 "No test requests a report; its truth depends on the whole history and configuration.",
 ["handling/state.c", "config/conf.c", "daemon/preload.c", "utils/log.c"],
 [("figures", "handling/state.c preload_state_dump_log"), ("settings", "config/conf.c preload_conf_dump_log"), ("request", "daemon/preload.c sig_handler_sync")],
 ["log text after a request compared with the reference model and the configuration in force; model and state file before and after"])

prop("C23", "Watching and prefetching leave everything else as it was",
 "Whatever the daemon observes, predicts and prefetches, it creates, changes and removes nothing but its state file (with the temporary beside it) and its log: watched programs, mapped files, process entries and the configuration keep contents, ownership, permissions and times, including the access times of prefetched files, and nothing else is ever opened for writing. What has come into the place of a mapped file and is not a regular file (FIFO, terminal, device, socket, directory) is neither opened nor waited for, and no terminal is acquired. Every prefetch request, by whichever process and in whichever way it is made, is made at idle I/O priority.",
 ["inputs", "histories", "fault_sequences"],
 "every history of programs and files, every kind of file at a recorded path, every strategy, worker limit and unsupported readahead",
 "No test looks at the files after prefetching or puts anything but regular files in its way.",
 ["handling/readahead.c", "monitoring/proc.c", "monitoring/spy.c", "handling/state_io.c"],
 [("opening and requesting", "handling/readahead.c process_file, try_readahead_with_fallback"), ("looking up positions", "handling/readahead.c set_block"), ("I/O priority", "handling/readahead.c preload_readahead")],
 ["metadata of the whole file tree before and after, programs waiting at FIFOs, open notifications, I/O priority at every request"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
