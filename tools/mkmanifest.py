#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the checks that exist (src/cNN.cpp)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": ("fault_enumeration", "fault injection at every file-system call of generated saves, bytes compared with the old and new state"),
 "C02": ("exploration", "generated models and daemon histories, round trip against an independent reader/writer and reference model"),
 "C03": ("exploration", "structure-aware mutation fuzzing of state files through the whole daemon, sanitizer and outcome oracle"),
 "C04": ("exploration", "stateful generation of daemon histories under AddressSanitizer, reference model for progress"),
 "C05": ("exploration", "stateful generation of process histories, reference model of tracked programs and sections"),
 "C06": ("exploration", "stateful generation of timed histories under virtual time, reference clock and accounting"),
 "C07": ("exploration", "stateful generation of joint running histories, pair statistics recomputed by a reference model"),
 "C08": ("exploration", "differential against an independent computation of needs and ranking, generated models and histories"),
 "C09": ("exploration", "stateful generation of launch histories, reference sequence tree"),
 "C10": ("exploration", "differential and metamorphic checks of sequence prediction on generated trees and histories"),
 "C11": ("exploration", "differential against a reference selection on generated memory reports and section lists"),
 "C12": ("exploration", "range-union and order oracle over generated section lists, strategies and injected errors"),
 "C13": ("fault_enumeration", "generated fork/wait fault schedules and worker deaths, live-worker bound at every fork"),
 "C14": ("exploration", "generated configuration texts and reload sequences against a reference interpretation, plus reloads in daemon histories"),
 "C15": ("exploration", "generated process tables and filters against a reference interpretation"),
 "C16": ("exploration", "generated models, file conditions and stat errors, reference removal; stateful histories"),
 "C17": ("exploration", "stateful generation of switch and battery schedules, per-round observation of requests and writes"),
 "C18": ("exploration", "repeated generated operation blocks, descriptor and heap growth invariant"),
 "C19": ("exploration", "generated signal schedules on the running daemon, reaction oracle"),
 "C21": ("exploration", "stateful generation of install, upgrade and removal histories with injected write failures, reference of the whole file tree and service state"),
 "C22": ("exploration", "generated models, configurations and daemon histories with reports requested at any moment, reference figures and settings, round trip through the configuration reader"),
 "C23": ("exploration", "generated prefetch rounds over files of every kind and daemon histories, snapshots of the whole file tree, waiting FIFO writers and I/O priority as oracle"),
 "C20": ("exploration", "generated command lines, file conditions and fork failures, observed daemon against the settings they ask for"),
}
NOTE = "Randomised search within the stated case counts; it can miss a violation it does not generate. Trusts the simulated operating system below libc, the harness's reference model, glib and clang's AddressSanitizer."
ex = [p for p in sorted(TECH) if os.path.exists(f"{V}/src/{p.lower()}.cpp")]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks are used: the checks compile the unmodified sources with -Dmain=preload_main for daemon/preload.c and interpose libc calls", "source_commits": []},
     "checks": [{"property": p, "quick_cmd": f"python3 run.py {p}", "thorough_cmd": f"python3 run.py {p} --tier thorough",
                 "evidence_file": f"evidence/{p}.json", "technique": "property-based testing: " + TECH[p][1], "level": TECH[p][0], "level_note": NOTE} for p in ex],
     "not_applicable": [{"property": p, "reason": "check under construction"} for p in sorted(TECH) if p not in ex]}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(ex), "checks")
