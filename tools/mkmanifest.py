#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py (run by hand after changing the checks)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import checks
SANS = "clang ASan+UBSan build of the real code"
TECH = {
    "C01": "online model checker of command traces (library and server) on " + SANS,
    "C02": "online model + eviction-callback conservation monitor on " + SANS,
    "C03": "shadow-heap monitor (bounds, overlap, content patterns) of the allocator; sanitizers; project assertions on",
    "C04": "capacity/conservation monitor over empty-refill cycles",
    "C05": "online model with per-key record of all uniques, library and server",
    "C06": "online model under an interposed virtual clock (moves between and inside operations)",
    "C07": "online model with 128-bit reference arithmetic, library and server",
    "C08": "online model with sizes concentrated at the limits; host-heap item build for redzones",
    "C09": "online model with adversarial hash functions; full-table audits during growth",
    "C10": "byte-exact reply trace checker over fragmented and pipelined connections to the sanitized server",
    "C11": "hostile-input fuzzing of the sanitized server with canary-data, liveness and grammar monitors",
    "C12": "stalled-reader stress with reply-trace, latency and RSS monitors",
    "C13": "recorded concurrent histories checked offline for linearizability (Wing & Gong) and conservation",
    "C14": "statistics conservation monitor: every counter against the operations performed",
    "C15": "eviction trace checker: identity of each victim against the access history",
    "C16": "online model through the C API on " + SANS + ", guarded buffers",
    "C17": "datagram-exact trace checker over UDP to the sanitized server",
    "C18": "differential monitor against 128-bit reference conversions, guarded buffers, " + SANS,
    "C19": "online byte-string model of the buffer on " + SANS,
    "C20": "start-option fuzzing with monitors of observable configuration",
    "C21": "signal injection in random connection states; exit status, latency, sanitizer and restart monitors",
    "C22": "differential monitors against byte-string, bit and list models, guarded buffers",
    "C23": "host allocation fault injection with model comparison and leak monitor",
    "C25": "several caches interleaved in one process, each against its own online model, with moves and destruction; " + SANS,
    "C26": "definedness tracking and leak detection (valgrind memcheck) of the real library and server under the model-checked workloads, both allocation modes",
    "C24": "connection-abort injection with content, statistics and descriptor monitors",
}
man = {
    "version": 1, "setup_cmd": "python3 lib/build.py",
    "checks": [{
        "property": i, "quick_cmd": "python3 run.py %s" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "exploration",
        "level_note": "Held on every execution monitored (%s). Sampled executions, not all; trusts the reference model in /verif and the sanitizers." % c.rule,
    } for i, c in sorted(checks.CHECKS.items())],
    "not_applicable": [],
    "notes": "No hooks in /repo: the monitors observe public interfaces, sockets and processes; time, host allocation and faults are interposed at link time. Defects found and repaired are in known_findings.txt.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1); f.write("\n")
