#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
N = {
"C01": ("differential monitor against an independent reference of the key agreement", "Every handshake driven (random, structured and forged remote encodings, both roles, several magics, all interfaces) is compared with a reference implementation self-tested on published vectors; unseen keys are not covered."),
"C02": ("differential monitor of cipher streams against an independent reference", "Every emitted byte and every decryption result of long mixed streams is compared with the reference, including positions past 2^32 reached through the guarded seek hook."),
"C03": ("exactly-once/in-order history checker over recorded writes and reads", "Histories of mixed interfaces over bounded pipes, deterministic and with real threads; holds for the histories observed."),
"C04": ("prefix-delivery monitor under active tampering of the byte stream", "Exhaustive single-bit flips of small sessions plus sampled edits, replays, reflections, truncations; tag guessing is out of reach."),
"C05": ("outcome monitor of handshakes against altered transcripts and misbehaving keyed peers", "Exhaustive single-bit flips of small handshakes, sampled edits, wrong roles/networks/secrets, every AAD placement."),
"C06": ("boundary monitor of garbage delimiting against a reference splitter", "Every garbage length 0..4095 each run with terminator-like fragments, bounded reads without terminator, sender side limits."),
"C07": ("differential monitor: same stream under different segmentations", "Every two-way cut of small streams and sampled segmentations, not-ready and interrupted results, both interfaces against the unsegmented outcome."),
"C08": ("history checker with cancellation at enumerated suspension points", "All subsets of suspension points for small streams, sampled schedules for large ones."),
"C09": ("state-equivalence monitor after refused operations, buffer canaries", "Refused operations are mixed into streams whose correct operations must keep matching the reference; buffers carry canaries."),
"C10": ("panic/liveness/allocation monitors under hostile and keyed-hostile input", "Counting allocator, CPU watchdog and panic capture around every call; sampled hostile inputs plus exact limit values."),
"C11": ("enumerated header values with a reference peer", "All 256 header values in session and handshake, all interfaces; contents sampled."),
"C12": ("fault enumeration over every byte position of the handshake", "Every close/reset/abort/other error kind at every read position (and write operation) of sampled handshakes."),
"C13": ("fault enumeration over every transport operation with a recording transport", "Each read/write/flush operation of sampled sessions fails once; background decoys of shaped connections included."),
"C14": ("offline checker: reference decryption of the whole shaped stream against the application log", "Interleavings produced by real threads, multi-threaded tokio and virtual time with slow/short transports."),
"C15": ("trace specification checker over time-stamped shaped streams", "Strategy rules on every observed packet, decoy rates statistically within very wide limits; virtual time for long idle periods."),
"C16": ("bounded-progress and release monitors on dropped connections", "Drop points over idle, in-decoy, broken, split, accepted-write states; bounds in check intervals."),
"C17": ("conservation monitor of concurrent statistics and of shaped sessions", "Final totals exact, concurrent queries within linearizability bounds, idle times between bracketing clock reads; shaped sessions through the guarded accessor."),
"C18": ("freshness and distinguisher monitors over populations of handshakes", "No repetition within the population, no listed re-encoding reproduces the key, bit/byte/algebraic statistics within 7.5 sigma; other distinguishers are not excluded."),
"C19": ("AddressSanitizer+LeakSanitizer+UBSan(C), ThreadSanitizer, MemorySanitizer, Miri", "Sanitizer reports over the hostile, concurrent, cancellation and fault workloads of the other properties, with libsecp256k1 and (TSan, MSan) the standard library instrumented; handshakes, packets, both interfaces, both shapers and the statistics in Miri with a toy group in place of libsecp256k1."),
"C20": ("history checker of one direction while the other is stalled, waiting, failed or dropped", "Both directions of plain and shaped, blocking and asynchronous sessions against the reference peer; kinds and moments of disturbance sampled."),
}
LEVEL = {"C12": "fault_enumeration", "C13": "fault_enumeration"}
m = {
 "version": 1,
 "setup_cmd": "./check.sh --setup",
 "hooks": {"guard": "cfg(bip324_verif)", "enable": "RUSTFLAGS=\"--cfg bip324_verif\" when check.sh builds the harness (path dependencies on /repo)",
           "source_commits": ["ea7b673b162f738d0f5ec6d39edc215e467c6a20", "d68703a70f18a7a5bd6d858f3ccc7c3a21e46b53"]},
 "checks": [{"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}", "evidence_file": f"evidence/{i}.json",
             "technique": "runtime monitoring: " + t, "level": LEVEL.get(i, "exploration"), "level_note": n} for i, (t, n) in N.items()],
 "not_applicable": [],
 "notes": "One Rust harness (harness/) linked against /repo's crates; see DESIGN.md.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
