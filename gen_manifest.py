#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
T = "deterministic simulation with fault injection: seeded search over workloads, schedules and faults against %s"
NOTE = ("Seeded sampling, not exhaustive: a clean batch is evidence, not proof. %s Trusts the simulated kernel (sockets, epoll, signals, clocks) where the server is involved, the reference model in sim/, and the "
        "compiler. Real code: everything of /repo under src/ that takes part; nothing of /repo is stubbed.")
C = [
 ("C01", "a map model", "Library world: every result of the C++ and C API is compared with a map, full read-back at the end, asan flavour included."),
 ("C02", "a map model with eviction log", "Library world under memory pressure: each loss must be reported exactly once with intact bytes; every read is exact or a miss."),
 ("C03", "a map model with refusal bounds", "Library, server (-M) and allocator worlds driven to exhaustion, drained and refilled."),
 ("C04", "a map model with expiry windows", "Simulated clock with ticks inside operations, jumps over years, wall clock jumps."),
 ("C05", "a linearizability checker", "Server world: Wing-Gong style search over per-connection reply histories with cas tokens, eviction and expiry as allowed nondeterminism."),
 ("C06", "a byte-exact reply model", "Server world: random segmentation, pipelining, partial writes, send windows."),
 ("C07", "idle-time progress invariants", "Whenever the server waits, nothing it could do may be left; bounded system calls between waits."),
 ("C08", "a protocol model with hostile clients", "Generated malformed requests, garbage, floods beyond all buffer limits; asan flavour."),
 ("C09", "a prefix model of dying clients", "Close, half-close and reset at every kind of byte boundary with other clients active."),
 ("C10", "a datagram matching model", "Loss, duplication, reordering, delay, malformed datagrams, blocked socket."),
 ("C11", "models tolerant of the failed request only", "Injected failures of malloc/new at chosen points, single, repeated and in bursts."),
 ("C12", "an eviction oracle", "Library and allocator worlds: needless evictions, evictions of just-used items and evictions from several pages are violations."),
 ("C13", "an interval and contents model of the arena", "Allocator world: overlap, bounds, alignment, contents, reuse; arenas beyond 4 GB."),
 ("C14", "counters of a model", "Server and library worlds: every statistic compared with the model."),
 ("C15", "a map model with chosen hashes", "Library world with a hash function dictated by the plan: zero, equal, clustered."),
 ("C16", "64-bit saturating arithmetic", "Library and server worlds, numbers around every power of ten and of two, eviction of the counter itself."),
 ("C17", "signal delivery at every wait", "Signals between any two events; exit status, printed statistics, replies around the signal."),
 ("C18", "configuration model", "Command lines and library options, start-up system call faults, memories up to 8 GB (sparse)."),
 ("C20", "a bound on the work per operation", "Library world in a build that counts executed basic blocks: average and single-operation bounds about eight times above what is needed, far below anything proportional to items or pages."),
 ("C21", "restart expectations", "Start-up with what a predecessor leaves behind (stale socket, lingering connections) or next to a living server, with start-up system call faults, followed by a smoke workload."),
 ("C22", "a bound on the work per byte and system call", "Server world in a build that counts executed basic blocks and bytes moved; the bound (40 units per byte, 3000 per system call) is five to ten times above what is needed, far below anything quadratic."),
]
m = dict(version=1, setup_cmd="python3 -m py_compile check.py tools/simbuild.py && g++ --version > /dev/null",
  checks=[dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, technique=T % o, level="exploration", level_note=NOTE % n) for i, o, n in C],
  not_applicable=[
    dict(property="C19", reason="a pure function of its argument: no concurrency, time, I/O, scheduling or fault for a simulator to control; deciding it over all inputs is a job for proof or exhaustive testing. The conversions are exercised as part of C16 and C08."),
  ],
  notes="No hooks in /repo: all seams are link-time (ld --wrap) or interposed symbols, see DESIGN.md. The commits in /repo are fixes only.")
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
