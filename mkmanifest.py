"""Regenerates MANIFEST.json from the properties implemented in dst/props.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, "dst"))
import core
core.import_sut()
import props
NOTES = {
 "C01": "Seeded exploration of request histories; each answer and file compared with a fresh model in a fresh process, so the oracle is the library itself without history. Trusts CPython/numpy determinism; only sampled histories are covered.",
 "C02": "Faults at sampled executed library lines, n-th linear solve/inverse/allocation and malformed requests; every later answer compared with a fresh process. Faults inside numpy/C calls appear only at their boundaries; none injected in except/finally/with-exit lines.",
 "C03": "Caller dictionaries compared bit-exactly after every request, with interrupts at sampled library lines and failing solves/allocations. Only sampled points.",
 "C04": "Results compared bit-exactly with their snapshot after every later event; returned values, arguments and construction data are overwritten by the simulated caller. Sampled histories.",
 "C05": "Real threads run one at a time under a seeded scheduler that can switch at every executed library line (not inside numpy/C calls); answers and files compared with the client alone. Sampled schedules.",
 "C06": "Simulated file layer over real scratch files: short and interrupted writes, small buffers, interrupts; every state of a JSON output after each system call is examined as a crash state. A process crash is modelled, not power loss (no fsync is promised).",
 "C07": "One failing system call per request at sampled positions (open, write, full device at a byte, close, read-back), then a retry on a healthy system. Library code that bypasses Python's open would escape the layer.",
 "C08": "Short, interrupted and failing reads, missing and truncated input files, then changed and deleted inputs; the model is compared with one loaded on a healthy system.",
 "C09": "Multi-solve analyses in histories with faults and in interleavings, recomputed from individual solves on fresh models; differences allowed only up to rounding of a central difference.",
 "C10": "Work counted in library calls, loop jumps and linear solves by sys.monitoring; bounds are a generous multiple of what each algorithm may need. Non-termination inside a single C call would be a harness timeout (exit 2).",
 "C11": "Same requests in two newly started interpreters differing in environment, clock, memory contents, age and order; numbers and bytes identical. One machine and one numpy build only.",
 "C12": "Identities checked on every answer and file of histories with faults and of interleaved clients.",
 "C13": "Every reported solution is replayed on a fresh model; every unreported failure is a violation. Reachability itself is not demanded: a search may give up if it says so.",
 "C14": "Requests with omitted arguments inside histories with faults, compared with the spelled-out request on a fresh model.",
 "C16": "Snapshot of process-wide settings before and after every request with interrupts at sampled library lines, failing calls and interleaved clients (thread-local settings per thread). Settings not in the snapshot are not seen; interrupts inside except/finally blocks are not injected.",
 "C17": "Nine rounds of the same work with allocation tracing; only memory allocated under library code counts and only steady growth (all of the last six rounds) is reported, so bounded caches pass. Leaks of CPython's JSON scanner and numpy's text reader excluded by allocation site. Not a leak proof.",
 "C18": "Copies, pickles and restarts at sampled points of histories with faults; answers compared with fresh models. Same Python and numpy on both sides.",
 "C15": "Airplanes assembled in several ways and orders and edited in use, compared with the final description loaded from a file in a fresh process.",
}
checks = []
for pid, c in sorted(props.PROPS.items()):
    checks.append({"property": pid, "quick_cmd": "/opt/venv/bin/python check.py %s" % pid,
                   "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid,
                   "technique": "deterministic simulation with fault injection: seeded search over " + c.searches,
                   "level": c.level, "level_note": NOTES[pid]})
NA = {
 "N01": "pure function of one request's input: no schedule, clock, fault, I/O or history for a simulator to decide",
 "N02": "relation between two single requests on two airplanes: nothing a schedule, clock or fault could affect",
 "N03": "relation between single requests at two states: nothing a schedule, clock or fault could affect",
 "N04": "pure function of one request's input: no schedule, clock, fault, I/O or history for a simulator to decide",
 "N05": "geometry of one export: pure function of the airplane; its I/O side is C06/C07/C11",
 "N06": "relation between single requests on two airplanes: nothing a schedule, clock or fault could affect",
}
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: every seam (files, clock, threads, allocation, linear algebra, interrupts) is reached from outside. The checks import /repo's working tree directly; no build step. replay: /opt/venv/bin/python check.py <ID> --replay <file>."}
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
