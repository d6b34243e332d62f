#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
note = {
 "C01": "Oracle: an independent exact-rounding model (128-bit integers) for + - * / conversions quantize rint and %e/%f/%g texts in five modes; rounding mode tracked per simulated thread.",
 "C02": "Mode read back after every call, on every fault and nesting path.",
 "C03": "Oracle: the same call alone in a fresh process; preemption at basic-block edges, biased to accesses of writable library data; threads stopped for good.",
 "C04": "Flags before/after every call against the call alone, and for + - * / against the IEEE flags computed from the exact result.",
 "C05": "errno before/after every call against the call alone from errno 0.",
 "C06": "Every byte position of a device failure, short write, EINTR and delay on cookie streams of every buffering mode.",
 "C07": "Oracle: a small model of token extraction and of formatted insertion; stream buffers that chunk, end, refuse or throw at any byte.",
 "C08": "Failure of any allocation or locale object of the call (single, burst, all); result must be the fault-free one or a visible failure.",
 "C09": "Heap of the process counted by the simulator's allocator across repeated calls; double free and use after free trap in it.",
 "C10": "Global, per-thread, switched, freed-and-poisoned locales with four radix/grouping conventions; oracle maps the C-locale text.",
 "C11": "A real SIGUSR1 handler nested at any instrumented instruction edge of the interrupted call.",
 "C12": "Histories of register_printf_dfp, foreign registrations and exhausted modifier space, plus every single allocation of the load-time registration failed, and histories of loading and unloading the library.",
 "C13": "Every n from 0 to past the full length, guard bytes both sides, dirty buffers, allocation faults.",
 "C14": "Histories of 2 to 12 mixed calls with dirtied stack, heap, flags, errno, modes; each compared with the first call of a fresh process.",
}
na = {
 "N01": "Accuracy of a pure function of its argument: no schedule, clock, fault or history takes part, so seeded simulation adds nothing to plain input testing.",
 "N02": "Round trip through parse and format is a pure function of the value; only its locale, buffer and fault aspects depend on the environment, and those are C06, C10, C13.",
 "N03": "Classification and comparison are pure functions of the bit pattern; their independence of history and interleaving is C03 and C14.",
 "N04": "Conversions to integers truncate whatever the thread's mode: pure functions of the operand (the conversions that read the mode are under C01).",
 "N05": "The preferred exponent is a pure function of the operands.",
 "N06": "decoded/left-justify/setexp are pure functions of the bit pattern; concurrent use and history are C03 and C14.",
 "N07": "nextafter and friends are pure functions of their operands; that they leave the rounding mode alone is C02.",
 "N08": "A static fact about the built library and its headers: nothing executes.",
}
checks = []
for p in props:
    i = p["id"]
    if i in note:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and call histories of the real library, replayable and minimised",
            "level": "exploration",
            "level_note": note[i] + " Sampled, not exhaustive; libc internals run atomically between preemption points and memory is sequentially consistent.",
        })
m = {
 "version": 1,
 "setup_cmd": "python3 sim/build.py",
 "hooks": {"guard": "none", "enable": "no hooks in /repo: the library is built out of tree with -fsanitize=thread -fsanitize-coverage=trace-pc (no sanitizer run time; the simulator supplies the callbacks), and malloc, newlocale, the printf registration calls, the locks and the streams are interposed at link time", "source_commits": []},
 "checks": checks,
 "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
