#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
OPT = ("Seeded search over simulated optimizer runs (random streams, stalls, extreme words, lying or failing callbacks, thread "
       "schedules); sampled, not exhaustive. Trusts the simulator, its reference model and the rand crate's samplers.")
LIN = ("Seeded search over operation histories with a failure placed at one of the element operations, sources or allocations inside an "
       "operation; exact field arithmetic as oracle; sampled, not exhaustive. Trusts the simulator and its reference model.")
T = {
 "C01": ("simulated runs, recorded history checked against a strict weak order", OPT),
 "C02": ("simulated runs with lying comparisons, slot-exact replay of the recorded history", OPT),
 "C03": ("simulated runs over an exact scalar, donor search per trial vector", OPT + " Trial vectors of populations too large to search are sampled."),
 "C04": ("simulated generator stalls, exact call budget and bounded draws after the last stall", OPT),
 "C05": ("simulated extreme and stuck random words in the starting draws, members recovered from the history", OPT),
 "C06": ("seeded schedules of 2-4 optimizer runs (threads, nested, after aborted ones) compared with solo runs", OPT),
 "C07": ("failure injected at a chosen draw, comparison, scalar operation or allocation, then a following call", OPT),
 "C08": ("pools of simulated runs with a fair generator, frequency tests at more than 7 sigma", OPT + " Statistical: biases below about 2% of a frequency are not seen in quick runs."),
 "C09": ("simulated runs with a faulty prefix (stalls, lies), progress demanded of a batch after faults stop", OPT + " Progress is judged per batch of 5 runs on convex problems with parameters for which the unchanged library always converged."),
 "C10": ("failure injected inside *=, atomicity checked against an exact model, retry", LIN),
 "C11": ("failure injected inside in-place updates, old-or-new checked per entry against an exact model", LIN),
 "C12": ("histories over a store of live values with failures, every other value compared after every step", LIN),
 "C13": ("histories with failures over registered elements and a counting allocator, repeated executions", LIN),
 "C14": ("expression trees over recorded, stateful and failing sources, source calls compared with the demand", LIN),
 "C15": ("seeded thread schedules over shared operands with failures in some threads", LIN + " Threads interleave at element operations and allocations, not inside element arithmetic or at the memory-model level."),
 "C16": ("invalid and boundary-valid requests inside histories, no callback and no change allowed", LIN),
 "C17": ("failure injected inside value-returning operations, exact model value or exactly that failure", LIN),
 "C22": ("failure injected at a chosen scalar operation inside a complex elementary function, principal value or exactly that failure, retry, thread schedules",
         "Seeded search over operands of moderate size and failure points; sampled, not exhaustive. Values are compared with textbook formulas to 1e-9 (2e-3 for f32), so losses of accuracy below that are not seen, and extreme magnitudes, negative zero, infinities and NaN are out of scope (C19)."),
}
NA = {
 "C18": "Pure algebraic identities of pure functions: no schedule, clock, fault or interleaving takes part, so simulation would only be input generation.",
 "C19": "Pure floating point functions of one input: nothing nondeterministic or failing to simulate.",
 "C20": "Pure forwarding functions of one input: nothing nondeterministic or failing to simulate.",
}
m = dict(version=1, setup_cmd="./check.sh build",
    checks=[dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                 technique="deterministic simulation with fault injection: " + t, level="exploration", level_note=n) for i, (t, n) in T.items()],
    not_applicable=[dict(property=i, reason=r) for i, r in NA.items()],
    notes="No hooks in /repo are needed: everything is generic over the seams the simulator replaces. Repairs: see known-findings.txt.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
