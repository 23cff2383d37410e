#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
NA = {}
NOTE = {
    "C01": "Seeded search; after every step of every run the navigation answers of all live nodes of all forests are compared with each other, without the model.",
    "C02": "Seeded search; every accepted change is compared with a small executable reference model of ordered forests, all forests, all nodes.",
    "C03": "Seeded search; every refused request must be refused in a documented way and leave model, ledger and links unchanged; after-effects are decided against an equal forest built from scratch.",
    "C04": "Seeded search over subtree, interrupted call, way of panicking (callback early or late, destructor, failing request to another forest, nested interrupted removal) and what follows.",
    "C05": "Seeded search; a ledger of every payload ever created is compared with what the model says must exist after every step and after the forests are dropped.",
    "C06": "Seeded search; clones are compared with the model of the source and the ledger of payload clones; interrupted clones with the state before. Order of mapping calls is not checked (not documented).",
    "C07": "Seeded search over schedules of next, next_back, nth, nth_back, peek, peek_back, clone, size_hint and drain on up to six iterators over one forest, against sequences computed from the model.",
    "C08": "Seeded search; every allocation made during a non-allocating traversal fails (and is itself a violation); sequences come from the model.",
    "C09": "Seeded search with 8 bit, 16 bit and wrapped ID types up to and beyond the end of the ID space, and with IDs that were removed or never issued.",
    "C10": "Seeded search over trees, payload texts, splittings into writes and sink or formatter faults; the drawing comes from an independent renderer. Trailing blanks are not compared.",
    "C11": "Seeded search over builder programs, also edited through the builder, with failing allocations and panicking closures, against the model.",
    "C12": "Seeded search; the label of every panic of every run is compared with whether the caller's request was in order.",
    "C13": "Seeded search; the k-th allocation of a creating call fails and unwinds (alloc_error_hook), with forests at the point of growing.",
    "C14": "Seeded search over schedules: real threads, of which exactly one runs at a time; in the build in which the compiler calls the simulator in every basic block, the scheduler may stop a thread at any of them. Auto traits of the public types are evaluated in the same build. Interleavings are sequentially consistent and at the granularity of basic blocks; weak memory is not simulated. A violation counts only if the same run without threads is right.",
    "C15": "Seeded search on a build in which the compiler counts executed basic blocks, an exactly repeatable clock; each call may take 1000 of them (about ten times what is seen) per unit of work computed from the model, in forests of up to 66,500 nodes. Work inside memcpy and the allocator is not counted, except that the bytes requested are bounded.",
    "C16": "Seeded search on a build in which the compiler records the stack pointer in every basic block and does not turn tail calls into jumps (as in builds without optimisation); each call may use 32 KiB, about six times what is seen, on trees of up to 25,000 nodes, most of them deep.",
    "C17": "Seeded search with a counting allocator: what dropping a forest gives back is compared with the IDs it issued (480 bytes each allowed, about five times what is seen), and every run is executed two more times to see whether an execution leaves memory behind. Copies of copies are made up to 60 times.",
    "C18": "Seeded search: every run is executed in three ways in different processes (in order; in another order and each run in a thread of its own; optimised and without std and debug assertions), and a digest of everything observed in it must be the same; differences are traced to the step, if need be with the runs that came before in the process. Failing allocations are left out.",
}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash tools/check.sh {i} quick",
        "thorough_cmd": f"bash tools/check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection: seeded search over operation schedules and fault sequences on the real crate, checked step by step against a reference model",
        "level": "exploration",
        "level_note": NOTE[i] + " No claim beyond the sampled runs. Trusted: the simulator's model, ledger and allocator shim.",
    })
m = {
    "version": 1,
    "setup_cmd": "bash tools/build.sh",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": r} for i, r in NA.items()],
    "notes": "No hooks in /repo: the seams are the type parameters, callbacks, writers and the global allocator that the crate already leaves to its user. A replay file is executed with 'bash tools/replay.sh FILE'.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
