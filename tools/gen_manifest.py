#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TRUST = (" Assumes the simulated kernel (files, page cache and durable state, descriptors, entropy, clock, futexes, threads) behaves like"
         " Linux; trusts rustc, std, serde, bincode and rand, which run for real. Seeded search: what was not reached is not excluded.")
T = "deterministic simulation with fault injection: "
checks = {
 "S01": ("seeded save/load/restart programs on a simulated disk with short and interrupted I/O; bit-exact comparison after reload",
         "No violation in the explored programs of saves, overwrites, restarts, interrupted saves and loads."),
 "S02": ("error injected at seeded storage steps of save and load; retry after the fault clears, object fingerprint before/after",
         "No violation for the explored combinations of storage step, error kind and persistence."),
 "S03": ("process kill, power loss with torn/lost/reordered writes, or error at a seeded step of a save; old-or-new oracle over every file",
         "No violation for the explored crash points and surviving subsets of writes."),
 "S04": ("seeded save histories with faults and kills, then power loss; per-path candidate sets of a durable register",
         "No violation for the explored histories and surviving subsets of writes."),
 "S05": ("seeded interleavings of concurrent savers and loaders with kills; linearizability of an atomic register",
         "No violation in the explored interleavings (switches at every system call and, in part of the runs, at basic blocks)."),
 "S06": ("failing loads (read faults, damage, foreign and unfitting files, refused allocations) into networks with a history, compared with a twin that did not load",
         "No violation for the explored network states and failure causes."),
 "S07": ("seeded damage of stored bytes, then load under a step budget and an allocation ceiling; well-formedness by using the object",
         "No crash, hang or malformed object for the explored damages."),
 "S08": ("a node running the base release writes files inside the simulation, the current tree loads them after a simulated upgrade; cross-version comparison",
         "No violation for the explored objects, hash seeds and crash points of the old release."),
 "S09": ("saves and loads under storage faults and low handle limits; simulated handle table and directory inspected after every call",
         "No violation for the explored fault sequences."),
 "H01": ("seeded session histories with failing layers, storage faults, crash and reload against an f64 reference model with error bounds",
         "No violation in the explored histories; numeric agreement is within a rigorous rounding bound of the reference."),
 "H02": ("seeded session histories against a mode/gating state machine",
         "No violation in the explored histories."),
 "H03": ("seeded session histories against an f64 reference of the backward pass (kinks and ties as intervals)",
         "No violation in the explored histories; gradients observed at layer boundaries by user-defined layers and single layers."),
 "H04": ("seeded session histories against an f64 reference of accumulated parameter gradients, read through a guarded accessor",
         "No violation in the explored histories. If the accessor no longer compiles, the gradients are not observed and only the rest is decided."),
 "H05": ("seeded histories of valid, invalid and failing operations; visible state and behaviour compared before/after and with the reference",
         "No violation in the explored histories."),
 "H06": ("several tasks with own objects interleaved at basic blocks and system calls, each log compared with a solo run of the same task in a process of its own",
         "No violation in the explored interleavings; sequentially consistent memory, pre-emption at basic-block edges of the library."),
 "R01": ("tasks filling tensors with simulated entropy that is short, interrupted or constant, under seeded interleavings; range, freshness and distribution tests over the recorded draws",
         "No violation; distribution deviations are reported only beyond bounds with false-alarm odds under 1e-11 per test."),
 "R02": ("tasks filling tensors with simulated entropy that is short, interrupted or constant, under seeded interleavings; finiteness, freshness and distribution tests over the recorded draws",
         "No violation; distribution deviations are reported only beyond bounds with false-alarm odds under 1e-11 per test."),
 "H08": ("seeded cycles of operations with storage faults repeated 160 times under simulated clock, disk, entropy and a counting allocator; growth of memory, basic-block work and stored bytes, leaks over repeated lives",
         "No violation in the explored cycles."),
 "H07": ("seeded histories of tensor operations, saves, loads, restarts and storage faults against a reference array model",
         "No violation in the explored histories."),
}
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
na = {}
m = {"version": 1, "setup_cmd": "./build.sh",
 "hooks": {"guard": "rn_sim (rustc --cfg rn_sim)",
   "enable": "build.sh compiles the library with RUSTC_WRAPPER=sim/rustc-wrap.sh, which passes --cfg rn_sim",
   "source_commits": ["b70ce82db3ec6f86967de89dd472a3602869d690"]},
 "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in na.items() if k in props]}
for p in props:
    if p in checks:
        t, n = checks[p]
        m["checks"].append({"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
            "evidence_file": f"evidence/{p}.json", "technique": T + t, "level": "exploration", "level_note": n + TRUST})
assert all(p in checks or p in na for p in props), [p for p in props if p not in checks and p not in na]
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
