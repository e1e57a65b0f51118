#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below; run after changing it."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with seeded fault and schedule search"
NOTE = {
    "C01": "seeded search over shared expression graphs, query orders and thread interleavings at compiler-edge granularity; oracle is rational arithmetic",
    "C02": "seeded search over interleavings of several readers of one mesh at compiler-edge granularity; oracle is the same query on a private copy",
    "C08": "seeded search over box arrangements, frames, hash seeds, coordinate sharing and thread interleavings; oracle is volume and point membership computed from the boxes",
    "C13": "seeded search over placements of console write faults; oracle is the same job with a working console under the same hash seeds",
    "C14": "seeded search over point sets, prescribed edges, batches, hash seeds and thread interleavings; oracle is exact integer geometry",
    "C09": "seeded search over surfaces, targets, remeshing sequences and hash seeds; oracle is structural soundness and preserved topology",
    "C10": "seeded search over edit histories including refused edits; oracle is a face-list model",
    "C11": "seeded search over interleavings of several editors with late commits and failing callbacks; oracle is a face-list model",
    "C12": "seeded search over update histories and concurrent readers; oracle is a plain list of boxes",
    "C15": "seeded search over histories of tears, lookups, merges and edits under drawn hash seeds; oracle is a list of exact positions and corner triples",
    "C16": "seeded search over histories of tree-updating splits, stale handles included; oracle is brute force over the current faces",
    "C03": "seeded search over meshes, formats, stale contents and write-fault plans; oracle is an independent parser",
    "C04": "seeded search over stored files and read-fault plans; oracle is the stored face list",
    "C05": "seeded search over interrupted and short transfers; oracle is the undisturbed execution",
    "C06": "seeded search over crash images of saved files; oracle is structural soundness and the saved prefix",
    "C07": "seeded search over process deaths, restarts and disk faults in multi-file sessions; oracle is the last completed save",
    "C19": "seeded search over edit histories with queries in between under drawn hash seeds; oracle is the face list",
    "C20": "seeded search over split histories and handles taken at any earlier time; oracle is exact location on a face-list model",
}
NA = {
    "C17": "pure function of its arguments: no schedule, fault, clock or hidden state can change the answer, so simulation adds nothing over plain input generation",
    "C18": "single-threaded pure computation without I/O or hash-order dependence; deterministically wrong on simple inputs already, so there is no execution for a simulator to vary",
}
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks in /repo: seams are libc symbol interposition, ahash's random source and compiler edge instrumentation applied by sim/rustc-sancov.sh", "source_commits": []},
    "checks": [{"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"./check.sh {p}", "evidence_file": f"evidence/{p}.json", "technique": TECH, "level": "exploration", "level_note": n} for p, n in sorted(NOTE.items())],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
    "notes": "Every check is one seeded search; VERIF_SEED selects it, replays/ holds minimised traces, `sim/target/release/cgar-sim replay FILE` re-executes one.",
}
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
