#!/usr/bin/env python3-vt
"""Writes MANIFEST.json for the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INFO = {
 "C01": ("generated meshes, partitions and decks through sweep.x; balance-equation residual oracle", "Every flux value of every generated case is checked against the cell equations written independently. Sampling: assurance covers the generated cases (at most 400 cells, S16, 5 processes)."),
 "C02": ("generated scattering problems, differential against an independent GMRES solution", "All nine sweep types with source iteration and Krylov against a reference solver; sampled."),
 "C03": ("metamorphic: one problem under several generated layouts", "Pairs of runs that may differ only by rounding; sampled."),
 "C04": ("generated tetrahedra and coefficients, differential against 4x4 systems solved in extended precision", "Calls the four cell solvers through a harness; sampled over shapes, directions, cross sections, inflow."),
 "C05": ("exhaustive over orders, generated polynomials against exact integrals", "All supported and many unsupported orders; polynomial exactness sampled with random spherical polynomials."),
 "C06": ("generated meshes and partitions, differential against an independent topology and geometry", "The in-memory mesh of every process is dumped by a harness and compared with the generator's mesh."),
 "C07": ("generated traversals with recording callbacks, invariant over the event history", "Random payload sizes, priorities, threads, modes; termination decided by a time limit."),
 "C08": ("generated meshes and direction sets, invariants over the schedules of all processes", "Schedules of all ranks are dumped and checked as a whole."),
 "C09": ("generated partitions and flux values, model of the exchange", "Every boundary value of every process is compared bit by bit with a model."),
 "C10": ("generated runs and pre-existing files; bitwise comparison of file and captured memory", "Relies on linking a recorder in front of the writer; files up to a few MB."),
 "C11": ("generated and corrupted serial mesh files, round trip and refusal", "Round trip through the mesh class and the information tool."),
 "C12": ("generated meshes and partition vectors, model-based comparison and round trip", "Partitions created by the library are compared with a model built from the serial mesh."),
 "C13": ("generated meshes through the partition tools, specification of the result as oracle", "Ties between equal coordinates are allowed to break either way."),
 "C14": ("generated meshes through the refinement tool, geometric and topological oracle", "Every refined cell, node and face is checked; refined meshes are refined again."),
 "C15": ("generated decks and call sequences against a reference reader; byte-level fuzzing", "Stateful model-based comparison, sampled."),
 "C16": ("generated decks, metamorphic rewriting and single-fault mutation", "Sampled; every required key and each kind of fault is drawn."),
 "C17": ("generated limits and tolerances, differential against reference iterations", "Printed numbers, counts and flux against independent iterations."),
 "C18": ("generated message timings injected through the MPI profiling interface", "Delays, synchronous sends, spurious 'not yet' answers and buffer checks; the schedule space is sampled."),
 "C19": ("generated meshes and sources, reference source and diagnostics as oracle", "The flux of the built-in source and the printed numbers are recomputed."),
 "C20": ("metamorphic relations and particle balance on generated problems", "Sampled pairs of runs."),
 "C21": ("generated distributed linear systems, residual oracle", "Systems with bounded condition number, random block sizes, reuse sequences."),
 "C22": ("generated meshes, reference levels and priorities; order observed through recording callbacks", "The documented definitions that the code and text agree on."),
 "C23": ("generated runs under AddressSanitizer and UBSan, memory-perturbation differential, file fuzzing", "Only executed paths are covered; uninitialised reads are found through their effect on results."),
 "C24": ("generated meshes through the whole tool chain; reference solution on the last serial mesh as oracle", "Up to two refinements, six processes; sampled."),
 "C25": ("generated inputs with injected I/O faults; differential against an undisturbed run", "Faults are file size limits at generated positions, /dev/full, missing or wrong files and memory limits; other device errors are not injected."),
 "C26": ("generated runs and delays; happens-before race detection (ThreadSanitizer over an instrumented OpenMP runtime) and MPI thread-level monitor", "Only executed accesses are seen; the message library itself is not instrumented; relaxed atomics count as synchronised accesses to themselves only."),
 "C27": ("generated runs, differential between builds with different options; generated invalid inputs given to the other builds", "Six configurations (assertions, PETSc, optimisation); the random choice of two per case samples the rest."),
 "C28": ("generated pairs of runs that differ in the number of iterations; metamorphic relation on held resources", "Counts memory from operator new, MPI requests, open files and the C heap at the end of the run; a single loss per run is not seen."),
 "C29": ("generated runs with counted cell solves and injected delays; printed statistics against counts, delays and the computed schedule", "Times are bounded from below by injected delays and from above by each other and the time elapsed; Krylov iterations are compared with sweeps within the residual evaluations of restarts."),
}
checks = []
na = []
for pid, (tech, note) in INFO.items():
    f = "checks/%s.py" % pid.lower()
    if os.path.exists(os.path.join(V, f)):
        checks.append(dict(property=pid, quick_cmd="python3-vt %s" % f, thorough_cmd="VERIF_TIER=thorough python3-vt %s" % f, technique="property-based testing: " + tech, level="exploration", level_note=note))
    else:
        na.append(dict(property=pid, reason="check not built yet"))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks, not_applicable=na,
                   notes="No hooks in /repo: harnesses link the repository's sources. Every check builds what it needs from /repo's working tree."), f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
