#!/usr/bin/env python3-vt
"""Writes known_findings.json: defects repaired in /repo (matched to their commits by subject) and those recorded."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H %s"], text=True).splitlines()}
FIXED = [
 (["C18", "C07", "C01"], "receive while completing sends in the Capsaicin two-sided traversal", "processes that all wait for their sends to complete deadlock when messages are not buffered"),
 (["C18", "C23"], "only read the probe status when a message was found", "source and tag taken from an unset status when no message had arrived"),
 (["C18", "C23"], "keep buffers of nonblocking sends until they are complete", "send buffers in local vectors were freed or overwritten before the nonblocking sends completed (OriginalTycho sweeps)"),
 (["C18", "C08"], "do not block in sends while computing the sweep schedule", "blocking sends between neighbours deadlock when messages are not buffered"),
 (["C06"], "use the computed vertex order of faces", "the vertex order computed for a face was not used, so the two sides of a boundary face could name vertices in different orders"),
 (["C06", "C18"], "pair up the sides of neighboring partitions when reading the mesh", "getAdjCellFromSide and getAdjFaceFromSide depended on the order in which neighbours number their sides"),
 (["C01", "C07", "C09"], "treat faces parallel to a direction as neither incoming nor outgoing", "faces parallel to a direction were incoming on both sides: the traversal waited forever (regular grids with S2, S6, S10)"),
 (["C06"], "return the adjacent face from getAdjFace", "getAdjFace returned the adjacent cell"),
 (["C23"], "do not take the address of the first element of an empty vector", "undefined behaviour for processes without neighbours"),
 (["C14"], "refine meshes of less than 1000 cells", "division by zero (SIGFPE) for meshes of less than 1000 cells"),
 (["C19"], "define the source at the center of the hat", "0/0 for a node at the centre of the cube made the flux NaN"),
 (["C19"], "normalize the difference between groups by the global maximum", "each process normalised by its own maximum entry"),
 (["C15"], "print the line number of deck errors", "wrong format specifier"),
 (["C15", "C16"], "refuse numbers followed by other characters", "12abc was read as 12"),
 (["C02", "C21"], "solve with Krylov methods whatever the residual of the initial guess", "Schur with the Krylov source solver gave a wrong flux for sources that are not of order one: an initial guess with a residual 1e5 times the right-hand side made the solver stop at once, unnoticed"),
 (["C15"], "refuse float values followed by other characters", "getFloat read 12abc as 12"),
 (["C16"], "refuse unrecognized Gaussian elimination methods", "any other name silently selected one method"),
 (["C22"], "give cells without descendants on other processes zero priority", "such cells got a priority from an unsigned underflow or from unrelated cells"),
 (["C11", "C12", "C16", "C23"], "refuse mesh files with missing data", "a truncated parallel mesh was read as if complete, with arbitrary data"),
 (["C17"], "perform the requested number of block Jacobi iterations", "one iteration less than DD_IterMax was made (none for 1) while DD_IterMax was reported"),
 (["C08", "C03"], "compute sweep schedules for processes without cells", "OriginalTycho sweeps aborted (index out of range) when a partition has no cells"),
 (["C22"], "communicate b-levels between partitions when calculating priorities", "boundary levels were always 0: dependent-seeking options of the traversal sweep gave the same priority to every cell"),
 (["C26"], "ask MPI for the thread support that the sweeps need", "MPI was initialised for a program without threads although threads exist and, in OriginalTycho2 sweeps, call MPI"),
 (["C02", "C03"], "don't use fluxes of a previous sweep across faces parallel to an angle", "OriginalTycho sweeps read fluxes of a previous sweep across parallel faces; with the Krylov solver and a strong source (1e13) that spoiled the result by 1e-4"),
 (["C02", "C20"], "use the boundary flux of the previous sweep as Schur initial guess only in source iteration", "Schur with the Krylov source solver lost all digits for weak sources (1e-15): the solution for a unit vector was the initial guess"),
 (["C14"], "count boundary faces that list the missing cell first as exterior faces", "RefineSerialMesh printed boundary faces that list the missing cell first as interior faces"),
 (["C25"], "fail when output files cannot be written completely", "a full device or file size limit truncated mesh and flux files while the programs reported success"),
 (["C03", "C26"], "keep the number of threads of all parallel regions equal (OMP_DYNAMIC)", "with OMP_DYNAMIC=true the number of threads changed with the machine's load: crashes, hangs, or angles never swept"),
 (["C03", "C08"], "use the same number of angle groups on all processes in original Tycho sweeps", "OriginalTycho sweeps failed an assertion when the processes had different numbers of threads"),
 (["C16"], "refuse maxCellsPerStep 0, for which sweeps never end", "a deck with maxCellsPerStep 0 made direct sweeps run forever"),
 (["C16"], "refuse unrecognized priority options", "priority options other than the documented ones were silently accepted"),
 (["C29"], "count all local sweeps of the Schur sweeper", "'Num local sweeps' did not count the sweeps that PETSc makes for residuals (nonzero initial guess, restarts)"),
]
EXTRA = os.path.join(V, "tools", "fixed_extra.json")
fixed = []
for props, subj, what in FIXED + [tuple(x) for x in (json.load(open(EXTRA)) if os.path.exists(EXTRA) else [])]:
    h = log.get("fix: " + subj)
    if h is None:
        raise SystemExit("no commit: " + subj)
    for q in props:
        fixed.append("fixed: property=%s %s %s" % (q, h[:12], what))
old = json.load(open(os.path.join(V, "known_findings.json"))) if os.path.exists(os.path.join(V, "known_findings.json")) else {}
json.dump(dict(findings=old.get("findings", []), fixed=fixed), open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(fixed))
