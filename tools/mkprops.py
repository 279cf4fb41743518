#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the file stays one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            observe_at=observe or [], hook_needed=hook)))

TESTS = ("All 38 tests run one 208-cell cube mesh, one column partition, S8, two groups that get identical data, "
         "one cross-section pair shared by both materials and one source, and compare with a stored answer; ")

p("C01", "A direct sweep solves the discrete transport equations on any mesh",
  "Without scattering, the angular flux that a direct sweep produces satisfies, in every cell, direction and energy group, the linear discontinuous "
  "upwind balance for the given mesh, total cross sections and fixed source, with zero flux entering through the outer boundary, up to rounding. "
  "This holds for every valid tetrahedral mesh and numbering, every partitioning of it over processes, every even quadrature order and any number of groups, "
  "and each cell uses the cross sections of its own material and each group its own source.",
  ["inputs", "configurations"],
  "all conforming tetrahedral meshes without cyclic dependencies, all numberings, partitionings, quadrature orders, group counts, cross sections >= 0 and sources",
  TESTS + "numbering, material, group and geometry handling are never varied.",
  ["src/Transport.cc", "src/SweeperTraverse.cc", "src/Sweeper.cc", "src/SweepData.hh", "src/TychoMesh.cc", "src/TychoMeshIO.cc", "src/Problem.cc", "src/PsiData.hh"],
  [("local 4x4 DG system per cell, angle and group", "src/Transport.cc solve"), ("upwind data from neighbours and partition sides", "src/Transport.cc populateLocalPsiBound"),
   ("traversal / static schedule order", "src/GraphTraverser.cc, src/SweepSchedule.cc")],
  [("psi", "angular flux per cell, angle, vertex, group", "src/PsiData.hh"), ("psiBound", "flux on partition sides", "src/PsiData.hh")],
  ["psi output file of sweep.x"], None)

p("C02", "Every solver converges to the same solution of the scattering problem",
  "With scattering, every sweep type combined with either source iteration or the Krylov option, run to tight tolerances and enough iterations, produces the solution "
  "of the discrete transport equation with isotropic scattering (emission equal to the scattering cross section times the quadrature-weighted flux sum over 4 pi), "
  "within an error proportional to the tolerances, whatever the mesh, materials, source, partitioning and process count. In particular all solvers agree with each other.",
  ["inputs", "configurations"],
  "all sweep types x source iteration/Krylov x meshes x per-material cross sections with sigmaS < sigmaT x sources x partitionings",
  TESTS + "the stored answer was produced by the same code, and both materials have the same cross sections.",
  ["src/SourceIteration.cc", "src/SweeperPBJ.cc", "src/SweeperSchur.cc", "src/Sweeper.cc", "src/SweeperTraverse.cc", "src/KrylovSolver.cc", "src/Util.cc", "src/CommSides.cc"],
  [("fixed-point and Krylov scattering solvers", "src/SourceIteration.cc"), ("parallel block Jacobi and Schur boundary solvers", "src/SweeperPBJ.cc, src/SweeperSchur.cc")],
  [("phi", "scalar flux per cell, vertex, group", "src/PsiData.hh")], ["psi output file of sweep.x"], None)

p("C03", "Results do not depend on processes, partitioning, threads or schedule",
  "For the sweep types that perform one exact sweep per iteration, the angular flux written for a given serial mesh and problem is the same, up to rounding, for every number of processes, "
  "every assignment of cells to partitions, every number of threads, every cells-per-step limit, every combination of priority options, both message modes and every "
  "elimination method, including when iteration is cut off before convergence, and when the OpenMP runtime is allowed to choose the number of threads (OMP_DYNAMIC, OMP_THREAD_LIMIT). Repeating a run gives the same result.",
  ["configurations", "schedules"],
  "all process counts, partition vectors, thread counts, maxCellsPerStep >= 1, 5 intra-angle and 3 inter-angle priorities, both MPI modes, 4 elimination methods, iteration caps",
  TESTS + "process and thread counts, message mode and partitions are fixed per script, and only converged answers are compared.",
  ["src/Sweeper.cc", "src/SweeperTraverse.cc", "src/GraphTraverser.cc", "src/SweepSchedule.cc", "src/Priorities.cc", "src/CommSides.cc", "src/SourceIteration.cc"],
  [("each (cell, angle) is solved once, after its upwind neighbours", "src/GraphTraverser.cc traverse; src/SweepSchedule.cc calcOrdering")],
  None, ["psi output file of sweep.x"], None)

p("C04", "The four cell solvers all solve the cell equations accurately",
  "For every non-degenerate tetrahedron of any shape, size and vertex order, every direction, every non-negative total cross section and any inflow and source, each of the four "
  "selectable elimination methods returns the solution of the same 4x4 cell equations, accurate to rounding times the condition number of the system. "
  "Cells with one, two or three inflow faces are all covered.",
  ["inputs", "configurations"],
  "all tetrahedra (aspect ratios, orientations, scales), directions, cross sections from vacuum to optically thick, sources and inflow of either sign",
  TESTS + "one mesh with well-shaped cells and sigmaT = 10 exercises each method on a narrow range of matrices.",
  ["src/Transport.cc"],
  [("gaussElim4 variants Original, NoPivot, CramerGlu, CramerIntel", "src/Transport.cc"), ("cell matrix and right-hand side assembly", "src/Transport.cc calc*")],
  None, ["Transport::solve; psi output file of sweep.x"], None)

p("C05", "Each quadrature integrates the sphere exactly to its order",
  "For each supported order N (even, 2 to 30) the quadrature has 2N^2 distinct unit directions with positive weights summing to 4 pi, and it is the product of the N-point Gauss-Legendre rule "
  "in the third coordinate with 2N equally spaced, half-step shifted azimuths, in the documented order. It integrates every spherical polynomial of degree at most 2N-1 exactly, "
  "is invariant under sign changes of each coordinate, and any other order is rejected. The script that generates the tables writes these nodes and weights.",
  ["inputs"], "all snOrder values; random polynomials and rotations within the symmetry group",
  "Every test uses S8, so 14 of the 15 node and weight tables are never read by a test.",
  ["src/Quadrature.cc"], [("tabulated Gauss-Legendre nodes and weights, product construction", "src/Quadrature.cc Quadrature")],
  [("g_nAngles", "number of directions", "src/Global.hh")], ["Quadrature getters; psi output file"], None)

p("C06", "The in-memory mesh represents the file's geometry and topology",
  "For every partition of every valid mesh file, the in-memory mesh reports the true cell volumes, face areas, outward direction cosines, materials and global cell numbers; "
  "adjacency is mutual, each cell face is opposite its vertex of the same index, vertex maps between a face and the cells on its two sides name the same physical nodes, "
  "and a face on a partition boundary has one side on each of its two partitions with the same global side number and the same vertex order.",
  ["inputs", "configurations"],
  "all valid meshes, all local numberings of faces, nodes and cells in the file, all partitionings",
  TESTS + "a wrong but consistent mapping, or one that is only wrong for other numberings, is invisible.",
  ["src/TychoMesh.cc", "src/TychoMeshIO.cc", "src/TychoMesh.hh"],
  [("face index = opposite vertex, ordered face vertices, neighbour vertex table", "src/TychoMeshIO.cc readTychoMesh; src/TychoMesh.cc TychoMesh"),
   ("outward normals", "src/TychoMesh.cc getNormal")],
  [("c_adjCell, c_adjRank, c_side, c_lGSides", "adjacency and partition sides", "src/TychoMesh.hh")], ["TychoMesh getters"], None)

p("C07", "Graph traversal visits every item once, in dependency order, and ends",
  "A traversal in either direction, with or without communication, calls back exactly once for each local cell and direction, only after every upstream neighbour in the traversal direction "
  "has been visited and, when communicating, after the data of every upstream partition side has been delivered unaltered exactly once. "
  "It terminates on all processes for every acyclic mesh, partitioning, priority assignment, thread count, step limit, message mode and payload size, and reports the right neighbour and boundary kind for each face.",
  ["schedules", "inputs", "configurations"],
  "all acyclic meshes and directions, partition vectors (including empty or disconnected partitions), priority functions, step limits, thread counts, payload sizes, both message modes",
  "Tests traverse one mesh forward with a fixed partition and cannot see visit order, duplicates or payload mix-ups that cancel.",
  ["src/GraphTraverser.cc", "src/GraphTraverser.hh"],
  [("dependency counts and priority queues", "src/GraphTraverser.cc traverse"), ("size/data/kill protocol", "src/GraphTraverser.cc sendAndRecvData"), ("Isend/Iprobe protocol", "src/GraphTraverser.cc sendData2Sided, recvData2Sided")],
  [("numDependencies", "open upstream dependencies per item", "src/GraphTraverser.cc")], ["TraverseData callbacks"], None)

p("C08", "The precomputed sweep schedule is complete, ordered and matched",
  "For any set of directions, the precomputed schedule contains each local cell and direction exactly once, never more items per step than the limit; each item comes after its on-process upstream "
  "neighbours and in a later step than its off-process ones. Every process has the same number of steps, and a process lists a partner as sender for a step exactly when that partner lists it as receiver "
  "for that step and some item of the step has flux for it.",
  ["configurations", "inputs", "schedules"],
  "all acyclic meshes, partitionings, direction subsets, step limits and priority options",
  TESTS + "a schedule that is needlessly late, unbalanced between processes or wrong only for other step limits goes unnoticed.",
  ["src/SweepSchedule.cc", "src/SweepSchedule.hh"],
  [("partial topological sort with exchange after each step", "src/SweepSchedule.cc calcOrdering"), ("b-level based priorities", "src/SweepSchedule.cc calcLevels")],
  None, ["SweepSchedule getters"], None)

p("C09", "Partition-boundary exchange delivers exactly the outgoing flux",
  "One boundary exchange copies, for every direction and group, the flux at each vertex of each face through which particles leave a partition to the matching vertex of the matching side of the neighbouring partition, "
  "and changes no other boundary value. This holds for every partitioning, including partitions with many, one or no neighbours, and for any flux values.",
  ["inputs", "configurations"],
  "all meshes, partition vectors, quadrature orders, group counts and flux fields",
  TESTS + "iterated solvers hide a value that arrives late or at the wrong vertex only when the solution is smooth.",
  ["src/CommSides.cc", "src/CommSides.hh", "src/TychoMeshIO.cc"],
  [("packets keyed by global side and angle", "src/CommSides.cc")], [("psiBound", "flux on partition sides", "src/PsiData.hh")], ["CommSides; psi of a PBJ run after k iterations"], None)

p("C10", "The flux output file is complete, exact and independent of layout",
  "The output file starts with the documented header giving the true global cell count, direction count and group count, and holds for every global cell exactly the flux values computed for it, "
  "with no gaps, overlaps, trailing or stale bytes, whatever the partitioning and whether or not a (longer or shorter) file of that name existed before. "
  "Nothing is written when output is turned off.",
  ["inputs", "configurations", "histories"],
  "all partitionings and cell numberings, flux fields, pre-existing file contents",
  TESTS + "always the same shape of file, written to a fresh path and compared within 1e-10.",
  ["src/PsiData.cc", "src/Comm.cc"], [("collective create and positioned writes by global cell", "src/PsiData.cc writeToFile; src/Comm.cc openFileForWrite")],
  None, ["psi output file"], None)

p("C11", "Serial mesh files round-trip exactly and foreign files are refused",
  "Reading any serial mesh file and writing it again reproduces the file byte for byte, and the mesh information tool reports the header and, when verbose, every record as stored. "
  "A file with a wrong format name, wrong version or missing data is refused with a failure status rather than read as something else.",
  ["inputs"], "all meshes within the format, including extreme coordinates, and corrupted, truncated or foreign files",
  "No test reads the tools' output and the one serial mesh used is well formed.",
  ["src/SerialMesh.cc", "util/SerialMeshInfo.cc"], [("field-by-field buffers and header assertions", "src/SerialMesh.cc read, write")], None,
  ["SerialMesh read/write; SerialMeshInfo output; exit status of the tools"], None)

p("C12", "Partitioned mesh files preserve the serial mesh",
  "Splitting a serial mesh by any assignment of cells to partitions yields partitions that contain each cell exactly once, with its global number, material, node coordinates and global nodes unchanged, "
  "and each face of a partition labelled as interior, partition boundary or mesh boundary with the right partitions, the same global number and the same node order on both sides. "
  "Reading the file serially, or one partition per process, gives exactly what was created and writing it again gives the same bytes; wrong names, versions or partition counts are refused.",
  ["inputs", "configurations"],
  "all valid serial meshes x all partition vectors (including empty partitions) x process counts",
  "Tests convert one mesh with one tool and only look at the final flux.",
  ["src/ParallelMesh.cc", "util/PartitionColumns.cc", "util/PartitionMetis.cc", "util/ParallelMeshInfo.cc"],
  [("createFromSerialMesh", "src/ParallelMesh.cc"), ("read, readInParallel, write", "src/ParallelMesh.cc")], None, ["pmesh files; ParallelMesh members; ParallelMeshInfo output"], None)

p("C13", "The partitioning tools produce balanced partitions of the stated shape",
  "The column partitioner splits the cells by centroid into the requested grid: first into consecutive slabs in x, then each slab into consecutive runs in y, with counts that differ by at most one within a slab and between slabs; "
  "partition i*ny+j is run j of slab i, and the counts it prints are those of the file. The graph partitioner assigns every cell to one of the requested number of partitions, for one partition puts all cells in it, and, with many cells per partition, gives partitions of similar size that cut fewer faces than an arbitrary assignment.",
  ["inputs", "configurations"], "all serial meshes and partition counts from 1 up to the number of cells, including counts that do not divide the number of cells",
  "Tests use only the column partitioner on one mesh with one grid.",
  ["util/PartitionColumns.cc", "util/PartitionMetis.cc"], [("sort by centroid and split into chunks", "util/PartitionColumns.cc partitionMesh"), ("METIS graph from face adjacency", "util/PartitionMetis.cc partitionMesh")],
  None, ["pmesh written by the tools; their printed counts"], None)

p("C14", "Mesh refinement splits every cell into eight and stays conforming",
  "Refining any valid serial mesh gives a valid conforming mesh with eight cells per original cell, in the same order, each of one eighth of the original's volume, with the original's material and lying inside it; "
  "nodes are exactly the original nodes and edge midpoints, each once, and boundary faces refine boundary faces. The inner octahedron of each cell is cut along its shortest diagonal, and refined meshes can be refined again. The numbers of cells, nodes, and outer and inner faces it prints for both meshes are right.",
  ["inputs"], "all valid serial meshes of any size, numbering, scale and position, and repeated refinement",
  "No test runs the refinement tool.",
  ["util/RefineSerialMesh.cc"], [("refineTet, node and face lookup by coordinates and nodes", "util/RefineSerialMesh.cc")], None, ["smesh written by the tool"], None)

p("C15", "The key-value reader accepts exactly its grammar and returns exact values",
  "A deck is accepted if and only if each line, after removing a comment, is blank or a key and a value of allowed characters, and no key repeats; keys compare case-insensitively and values come back exactly as written, "
  "as strings, or converted to integer, real and boolean when they have that form. Anything else - missing file, bad line, duplicate or unknown key, failed conversion, read before or after reading - "
  "is reported with the documented error for that condition, whatever the sequence of calls and bytes in the file.",
  ["inputs", "histories"], "all byte strings as deck files, all keys and sequences of reader calls",
  "Tests read four well-formed decks.",
  ["src/KeyValueReader.cc", "src/KeyValueReader.hh"], [("tokenizer, duplicate detection and typed getters", "src/KeyValueReader.cc")], None, ["KeyValueReader API"], None)

p("C16", "A run uses exactly what the deck and mesh say, or refuses to start",
  "A run depends only on the values of the deck's keys, not on their order, letter case of keys, spacing or comments. A deck that lacks a required key, repeats one, has an unrecognised choice or a value of the wrong type, a step limit of zero, "
  "an unsupported quadrature order, a mesh with a material other than 1 and 2, or a mesh with another number of partitions than processes makes the run fail with a non-zero status and no flux output.",
  ["inputs", "configurations"], "all textual variations of a deck and all single faults in deck or mesh",
  "Tests only run valid decks in one layout.",
  ["src/Main.cc", "src/KeyValueReader.cc", "src/ParallelMesh.cc", "src/Quadrature.cc", "src/Problem.cc"], [("readInput and its checks", "src/Main.cc"), ("Insist failures", "src/Assert.cc")], None,
  ["exit status, standard output and psi file of sweep.x"], None)

p("C17", "Iteration limits and tolerances are honoured and reported truthfully",
  "Source iteration performs exactly the sweeps up to the first one whose relative L1 change of the scalar flux is at or below the tolerance, or up to the iteration limit, starting from zero flux, and returns the flux of the last sweep; "
  "the printed iteration numbers and changes are those of the iterates. The block Jacobi variants likewise stop at their own limit or tolerance on the relative change, and report their counts.",
  ["inputs", "configurations"], "all iteration limits, tolerances, scattering ratios and meshes, for each iterative variant",
  TESTS + "all of them converge to 1e-10, so where iteration stops and what it reports is not observed.",
  ["src/SourceIteration.cc", "src/SweeperPBJ.cc", "src/Util.cc"], [("fixedPoint loop", "src/SourceIteration.cc"), ("domain-decomposition loops", "src/SweeperPBJ.cc")], None,
  ["standard output and psi file of sweep.x"], None)

p("C18", "Results and termination do not depend on message timing or buffering",
  "Every solver terminates with the same result for every timing the message-passing standard allows: sends that complete only when received, messages that arrive late, completions and probes observed in any order, "
  "and any relative speed of processes and threads. No message buffer is changed or freed before its send completes, and no receive depends on unrelated arrival order.",
  ["schedules", "configurations"], "all legal completion orders, delays and buffering behaviours of the message layer for all solvers",
  "Tests see one message library with small, always-buffered messages on one machine.",
  ["src/Sweeper.cc", "src/GraphTraverser.cc", "src/CommSides.cc", "src/SweepSchedule.cc", "src/TychoMeshIO.cc", "src/Comm.cc"],
  [("Isend/recv/Waitall pairs", "src/Sweeper.cc send, recv"), ("traverser protocols", "src/GraphTraverser.cc"), ("Irecv/Waitany exchange", "src/CommSides.cc")], None,
  ["PMPI-level interposition; psi file of sweep.x"], None)

p("C19", "The test problem and the reported diagnostics are what they claim to be",
  "The built-in source is the one for which the hat function of radius 30 about the cube centre is the exact flux for the cell's cross sections, and is zero outside it, for every mesh node including the centre; "
  "the printed relative L2 error and difference between groups equal the ones computed from the flux written, over all processes. On refined or exactly representable meshes the error decreases accordingly.",
  ["inputs", "configurations"], "all meshes around the hat, cross sections, group counts, and partitionings",
  "Tests never look at the printed diagnostics, and the mesh used has no node at the centre.",
  ["src/Problem.cc", "src/Util.cc", "src/Main.cc"], [("hatSource, hatL2Error", "src/Problem.cc"), ("diffBetweenGroups", "src/Util.cc")], None, ["standard output and psi file of sweep.x"], None)

p("C20", "Solutions conserve particles and respect symmetries of the equations",
  "In every cell, direction and group the computed flux balances inflow, outflow, absorption and sources; scaling the source scales the flux, scaling lengths up and cross sections and source down by the same factor leaves it unchanged, "
  "and renumbering cells, nodes and vertices only renumbers it. Reflecting or rotating the mesh by a symmetry of the quadrature permutes the directions of the flux accordingly, and parts of a mesh that do not touch do not influence each other upstream.",
  ["inputs"], "all meshes, materials and sources together with all scalings, renumberings and quadrature symmetries",
  TESTS + "no relation between two runs is tested.",
  ["src/Transport.cc", "src/TychoMesh.cc", "src/Quadrature.cc", "src/SourceIteration.cc"], [("conservative upwind discretisation", "src/Transport.cc")], None, ["psi file of sweep.x"], None)

p("C21", "The Krylov solver solves any well-conditioned linear system",
  "For every non-singular, well-conditioned linear operator distributed over any number of processes in blocks of any sizes (some possibly empty), the Krylov wrapper returns a vector whose residual is within the requested relative "
  "tolerance of the right-hand side, honours a given initial guess and the iteration limit, reports the iterations made and the final residual norm, and can be reused for further right-hand sides and initial guesses.",
  ["inputs", "histories", "configurations"], "random operators, block distributions, right-hand sides, initial guesses, tolerances, limits and reuse sequences",
  "Tests only use it inside converged transport solves.",
  ["src/KrylovSolver.cc", "src/KrylovSolver.hh"], [("PETSc shell matrix with GMRES", "src/KrylovSolver.cc")], None, ["KrylovSolver API"], None)

p("C22", "Priority options follow their definitions and steer the sweep order",
  "For every partitioned acyclic mesh the priorities computed for the traversal sweep match the published definitions: levels count the longest downstream path through the whole mesh, the dependent-seeking options are derived from the levels of the downstream cells on other processes (zero without any such descendant), "
  "and the inter-angle options rank directions alike on all processes (global) or by each process's highest priority (local). Among items ready at the same time a sweep takes one of highest priority first.",
  ["inputs", "configurations"], "all acyclic partitioned meshes, the five intra-angle and three inter-angle options, quadrature orders",
  "Priorities only affect order, which no test observes.",
  ["src/Priorities.cc", "src/GraphTraverser.cc"], [("calcPriorities", "src/Priorities.cc"), ("priority queue per thread", "src/GraphTraverser.cc traverse")], None, ["calcPriorities; TraverseData callbacks"], None)

p("C23", "Valid runs of the solver and tools never touch invalid memory",
  "On every valid mesh, deck and process or thread count, the solver and the mesh tools neither read nor write outside their data, use uninitialised or freed memory, nor rely on undefined arithmetic; "
  "truncated or foreign mesh files and malformed decks lead to a clean refusal.",
  ["inputs", "configurations"], "all valid meshes, partitionings, decks and thread counts for every solver and tool, and malformed decks",
  "Tests run without memory checking on one input.",
  ["src/GraphTraverser.cc", "src/Sweeper.cc", "src/TychoMeshIO.cc", "src/KeyValueReader.cc", "util/RefineSerialMesh.cc"],
  [("bounds assertions in data classes", "src/Mat.hh, src/PsiData.hh")], None, ["AddressSanitizer and UndefinedBehaviorSanitizer builds"], None)

p("C24", "The tool chain from serial mesh to flux file works end to end",
  "For every valid serial mesh, refining it any number of times, partitioning it with either partitioning tool into any possible number of partitions and running the solver on the result gives, in the flux file, "
  "the solution for the last serial mesh in the order of its cells: each program accepts what the previous one writes, and no cell, material, coordinate or order is lost on the way.",
  ["inputs", "configurations"], "all serial meshes, numbers of refinements, partitioning tools and arguments, decks and sources",
  "Tests start from one partitioned mesh; the tools are tested alone on one mesh each.",
  ["util/RefineSerialMesh.cc", "util/PartitionColumns.cc", "util/PartitionMetis.cc", "src/SerialMesh.cc", "src/ParallelMesh.cc", "src/TychoMeshIO.cc", "src/PsiData.cc"],
  [("serial to parallel conversion", "src/ParallelMesh.cc createFromSerialMesh"), ("refinement", "util/RefineSerialMesh.cc"), ("global cell numbers in the flux file", "src/PsiData.cc writeToFile")], None,
  ["files written by the tools and by sweep.x"], None)

p("C25", "Success is reported only when the output was written completely",
  "A mesh tool or solver run that ends with exit status zero has written its complete output file, exactly as an undisturbed run writes it. When writing fails at any point (device full, file size limit, missing directory, a directory in the way) "
  "or reading an input fails, or it is missing or not a file, the program ends with a nonzero status in finite time. Input files are never changed.",
  ["inputs", "crash_points"], "every point in the output at which writing can fail, for all tools and for the solver with any number of processes, with and without older output files",
  "No test makes a read or write fail.",
  ["src/SerialMesh.cc", "src/ParallelMesh.cc", "src/Comm.cc", "src/PsiData.cc", "src/KeyValueReader.cc"],
  [("checked fwrite/fclose", "src/SerialMesh.cc, src/ParallelMesh.cc write"), ("checked MPI-IO", "src/Comm.cc writeDoublesAt, openFileForWrite")], None,
  ["exit status and output files of the programs"], None)

p("C26", "Threads never race on shared data and use MPI as they asked to",
  "In every run with several threads, no two threads access the same memory without synchronisation where one of them writes, whatever the speed of the threads, in every sweep type, while building priorities and schedules and in all "
  "reductions; and MPI is called only as the thread support level that the program requested allows: by one thread at a time, and by no other than the initialising thread unless that was asked for.",
  ["schedules", "inputs", "configurations"], "all meshes, partitionings, thread counts, sweep types and relative speeds of threads",
  TESTS + "a race that is lost once in a million runs, or that only another compiler or machine exposes, passes all of them.",
  ["src/GraphTraverser.cc", "src/Sweeper.cc", "src/SweepData.hh", "src/Priorities.cc", "src/Transport.cc", "src/Util.cc", "src/Main.cc"],
  [("parallel traversal with an atomic counter", "src/GraphTraverser.cc traverse"), ("b-levels: critical section and atomic read", "src/Priorities.cc"),
   ("commNumber handed from thread to thread", "src/Sweeper.cc"), ("per-thread work arrays", "src/SweepData.hh"), ("requested thread level", "src/Main.cc")],
  [("numCellAnglePairsToCalculate", "work left, decremented by all threads", "src/GraphTraverser.cc"), ("commNumber", "thread allowed to communicate", "src/Sweeper.cc")],
  ["memory accesses and MPI calls of instrumented builds of sweep.x"], None)

p("C27", "Build options change neither results nor which inputs are refused",
  "For every valid input, builds with the run-time assertions disabled (ASSERT_ON=0), without PETSc (USE_PETSC=0) or with another optimisation level compute the same flux as the default build, up to rounding. "
  "A build without PETSc ends with an error (not a crash), and without a flux file, when the deck needs the Krylov solver; and every build refuses, before writing output, the same invalid decks and meshes as the default build.",
  ["configurations", "inputs"], "all combinations of build options with all valid inputs and all invalid ones",
  "Tests run one build only.",
  ["src/Assert.hh", "src/KrylovSolver.hh", "src/KrylovSolver.cc", "src/GraphTraverser.cc", "src/TychoMesh.cc", "src/Main.cc"],
  [("assertions compiled out", "src/Assert.hh"), ("stub of the Krylov solver", "src/KrylovSolver.hh")], None, ["flux file and exit status of sweep.x built with other options"], None)

p("C28", "Longer runs hold no more memory, MPI requests or open files",
  "For every problem, sweep type, number of processes and threads, a run that makes more source, Krylov or domain decomposition iterations ends with the same amount of memory, and has needed the same peak, as a shorter one "
  "(apart from buffers that are reused), has no more files open, and every MPI request that the program started has been completed or freed when MPI is finalised.",
  ["histories", "inputs", "configurations"], "all lengths of runs, with all solvers and communication modes",
  "Tests run for at most some dozens of iterations and look at the result only.",
  ["src/GraphTraverser.cc", "src/Sweeper.cc", "src/CommSides.cc", "src/SweeperSchur.cc", "src/SourceIteration.cc", "src/KrylovSolver.cc", "src/PsiData.hh", "src/Mat.hh"],
  [("requests completed before returning", "src/GraphTraverser.cc, src/CommSides.cc"), ("owned arrays", "src/PsiData.hh, src/Mat.hh")], None, ["operator new, MPI calls and files of sweep.x"], None)

p("C29", "Printed times, iteration counts, sweep counts and step statistics are true",
  "For every problem, sweep type and number of processes and threads, the numbers of source, domain decomposition and Krylov iterations and of local sweeps that a run prints are those that were made (every process solves every one of its "
  "cells for every direction exactly once per sweep); the number of steps and the step efficiency printed describe the schedule computed; and the times printed are not negative, contain the time really spent in the part they are named "
  "after on the slowest process (sweep, computation, communication, iteration, all), and parts are not longer than the whole.",
  ["inputs", "configurations", "schedules"], "all runs, however slow single processes are in computing or communicating",
  "Tests compare the last error printed only and cannot know how much work was done or how long it took.",
  ["src/Sweeper.cc", "src/GraphTraverser.cc", "src/SourceIteration.cc", "src/SweeperPBJ.cc", "src/SweeperSchur.cc", "src/SweepSchedule.cc", "src/Timer.hh", "src/Main.cc"],
  [("printed statistics", "src/Sweeper.cc, src/GraphTraverser.cc, src/SourceIteration.cc, src/SweeperPBJ.cc, src/SweeperSchur.cc, src/SweepSchedule.cc")], None,
  ["standard output of sweep.x, calls of Transport::solve, MPI calls"], None)

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
