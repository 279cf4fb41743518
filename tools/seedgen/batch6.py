import sys
from core import bug, make
HEAD = "from demolib import *\n"
BUILD = HEAD + r'''
def build(assertions, petsc):
    """sweep.x with other build options."""
    p = TMP + "/sweep_opt.x"
    src = [REPO + "/src/" + f for f in sorted(os.listdir(REPO + "/src")) if f.endswith(".cc")]
    flags = ["-std=c++11", "-O1", "-fopenmp", "-include", "cstdint", "-DASSERT_ON=%d" % assertions, "-DUSE_PETSC=%d" % petsc, "-I" + REPO + "/src",
             "-I/usr/lib/petsc/include", "-w"]
    outs = [TMP + "/s%d.o" % i for i in range(len(src))]
    procs = [subprocess.Popen(["mpicxx"] + flags + ["-c", s, "-o", o]) for s, o in zip(src, outs)]
    if any(q.wait() for q in procs) or subprocess.call(["mpicxx", "-fopenmp"] + outs + ["-o", p] + (["-L/usr/lib/petsc/lib", "-lpetsc_real"] if petsc else [])):
        fail("does not build with these options")
    return p


def run(exe, pm, n, **kw):
    d, p = deck(**kw)
    f = TMP + "/psi.out"
    if os.path.exists(f):
        os.remove(f)
    rc, o = sh(["mpirun", "-n", n, exe, pm, p], timeout=60)
    return rc, o, M.parse_psi(open(f, "rb").read()) if rc == 0 and os.path.exists(f) else None
'''

bug("c27-checked-send", "C27", [("src/CommSides.cc", """            mpiError = MPI_Isend(dataToSend[rankIndex].data(), 
                                 dataToSend[rankIndex].size(), 
                                 MPI_BYTE, adjRank, tag, MPI_COMM_WORLD, 
                                 &request);
            Insist(mpiError == MPI_SUCCESS, "");""", """            Assert(MPI_Isend(dataToSend[rankIndex].data(), 
                             dataToSend[rankIndex].size(), 
                             MPI_BYTE, adjRank, tag, MPI_COMM_WORLD, 
                             &request) == MPI_SUCCESS);""")],
"A build with ASSERT_ON=0, several processes and a domain decomposed sweep", "The message is sent by the argument of an assertion: without assertions nothing is sent.",
BUILD + r"""
m, _ = M.gen(np.random.default_rng(3), 30, "delaunay")
part = [int(x) for x in np.arange(m.nc) % 2]
exe = build(0, 1)
kw = dict(SweepType="PBJ", sigmaS1=0.3, sigmaS2=0.3, errMax=1e-11)
rc, o, psi = run(exe, write_parts(m, part, 2), 2, **kw)
if psi is None:
    fail("build without assertions: exit %s: %s" % (rc, o[-200:]))
want = expected(m, dict(DECK, **kw))
if not np.abs(psi - want).max() < 1e-7 * np.abs(want).max():
    fail("build without assertions: wrong flux")
""")

bug("c27-stub", "C27", [("src/KrylovSolver.hh", """        Insist(false, "KrylovSolver: PETSc not in use.");""", """        Assert(false);    // PETSc not in use""")],
"A build with USE_PETSC=0 and ASSERT_ON=0 and a deck that needs the Krylov solver", "The run does not fail although there is no solver: it crashes later or writes a wrong flux.",
BUILD + r"""
m, _ = M.gen(np.random.default_rng(3), 30, "delaunay")
exe = build(0, 0)
for st, si, n in (("SchurOuter", "true", 2), ("Schur", "true", 2), ("TraverseGraph", "true", 2), ("SchurKrylov", "true", 1), ("Schur", "true", 1), ("SchurOuter", "true", 1)):
    part = [int(x) for x in np.arange(m.nc) % n]
    rc, o, psi = run(exe, write_parts(m, part, n), n, SweepType=st, SourceIteration=si, sigmaS1=0.3, sigmaS2=0.3, errMax=1e-11)
    print(st, rc, o[-100:] if rc else "")
    if st == "TraverseGraph":
        if psi is None:
            fail("a run that does not need PETSc fails")
    elif rc is None or rc == 0 or "PETSc" not in o:
        fail("a run that needs PETSc does not stop with an error about PETSc")
""")

bug("c27-order", "C27", [("src/Quadrature.cc", """            Insist(false, "Quadrature order not supported.");
            break;""", """            Assert(false);  // Quadrature order not supported
            gw = s_w30;
            gn = s_n30;
            break;""")],
"A build with ASSERT_ON=0 and an order that has no quadrature", "An unsupported quadrature order is accepted when assertions are off.",
BUILD + r"""
m, _ = M.gen(np.random.default_rng(3), 30, "delaunay")
exe = build(0, 1)
pm = write_parts(m, [0] * m.nc, 1)
for sn, good in ((2, True), (5, False), (3, False)):
    rc, o, psi = run(exe, pm, 1, snOrder=sn)
    if good != (rc == 0):
        fail("order %d: exit status %s" % (sn, rc))
""")

RES = HEAD + r"""
preload(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "resource.cc")).read())


def held(pm, n, threads=1, **kw):
    # what every process holds when the run ends: live bytes, peak, blocks, requests, files, heap
    rc, o, psi = sweep(pm, n, threads, extra=dict(LD_PRELOAD=TMP + "/pre.so", VT_RES=TMP + "/res"), **kw)
    if rc != 0:
        fail("exit %s: %s" % (rc, o[-300:]))
    return [[int(x) for x in open(TMP + "/res.%d" % r).read().split()] for r in range(n)]
"""
bug("c28-size-request", "C28", [("src/GraphTraverser.cc", """        Insist(mpiError == MPI_SUCCESS, "");
        mpiSendRequests.push_back(request);
        
        
        // Send data
        if (sendSizes[index] > 0 && sendSizes[index] != UINT64_MAX) {""", """        Insist(mpiError == MPI_SUCCESS, "");
        
        
        // Send data
        if (sendSizes[index] > 0 && sendSizes[index] != UINT64_MAX) {
            mpiSendRequests.push_back(request);""")],
"Several processes in the mode TychoTwoSided and exchanges without data", "The request of a size message that announces no data is never completed: requests pile up with every sweep.",
RES + r"""
m, _ = M.gen(np.random.default_rng(3), 40, "delaunay")
n = 3
pm = write_parts(m, [i % n for i in range(m.nc)], n)
for k in (10, 40):
    v = held(pm, n, MPIType="TychoTwoSided", iterMax=k, errMax=1e-300, sigmaS1=0.9, sigmaS2=0.9, maxCellsPerStep=1)
    print(k, v)
    if max(x[3] for x in v) > 0:
        fail("MPI requests are left at the end")
""")

bug("c28-bound-data", "C28", [("src/PsiData.hh", """    ~PsiBoundData()
    {
        if (c_data != NULL) {""", """    ~PsiBoundData()
    {
        if (c_data == NULL) {""")],
"Many sweeps", "The boundary flux of every sweep is never freed.",
RES + r"""
m, _ = M.gen(np.random.default_rng(3), 40, "delaunay")
n = 2
pm = write_parts(m, [i % n for i in range(m.nc)], n)
v = [held(pm, n, iterMax=k, errMax=1e-300, sigmaS1=0.9, sigmaS2=0.9) for k in (10, 60)]
print(v)
if v[1][0][0] > v[0][0][0] + 20000:
    fail("memory grows with the number of iterations")
""")

make(sys.argv[1:])
