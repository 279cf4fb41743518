import sys
from core import bug, make
HEAD = "from demolib import *\n"
TSAN = HEAD + r"""
def tsan():
    # the solver with ThreadSanitizer; OpenMP is done by minigomp.cc, whose synchronisation is seen
    here = os.path.dirname(os.path.abspath(__file__))
    fl = ["-std=c++11", "-O1", "-g1", "-fopenmp", "-include", "cstdint", "-DASSERT_ON=1", "-DUSE_PETSC=1", "-I/usr/lib/petsc/include", "-I" + REPO + "/src", "-w"]
    jobs, objs = [], []
    for i, f in enumerate(sorted(REPO + "/src/" + x for x in os.listdir(REPO + "/src") if x.endswith(".cc")) + [here + "/minigomp.cc"]):
        objs.append(TMP + "/t%d.o" % i)
        jobs.append(subprocess.Popen(["mpicxx"] + fl + ([] if "minigomp" in f else ["-fsanitize=thread"]) + ["-c", f, "-o", objs[-1]]))
    if any([j.wait() for j in jobs]) or subprocess.call(["mpicxx", "-fsanitize=thread", "-fopenmp"] + objs + ["-o", TMP + "/tsan.x", "-L/usr/lib/petsc/lib", "-lpetsc_real"]):
        fail("the demonstration does not compile")
    return TMP + "/tsan.x"


def race(m, part, n, threads, k=4, **kw):
    exe = tsan()
    p = write_parts(m, part, n)
    d, df = deck(**kw)
    for i in range(k):
        rc, o = sh(["mpirun", "--oversubscribe", "-n", str(n), exe, p, df], threads=threads,
                   extra=dict(PMIX_MCA_gds="hash", VT_JITTER=str(i + 1), TSAN_OPTIONS="ignore_noninstrumented_modules=1:exitcode=66:report_thread_leaks=0"))
        if "ThreadSanitizer: data race" in o:
            fail("data race: " + o[o.index("WARNING: Thread"):][:900])
        if rc:
            fail("run fails: " + o[-400:])


rng = np.random.default_rng(77)
m, _ = M.gen(rng, 60, "delaunay")
"""

bug("c26-shared-timer", "C26", [("src/Sweeper.cc", """            // Computation
            #pragma omp parallel
            {
                Timer timer1;
                timer1.start();""", """            // Computation
            Timer timer1;
            #pragma omp parallel
            {
                timer1.start();""")],
"OriginalTycho1 with several threads", "All threads start and stop one timer: a data race (and wrong times).",
TSAN + "race(m, [0] * m.nc, 1, 3, SweepType='OriginalTycho1')\n")

bug("c26-double-check", "C26", [("src/Priorities.cc", """        #pragma omp critical
        {
            c_maxBLevel = max(c_maxBLevel, c_bLevels(cell, angle));
        }""", """        if (c_bLevels(cell, angle) > c_maxBLevel) {
            #pragma omp critical
            c_maxBLevel = c_bLevels(cell, angle);
        }""")],
"Two threads that raise the maximum at the same time while priorities are computed", "The maximum is read outside of the critical section: it can be lost, which gives wrong priorities.",
TSAN + "race(m, [0] * m.nc, 1, 4, SweepType='TraverseGraph', intraAngleP=3, snOrder=4)\n")

bug("c26-l2-parallel", "C26", [("src/Problem.cc", """    for(UINT cell = 0; cell < g_nCells; cell++) {
    for(UINT angle = 0; angle < g_nAngles; angle++) {
    for(UINT group = 0; group < g_nGroups; group++) {
        double x = 0.0;""", """    #pragma omp parallel for reduction(+:norm)
    for(UINT cell = 0; cell < g_nCells; cell++) {
    for(UINT angle = 0; angle < g_nAngles; angle++) {
    for(UINT group = 0; group < g_nGroups; group++) {
        double x = 0.0;""")],
"Several threads", "The sum of squared differences is updated by all threads without synchronisation: the printed error is wrong now and then.",
TSAN + "race(m, [0] * m.nc, 1, 4, SweepType='TraverseGraph')\n")

bug("c26-early-turn", "C26", [("src/Sweeper.cc", """                MPI_Waitall(mpiRequests.size(), mpiRequests.data(), 
                            MPI_STATUSES_IGNORE);
                
                
                // Barrier all MPI ranks for thread 'commNumber'
                Comm::barrier();
                
                
                // Allow next thread to communicate
                #pragma omp atomic write
                commNumber = (angleGroup + 1) % g_nAngleGroups;
""", """                // Barrier all MPI ranks for thread 'commNumber'
                Comm::barrier();
                
                
                // Allow next thread to communicate
                #pragma omp atomic write
                commNumber = (angleGroup + 1) % g_nAngleGroups;
                
                
                // Free requests
                MPI_Waitall(mpiRequests.size(), mpiRequests.data(), 
                            MPI_STATUSES_IGNORE);
""")],
"OriginalTycho2 with several threads: a thread that is still in MPI_Waitall when the next one communicates",
"Two threads are in MPI calls at the same time, which the requested thread support does not allow.",
TSAN.replace("def race", """SHIM = r'''
#include <mpi.h>
#include <atomic>
#include <cstdio>
#include <unistd.h>
static std::atomic<int> in(0);
struct C { C() { if (in.fetch_add(1) > 0) fprintf(stderr, "OVERLAP\\n"); } ~C() { in.fetch_sub(1); } };
extern "C" {
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s) { C c; usleep(20000); return PMPI_Waitall(n, r, s); }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm m, MPI_Request *r) { C c; return PMPI_Isend(b, n, t, d, g, m, r); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm m, MPI_Status *s) { C c; return PMPI_Recv(b, n, t, d, g, m, s); }
int MPI_Barrier(MPI_Comm m) { C c; return PMPI_Barrier(m); }
}
'''


def race""") + """
rc, o, psi = sweep(write_parts(m, [0] * 30 + [1] * (m.nc - 30), 2), nproc=2, threads=2, extra=dict(LD_PRELOAD=preload(SHIM)), SweepType="OriginalTycho2", maxCellsPerStep=40)
if "OVERLAP" in o:
    fail("two threads are in MPI calls at the same time")
if rc:
    fail("run fails: " + o[-300:])
""")

bug("c25-unchecked-write", "C25", [("src/PsiData.cc", "        Comm::writeDoublesAt(file, offset, data, dataSize);", """        MPI_File_write_at(file, offset * sizeof(double), data, dataSize,
                          MPI_DOUBLE, MPI_STATUS_IGNORE);""")],
"A full device while the flux is written", "The flux file is cut off and the run reports success.",
HEAD + r"""
SHIM = r'''
#include <mpi.h>
#include <signal.h>
#include <sys/resource.h>
extern "C" int MPI_File_open(MPI_Comm c, const char *n, int a, MPI_Info i, MPI_File *f)
{
    if (a & MPI_MODE_WRONLY) {
        struct rlimit r;
        getrlimit(RLIMIT_FSIZE, &r);
        r.rlim_cur = 3000;
        signal(SIGXFSZ, SIG_IGN);
        setrlimit(RLIMIT_FSIZE, &r);
    }
    return PMPI_File_open(c, n, a, i, f);
}
'''
m, _ = M.gen(np.random.default_rng(78), 40, "delaunay")
for n in (1, 2):
    rc, o, psi = sweep(write_parts(m, [c % n for c in range(m.nc)], n), nproc=n, extra=dict(LD_PRELOAD=preload(SHIM)))
    if rc == 0:
        fail("the run reports success, the flux file could not be written")
""")

bug("c25-some-written", "C25", [("src/SerialMesh.cc", """    numWritten = fwrite(bufferUint.data(), sizeof(uint64_t), 
                        bufferUint.size(), file);
    assert(numWritten == bufferUint.size());""", """    numWritten = fwrite(bufferUint.data(), sizeof(uint64_t), 
                        bufferUint.size(), file);
    assert(numWritten > 0);""")],
"A device that fills up while the cells and faces of a refined mesh are written and has space again afterwards, or a file size limit",
"A mesh with data missing in the middle is written and success is reported.",
HEAD + r"""
m, _ = M.gen(np.random.default_rng(79), 60, "delaunay")
M.write_smesh(m, TMP + "/a.smesh")
pre = r'''
#include <stdio.h>
#include <dlfcn.h>
// the third write is cut short once
extern "C" size_t fwrite(const void *p, size_t s, size_t n, FILE *f)
{
    static auto real = (size_t (*)(const void *, size_t, size_t, FILE *))dlsym(RTLD_NEXT, "fwrite");
    static int k = 0;
    return ++k == 2 && n > 100 ? real(p, s, n / 2, f) : real(p, s, n, f);
}
'''
so = preload(pre)
rc, o = sh([REPO + "/util/RefineSerialMesh.x", "a.smesh", "b.smesh"], extra=dict(LD_PRELOAD=so))
if rc == 0:
    fail("success is reported for a mesh file of %d bytes" % os.path.getsize(TMP + "/b.smesh"))
""")

bug("c25-open", "C25", [("src/ParallelMesh.cc", """    file = fopen(filename.c_str(), "wb");
    assert(file != NULL);""", """    file = fopen(filename.c_str(), "wb");
    if (file == NULL) {
        printf("Cannot write %s\\n", filename.c_str());
        return;
    }""")],
"An output name in a directory that does not exist, or a directory in the way", "The partitioning tools report success though no mesh was written.",
HEAD + r"""
m, _ = M.gen(np.random.default_rng(80), 20, "delaunay")
M.write_smesh(m, TMP + "/a.smesh")
os.mkdir(TMP + "/dir")
for out in ("none/b.pmesh", "dir"):
    rc, o = sh([REPO + "/util/PartitionColumns.x", "2", "1", "a.smesh", out])
    if rc == 0:
        fail("success is reported, but %s is no file" % out)
""")

bug("c24-material", "C24", [("util/RefineSerialMesh.cc", """            cellData.materialIndex = 
                coarseMesh.c_cellData[coarseCell].materialIndex;""", """            cellData.materialIndex = 
                coarseMesh.c_cellData[refinedMesh.c_cellData.size() % 
                                      coarseMesh.c_numCells].materialIndex;""")],
"A refined mesh with two materials that have different cross sections", "Cells of a refined mesh have the materials of other cells, the flux is that of another problem.",
HEAD + r"""
rng = np.random.default_rng(81)
m, _ = M.gen(rng, 12, "delaunay")
m = M.Mesh(m.nodes, m.cells, [1 + (x > np.median(m.nodes[:, 0])) for x in m.nodes[m.cells].mean(1)[:, 0]])
m.build_faces()
M.write_smesh(m, TMP + "/a.smesh")
rc, o = sh([REPO + "/util/RefineSerialMesh.x", "a.smesh", "b.smesh"])
if rc:
    fail("refinement fails " + o)
r = M.read_smesh(TMP + "/b.smesh")
for c in range(r.nc):
    x = r.nodes[r.cells[c]].mean(0)
    inside = []
    for k in range(m.nc):
        v = m.nodes[m.cells[k]]
        l = np.linalg.solve(np.vstack([v.T, np.ones(4)]), np.append(x, 1))
        if l.min() > 1e-9:
            inside.append(k)
    if len(inside) == 1 and m.mats[inside[0]] != r.mats[c]:
        fail("refined cell %d lies in cell %d of material %d, but has material %d" % (c, inside[0], m.mats[inside[0]], r.mats[c]))
""")
make(sys.argv[1:])
