import sys
from core import bug, make
HEAD = "from demolib import *\n"

bug("c15-key-prefix", "C15", [("src/KeyValueReader.cc", """    if (s1.size() != s2.size())
        return false;
    
    for (size_t i = 0; i < s1.size(); i++) {""", """    if (s1.size() > s2.size())
        return false;
    
    for (size_t i = 0; i < s1.size(); i++) {""")],
"A deck with OutputFilename before OutputFile (a key that is the beginning of an earlier key)",
"A key is taken for an earlier key that begins with it: valid decks are refused as if they repeated a key.",
HEAD + """
rng = np.random.default_rng(41)
m, _ = M.gen(rng, 20, "delaunay")
p = write_parts(m, [0] * m.nc, 1)
d, _ = deck()
for keys in (list(d), list(d)[::-1]):
    rc, o, psi = sweep(p, text="".join("%s %s\\n" % (k, d[k]) for k in keys))
    if rc or psi is None:
        fail("a valid deck is refused: " + o[-300:])
""")

bug("c19-cell0", "C19", [("src/Problem.cc", "                    + (g_sigmaT[cell] - g_sigmaS[cell]) * (1.0 - c / 30.0);",
"                    + (g_sigmaT[0] - g_sigmaS[0]) * (1.0 - c / 30.0);")],
"A mesh with two materials with different absorption", "The source is made for the cross sections of the first cell everywhere, so the hat is not the exact flux.",
HEAD + """
rng = np.random.default_rng(42)
m, _ = M.gen(rng, 60, "delaunay")
m = M.Mesh((m.nodes - m.nodes.mean(0)) / (m.nodes.max(0) - m.nodes.min(0)) * 40 + 50, m.cells, rng.integers(1, 3, m.nc))
check_flux(m, [0] * m.nc, 1, 1e-8, sigmaT1=0.1, sigmaT2=0.3)
""")

bug("c22-strict", "C22", [("src/Priorities.cc", "        neighborPriorities(sideBLevels, maxBLevel, maxBLevel, -1,", "        neighborPriorities(sideBLevels, 1, maxBLevel, -1,")],
"intraAngleP 4 with TraverseGraph on several processes", "The strict depth-first option gives the priorities of the plain depth-first one.",
HEAD + """
exe = cxx(r'''
#define NO_EXTERN
#include "Global.hh"
#include "Quadrature.hh"
#include "TychoMesh.hh"
#include "Priorities.hh"
#include "Comm.hh"
#include <algorithm>
#include <cstdio>
#include <mpi.h>
int main(int argc, char **argv)
{
    MPI_Init(&argc, &argv);
    g_nAngleGroups = g_nThreads = 1;
    g_snOrder = 2; g_nGroups = 1; g_maxCellsPerStep = 10; g_interAngleP = 0;
    g_mpiType = MPIType_TychoTwoSided;
    g_quadrature = new Quadrature(2);
    g_tychoMesh = new TychoMesh(argv[1]);
    Mat2<UINT> b(g_nCells, g_nAngles), p(g_nCells, g_nAngles);
    g_intraAngleP = 1;
    Priorities::calcPriorities(b);
    g_intraAngleP = 4;
    Priorities::calcPriorities(p);
    UINT top = 0, mx = 0;
    for (UINT c = 0; c < g_nCells; c++)
        for (UINT a = 0; a < g_nAngles; a++) {
            top = std::max(top, b(c, a));
            mx = std::max(mx, p(c, a));
        }
    Comm::gmax(top);
    Comm::gmax(mx);
    if (Comm::rank() == 0)
        printf("TOP %d %d\\n", (int)top, (int)mx);
    MPI_Finalize();
}
''', exclude=("Main.cc", "Global.cc"))
# a bar in three pieces: the levels beyond the first boundary exceed 1, so a strict priority exceeds twice the highest level
P, T = M._kuhn(9, 1, 1)
m = M.Mesh(np.asarray(P, float), np.asarray(T))
c = m.nodes[m.cells].mean(1)[:, 0]
rc, o = sh(["mpirun", "-n", 3, exe, write_parts(m, np.digitize(c, [3, 6]), 3)])
v = [l.split() for l in o.split("\\n") if l.startswith("TOP")]
if rc or not v:
    fail("run failed: " + o[-300:])
print(v)
if int(v[0][2]) <= 2 * int(v[0][1]):
    fail("the highest priority is %s, the highest level %s" % (v[0][2], v[0][1]))
""")

bug("c14-far-midpoint", "C14", [("util/RefineSerialMesh.cc", """        midNodes[index].coords[coord] = 
            0.5 * (origNodes[i].coords[coord] + origNodes[j].coords[coord]);""",
"""        if (index < 3)
            midNodes[index].coords[coord] = 
                0.5 * (origNodes[i].coords[coord] + origNodes[j].coords[coord]);
        else  // the centroid is half way between opposite midpoints
            midNodes[index].coords[coord] = 
                0.5 * (origNodes[0].coords[coord] + origNodes[1].coords[coord] + 
                       origNodes[2].coords[coord] + origNodes[3].coords[coord]) - 
                midNodes[5 - index].coords[coord];""")],
"A mesh far from the origin compared with its size", "The midpoint of an edge depends in its last digit on the cell it is computed in: far from the origin it is not recognised, and the refined mesh has cracks.",
HEAD + """
rng = np.random.default_rng(43)
for k in range(6):
    m, _ = M.gen(rng, 60, "delaunay")
    s = np.ptp(m.nodes, axis=0).max()
    m = M.Mesh(m.nodes / s + rng.uniform(300, 900, 3), m.cells, m.mats)
    M.write_smesh(m, TMP + "/m.smesh")
    if tool("RefineSerialMesh.x", TMP + "/m.smesh", TMP + "/r.smesh")[0]:
        fail("the tool failed")
    r = M.read_smesh(TMP + "/r.smesh")
    edges = {tuple(sorted((int(t[a]), int(t[b])))) for t in m.cells for a in range(4) for b in range(a)}
    nodes = len(m.nodes) + len(edges)
    got = len(r.nodes)
    if got != nodes:
        fail("%d nodes instead of %d" % (got, nodes))
""")

bug("c18-sides-wait", "C18", [("src/CommSides.cc", "    if (mpiSendRequests.size() > 0) {", "    if (numToRecv == 0 && mpiSendRequests.size() > 0) {")],
"PBJ or Schur and a send that completes late (the receiver is slow or the message not buffered)",
"The exchange returns, and frees its buffers, as soon as everything is received: sends that are still under way lose their data.",
HEAD + """
LATE = r'''
// Data of a nonblocking send are taken when the send is waited for or, at the latest, at the next collective call.
#include <mpi.h>
#include <vector>
static std::vector<MPI_Request> late;
static void go() { for (auto &r : late) PMPI_Start(&r); late.clear(); }
static int waits;
extern "C" {
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r)
{ int me; PMPI_Comm_rank(c, &me); int e = PMPI_Send_init(b, n, t, d, tag, c, r); if (me == 2 && d == 0) late.push_back(*r); else PMPI_Start(r); return e; }
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s) { go(); return PMPI_Waitall(n, r, s); }
int MPI_Allreduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { go(); return PMPI_Allreduce(a, b, n, t, o, c); }
}
'''
P, T = M._kuhn(3, 1, 1)
m = M.Mesh(np.asarray(P, float) * 10 + 40 + .01 * np.random.default_rng(1).normal(size=(len(P), 3)), np.asarray(T))
part = np.array([2, 1, 0])[np.digitize(m.nodes[m.cells].mean(1)[:, 0], [50, 60])]
part = (np.arange(m.nc) * 7) % 3
check_flux(m, part, 3, 1e-7, timeout=60, extra={"LD_PRELOAD": preload(LATE)}, SweepType="PBJ", sigmaT1=0.1, sigmaT2=0.1)
""")

bug("c21-empty", "C21", [("src/KrylovSolver.cc", """    // Get vector arrays
    VecGetArrayRead(x, &xArray);
    VecGetArray(b, &bArray);""", """    // Nothing to do without unknowns
    PetscInt size;
    VecGetLocalSize(b, &size);
    if (size == 0)
        return 0;
    
    
    // Get vector arrays
    VecGetArrayRead(x, &xArray);
    VecGetArray(b, &bArray);""")],
"A process without unknowns (no boundary to another process) and an operator in which all processes take part",
"A process without unknowns of its own does not take part in the operator, and the others wait for it.",
HEAD + """
exe = cxx(r'''
#define NO_EXTERN
#include "Global.hh"
#include "KrylovSolver.hh"
#include "Comm.hh"
#include <cstdio>
#include <cmath>
#include <vector>
#include <mpi.h>
static int n;
static void op(const double *x, double *b, void *)
{
    double s = 0;
    for (int i = 0; i < n; i++) s += x[i];
    Comm::gsum(s);
    for (int i = 0; i < n; i++) b[i] = (2 + i) * x[i] + 0.1 * s;
}
int main(int argc, char **argv)
{
    PetscInitialize(&argc, &argv, NULL, NULL);
    {
        n = Comm::rank() == 1 ? 0 : 5;
        KrylovSolver k(n, 1e-10, 200, op);
        k.setData(NULL);
        double *b = k.getB();
        for (int i = 0; i < n; i++) b[i] = 1 + i;
        k.releaseB();
        k.solve();
        double *x = k.getX();
        std::vector<double> y(n + 1);
        double r = 0;
        op(x, y.data(), NULL);
        for (int i = 0; i < n; i++) r += pow(y[i] - (1 + i), 2);
        k.releaseX();
        Comm::gsum(r);
        if (Comm::rank() == 0) printf("RES %g\\n", sqrt(r));
    }
    PetscFinalize();
}
''', exclude=("Main.cc", "Global.cc"))
rc, o = sh(["mpirun", "-n", 3, exe], timeout=40)
v = [float(l.split()[1]) for l in o.split("\\n") if l.startswith("RES")]
if not v or not v[0] < 1e-7:
    fail("residual %s %s" % (v, o[-300:]))
""")

bug("c13-chunks", "C13", [("util/PartitionColumns.cc", """        chunkIndices[i+1] = chunkIndices[i] + (size / numChunks);
        if (i < (size % numChunks))
            chunkIndices[i+1]++;""", """        const uint64_t chunkSize = (size + numChunks - 1) / numChunks;
        chunkIndices[i+1] = min(chunkIndices[i] + chunkSize, size);""")],
"A number of cells that the number of partitions does not divide", "All but the last partitions are as large as possible, so the last ones are much smaller or empty.",
HEAD + """
rng = np.random.default_rng(44)
for n, nx, ny in ((60, 7, 1), (60, 1, 11), (80, 6, 5)):
    m, _ = M.gen(rng, n, "delaunay")
    M.write_smesh(m, TMP + "/m.smesh")
    if tool("PartitionColumns.x", nx, ny, TMP + "/m.smesh", TMP + "/o.pmesh")[0]:
        fail("the tool failed")
    p = M.parse_pmesh(open(TMP + "/o.pmesh", "rb").read())
    k = np.array([len(q.cells) for q in p]).reshape(nx, ny)
    if np.ptp(k.sum(1)) > 1 or np.ptp(k, axis=1).max() > 1:
        fail("partition sizes %s" % k.tolist())
""")

bug("c12-missing-first", "C12", [("src/ParallelMesh.cc", """                if (gcell == numeric_limits<uint64_t>::max()) {
                    faceData.boundingCells[lcell] = numeric_limits<uint64_t>::max();
                    faceData.boundaryType = ParallelMesh::MeshBoundary;
                    faceData.partition[lcell] = numeric_limits<uint64_t>::max();
                }""", """                if (gcell == numeric_limits<uint64_t>::max()) {
                    faceData.boundingCells[lcell] = numeric_limits<uint64_t>::max();
                    if (lcell == 1)
                        faceData.boundaryType = ParallelMesh::MeshBoundary;
                    faceData.partition[lcell] = numeric_limits<uint64_t>::max();
                }""")],
"A serial mesh that lists the missing cell of a boundary face first", "Boundary faces with the missing cell first are labelled as interior.",
HEAD + """
import struct
rng = np.random.default_rng(45)
m, _ = M.gen(rng, 30, "delaunay")
M.write_smesh(m, TMP + "/m.smesh")
b = bytearray(open(TMP + "/m.smesh", "rb").read())
none = b"\\xff" * 8
off = 32 + 4 * 8 + m.nc * 9 * 8        # name, version, counts, cells of nine numbers
k = 0
h = struct.unpack_from("<4Q", b, 32)
assert h[1] == m.nc
for f in range(h[2]):
    o = off + f * 5 * 8
    if b[o + 8:o + 16] == none and f % 2:
        b[o:o + 8], b[o + 8:o + 16] = none, b[o:o + 8]
        k += 1
assert k
open(TMP + "/m.smesh", "wb").write(b)
if tool("PartitionColumns.x", 2, 1, TMP + "/m.smesh", TMP + "/o.pmesh")[0]:
    fail("the tool failed")
p = M.parse_pmesh(open(TMP + "/o.pmesh", "rb").read())
bad = 0
for q in p:
    for c in q.faces:
        if -1 in c[:2] and c[8] != 0:
            bad += 1
if bad:
    fail("%d boundary faces are labelled as something else" % bad)
""")

bug("c10-header-empty", "C10", [("src/PsiData.cc", "    if (Comm::rank() == 0) {", "    if (Comm::rank() == 0 && c_nc > 0) {")],
"A mesh whose first partition has no cells", "The header is left out when the first process has no cells.",
HEAD + """
rng = np.random.default_rng(46)
m, _ = M.gen(rng, 30, "delaunay")
rc, o, psi = sweep(write_parts(m, [1] * m.nc, 2), 2)
b = open(TMP + "/psi.out", "rb").read()
if rc or not b.startswith(b"Tycho 2 Psi Output"):
    fail("the file starts with %r" % b[:32])
""")

bug("c17-norm-max", "C17", [("src/SourceIteration.cc", "            norm += fabs(phiNew[i]);", "            norm += std::max(fabs(phiNew[i]), fabs(phiOld[i]));")],
"An iterate that becomes smaller somewhere", "The change is divided by more than the norm of the new iterate, so it is reported too small and iteration may stop early.",
HEAD + """
import re
rng = np.random.default_rng(47)
m, _ = M.gen(rng, 60, "delaunay")
m = M.Mesh((m.nodes - m.nodes.mean(0)) / np.ptp(m.nodes, axis=0) * 60 + 50, m.cells, m.mats)
d, _ = deck(sigmaT1=0.05, sigmaT2=0.05, sigmaS1=0.04, sigmaS2=0.04, iterMax=8, errMax=1e-12)
t, s = sigmas(m, d)
pr = R.Problem(m, 2, t, s)
q = R.hat_source(m, pr.om, t, s, 1)
rc, o, psi = sweep(write_parts(m, [0] * m.nc, 1), **{k: d[k] for k in d})
got = [float(x) for x in re.findall(r"error: +(\\S+)", o)]
w = R.quadrature(2)[1]
phi = None
old = 0
zero = R.Problem(m, 2, t, s * 0)
for k in range(8):
    e = np.zeros_like(q) if k == 0 else (s[:, None, None, None] / (4 * np.pi)) * phi[:, None]
    psi = zero.solve(q + e)
    new = np.einsum("a,cavg->cvg", w, psi)
    change = np.abs(new - old).sum() / np.abs(new).sum()
    if abs(change - got[k]) > 1e-5 * change:
        fail("iteration %d reports the change %g, it is %g" % (k, got[k], change))
    old = phi = new
""")

bug("c23-chunk-size", "C23", [("util/PartitionColumns.cc", "    vector<uint64_t> chunkIndices(numChunks + 1);", "    vector<uint64_t> chunkIndices(numChunks > 1 ? numChunks : 2);")],
"PartitionColumns with two or more partitions in a direction", "The list of chunk boundaries has one place too few: the heap is overrun.",
HEAD + """
rng = np.random.default_rng(48)
m, _ = M.gen(rng, 40, "delaunay")
M.write_smesh(m, TMP + "/m.smesh")
rc, o = sh(["valgrind", "-q", "--error-exitcode=9", REPO + "/util/PartitionColumns.x", 3, 3, TMP + "/m.smesh", TMP + "/o.pmesh"])
if rc:
    fail("exit %s: %s" % (rc, o[-400:]))
""")
if __name__ == "__main__":
    make(sys.argv[1:])
