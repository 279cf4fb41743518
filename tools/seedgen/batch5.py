import sys
from core import bug, make
HEAD = "from demolib import *\n"

bug("c09-exact-parallel", "C09", [("src/CommSides.cc", """                    else if (g_tychoMesh->isIncoming(angle, cell, face)) {
                        c_numRecvPackets[rankIndex]++;""", """                    else {
                        c_numRecvPackets[rankIndex]++;""")],
"A face between partitions that is exactly parallel to a direction", "Faces parallel to a direction count as incoming: more packets are expected than are sent; the missing ones are read as packets of zeros or waited for.",
HEAD + r"""
# meshes of cubes cut into six tetrahedra: quadratures of order 6 have directions with |x| = |y| or zero components in floating point
P, T = M._kuhn(2, 2, 2)
P = np.asarray(P, float)
for A in ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, -1, 0], [1, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [1, 1, 1]]):
    m = M.Mesh((P @ np.array(A, float).T) * 16 + 32, np.asarray(T))
    c = m.nodes[m.cells].mean(axis=1)
    for sn in (2, 6):
        for part in ([int(x) for x in c[:, 0] > c[:, 1]], [i % 2 for i in range(m.nc)]):
            d = dict(SweepType="PBJ", snOrder=sn, iterMax=100, errMax=1e-11, DD_IterMax=100, DD_ErrMax=1e-12, sigmaS1=0.1, sigmaS2=0.1)
            check_flux(m, part, 2, tol=1e-7, timeout=30, **d)
""")

bug("c10-contiguous", "C10", [("src/PsiData.cc", """    // Write data one cell at a time
    for (size_t cell = 0; cell < c_nc; cell++) {
        int dataSize = c_na * c_ng * c_nv;""", """    // Write a block of cells at once
    if (c_nc > 0 && 
        g_tychoMesh->getLGCell(c_nc - 1) == g_tychoMesh->getLGCell(0) + c_nc - 1)
    {
        uint64_t cellSize = c_na * c_ng * c_nv;
        uint64_t offset = 8 + g_tychoMesh->getLGCell(0) * cellSize;
        Comm::writeDoublesAt(file, offset, &c_data[0], cellSize * c_nc);
        Comm::closeFile(file);
        return;
    }
    

    // Write data one cell at a time
    for (size_t cell = 0; cell < c_nc; cell++) {
        int dataSize = c_na * c_ng * c_nv;""")],
"A partition whose first and last cell have global numbers that differ by the number of cells less one, while those between are not in order", "The cells are written as one block although they are not in the order of the serial mesh.",
HEAD + r"""
rng = np.random.default_rng(6)
m, _ = M.gen(rng, 60, "delaunay")
class Fixed:
    # the cells inside the partition in the wanted order
    def permutation(self, x):
        x = np.arange(x) if np.isscalar(x) else np.asarray(x)
        return np.concatenate([x[:1], x[1:-1][::-1], x[-1:]]) if len(x) > 2 else x
    def random(self, *a):
        return rng.random(*a)
    def integers(self, *a, **k):
        return rng.integers(*a, **k)
    def shuffle(self, x):
        x[1:-1] = x[1:-1][::-1]
check_flux(m, [0] * m.nc, 1, rng=Fixed())
""")

bug("c11-short-nodes", "C11", [("src/SerialMesh.cc", """    assert(numRead == c_numNodes * 3);""", """    assert(numRead == c_numNodes * 3 || feof(file));""")],
"A serial mesh file that ends within the nodes", "A truncated mesh file is accepted; the missing coordinates become zero.",
HEAD + r"""
rng = np.random.default_rng(7)
m, _ = M.gen(rng, 30, "delaunay")
p = TMP + "/a.smesh"
M.write_smesh(m, p)
b = open(p, "rb").read()
for cut in (8, 24, 80):
    open(p, "wb").write(b[:-cut])
    for t, a in (("SerialMeshInfo.x", [p]), ("PartitionColumns.x", [2, 1, p, TMP + "/o.pmesh"]), ("RefineSerialMesh.x", [p, TMP + "/o.smesh"])):
        rc, o = tool(t, *[str(x) for x in a])
        if rc == 0:
            fail("%s accepts a file without its last %d bytes" % (t, cut))
""")

bug("c04-det-guard", "C04", [("src/Transport.cc", """            // calculate matrix inverse
            det = 1/det;""", """            // calculate matrix inverse
            det = fabs(det) > 1e-30 ? 1/det : 0.0;""")],
"CramerIntel and cells smaller than about 1e-4 in optically thin material", "A matrix with a small determinant counts as singular: the flux of small cells is zero.",
HEAD + r"""
rng = np.random.default_rng(8)
m, _ = M.gen(rng, 40, "delaunay")
x = m.nodes
m.nodes[:] = 50 + (x - x.mean(axis=0)) / np.abs(x - x.mean(axis=0)).max() * 1e-4
for g in ("Original", "NoPivot", "CramerGlu", "CramerIntel"):
    check_flux(m, [0] * m.nc, 1, tol=1e-6, GaussElim=g)
""")

bug("c21-abstol", "C21", [("src/KrylovSolver.cc", """    KSPSetTolerances(c_ksp, rtol, PETSC_DEFAULT, PETSC_MAX_REAL, iterMax);""", """    KSPSetTolerances(c_ksp, rtol, 1e-14, PETSC_MAX_REAL, iterMax);""")],
"A right-hand side with a norm so small that the relative tolerance asks for less than 1e-14", "The solver stops at a residual of 1e-14 whatever the right-hand side is.",
HEAD + r"""
exe = cxx(r'''
#include "Global.hh"
#include "KrylovSolver.hh"
#include "Comm.hh"
#include <cstdio>
#include <cmath>
#include <vector>
#include <mpi.h>
static int n = 30;
static void op(const double *x, double *b, void *)
{
    for (int i = 0; i < n; i++) b[i] = (2 + i) * x[i] + (i > 0 ? 0.5 * x[i - 1] : 0);
}
int main(int argc, char **argv)
{
    PetscInitialize(&argc, &argv, NULL, NULL);
    {
        KrylovSolver k(n, 1e-10, 200, op);
        k.setData(NULL);
        double *b = k.getB(), rhs = 0, r = 0;
        for (int i = 0; i < n; i++) { b[i] = 1e-9 * (1 + i); rhs += b[i] * b[i]; }
        k.releaseB();
        k.solve();
        double *x = k.getX();
        std::vector<double> y(n);
        op(x, y.data(), NULL);
        for (int i = 0; i < n; i++) r += pow(y[i] - 1e-9 * (1 + i), 2);
        k.releaseX();
        printf("RES %g\n", sqrt(r / rhs));
    }
    PetscFinalize();
}
''', exclude=("Main.cc", "Global.cc"))
rc, o = sh(["mpirun", "-n", 1, exe], timeout=40)
v = [float(l.split()[1]) for l in o.split("\n") if l.startswith("RES")]
if not v or not v[0] < 1e-8:
    fail("residual %s %s" % (v, o[-300:]))
""")

bug("c13-float-sort", "C13", [("util/PartitionColumns.cc", """    return c1.coord[0] < c2.coord[0];""", """    return (float) c1.coord[0] < (float) c2.coord[0];""")],
"A mesh far from the origin compared with its size", "Cells are sorted by single precision coordinates: cells of one column lie between cells of another.",
HEAD + r"""
rng = np.random.default_rng(9)
m, _ = M.gen(rng, 200, "delaunay")
x = m.nodes
m.nodes[:] = (x - x.min(axis=0)) / (x.max() - x.min()) + 1e6
p, o = TMP + "/a.smesh", TMP + "/o.pmesh"
M.write_smesh(m, p)
rc, t = tool("PartitionColumns.x", "4", "1", p, o)
if rc:
    fail(t)
pm = M.parse_pmesh(open(o, "rb").read())
cx = m.nodes[m.cells].mean(axis=1)[:, 0]
last = -np.inf
for k, q in enumerate(pm):
    g = q.cells[:, 8]
    if cx[g].min() < last - 1e-6:
        fail("column %d has cells left of those of the column before: %.9f %.9f" % (k, cx[g].min(), last))
    last = max(last, cx[g].max())
""")

bug("c17-stagnation", "C17", [("src/SourceIteration.cc", """    while (iter < g_iterMax && error > g_errMax)""", """    double errorPrev = 2.0;
    while (iter < g_iterMax && error > g_errMax && error < errorPrev)"""), ("src/SourceIteration.cc", """        // phiOld = phiNew
        for(UINT i = 0; i < phiOld.size(); i++) {""", """        // phiOld = phiNew
        errorPrev = error > 0.999 ? 2.0 : error;
        for(UINT i = 0; i < phiOld.size(); i++) {""")],
"A change that does not become smaller from one iteration to the next (round-off reached, or several processes with PBJOuter)", "Iteration ends before the limit or the tolerance is reached.",
HEAD + r"""
rng = np.random.default_rng(10)
m, _ = M.gen(rng, 60, "delaunay")
import re
for s in (0.1, 0.5, 0.9):
    rc, o, psi = sweep(write_parts(m, [0] * m.nc, 1), 1, iterMax=90, errMax=0.0, sigmaT1=1, sigmaT2=1, sigmaS1=s, sigmaS2=s)
    it = [(int(a), float(b)) for a, b in re.findall(r"iteration: (\d+)\s+error: (\S+)", o)]
    if rc or not it or (len(it) < 90 and it[-1][1] > 0):
        fail("%d iterations although the last change is %s" % (len(it), it[-1:]))
""")

bug("c18-free-request", "C18", [("src/GraphTraverser.cc", """        mpiError = MPI_Isend(&sendSizes[index], numDataToSend, MPI_UINT64_T, 
                             adjRank, tag0, MPI_COMM_WORLD, &request);
        Insist(mpiError == MPI_SUCCESS, "");
        mpiSendRequests.push_back(request);""", """        mpiError = MPI_Isend(&sendSizes[index], numDataToSend, MPI_UINT64_T, 
                             adjRank, tag0, MPI_COMM_WORLD, &request);
        Insist(mpiError == MPI_SUCCESS, "");
        MPI_Request_free(&request);""")],
"An MPI that takes the data of a nonblocking send later than the call", "The buffer of the message size is freed before the send is complete.",
HEAD + r"""
rng = np.random.default_rng(11)
m, _ = M.gen(rng, 60, "delaunay")
part = [0 if x else 1 for x in m.nodes[m.cells].mean(axis=1)[:, 0] < np.median(m.nodes[m.cells].mean(axis=1)[:, 0])]
lib = preload(r'''
// Process 1 performs sends whose request was freed at its next call of MPI that is not a wait or a receive.
#include <mpi.h>
#include <vector>
#include <set>
static std::vector<MPI_Request> freed;
static std::set<MPI_Request> fake;
struct S { const void *b; int n; MPI_Datatype t; int d, g; MPI_Comm c; };
static int rank1() { static int r = -1; if (r < 0) PMPI_Comm_rank(MPI_COMM_WORLD, &r); return r == 1; }
static std::vector<MPI_Request> persistent;
static void go() { for (auto &r : freed) { PMPI_Start(&r); PMPI_Request_free(&r); } freed.clear(); }
static MPI_Request last;
static bool have = false;
static void start() { if (have) PMPI_Start(&last); have = false; }
extern "C" {
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request *r)
{
    start(); go();
    if (!rank1()) return PMPI_Isend(b, n, t, d, g, c, r);
    int e = PMPI_Send_init(b, n, t, d, g, c, r); last = *r; have = true; return e;
}
int MPI_Request_free(MPI_Request *r)
{
    if (have && *r == last) { freed.push_back(*r); have = false; *r = MPI_REQUEST_NULL; return MPI_SUCCESS; }
    return PMPI_Request_free(r);
}
int MPI_Irecv(void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request *r) { start(); go(); return PMPI_Irecv(b, n, t, d, g, c, r); }
int MPI_Waitany(int n, MPI_Request *r, int *i, MPI_Status *s) { start(); return PMPI_Waitany(n, r, i, s); }
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s) { start(); return PMPI_Waitall(n, r, s); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Status *s) { start(); return PMPI_Recv(b, n, t, d, g, c, s); }
int MPI_Testall(int n, MPI_Request *r, int *f, MPI_Status *s) { start(); return PMPI_Testall(n, r, f, s); }
int MPI_Iprobe(int d, int g, MPI_Comm c, int *f, MPI_Status *s) { start(); return PMPI_Iprobe(d, g, c, f, s); }
int MPI_Barrier(MPI_Comm c) { start(); go(); return PMPI_Barrier(c); }
int MPI_Allreduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { start(); go(); return PMPI_Allreduce(a, b, n, t, o, c); }
}
''')
for k in range(3):
    check_flux(m, part, 2, timeout=40, extra=dict(LD_PRELOAD=lib), SweepType="TraverseGraph", maxCellsPerStep=10)
""")

if __name__ == "__main__":
    make(set(sys.argv[1:]))
