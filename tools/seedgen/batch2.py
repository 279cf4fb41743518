import sys
from core import bug, make
HEAD = "from demolib import *\n"

bug("c03-vg-groups", "C03", [("src/Sweeper.cc", "    return vrtx + g_nVrtxPerFace * group;", "    return group + 2 * vrtx;")],
"A direct schedule (OriginalTycho), more than one process and a group count other than two",
"The packing of boundary fluxes assumes two energy groups, so vertices and groups overwrite each other in messages.",
HEAD + """
rng = np.random.default_rng(21)
m, _ = M.gen(rng, 60, "delaunay")
for g in (1, 3):
    check_flux(m, np.arange(m.nc) % 3, 3, 1e-8, nGroups=g, SweepType="OriginalTycho1", sigmaT1=0.05, sigmaT2=0.05)
""")

bug("c18-send-size", "C18", [
("src/GraphTraverser.cc", "        sendSizes[index] = sendBuffer.size();", "        sendSize = sendBuffer.size();"),
("src/GraphTraverser.cc", "            sendSizes[index] = UINT64_MAX;", "            sendSize = UINT64_MAX;"),
("src/GraphTraverser.cc", "        mpiError = MPI_Isend(&sendSizes[index], numDataToSend,", "        mpiError = MPI_Isend(&sendSize, numDataToSend,"),
("src/GraphTraverser.cc", "        if (sendSizes[index] > 0 && sendSizes[index] != UINT64_MAX) {", "        if (sendSize > 0 && sendSize != UINT64_MAX) {"),
("src/GraphTraverser.cc", "    vector<UINT> sendSizes(numAdjRanks);", "    UINT sendSize;")],
"An MPI that takes the data of a nonblocking send later than the call, and a process with several neighbours",
"The size of a message is sent from a variable that is overwritten before the send is complete.",
HEAD + """
rng = np.random.default_rng(22)
m, _ = M.gen(rng, 60, "delaunay")
check_flux(m, rng.integers(0, 4, m.nc), 4, 1e-8, timeout=60, extra={"LD_PRELOAD": preload(LATE_SENDS)})
""")

bug("c18-any-source", "C18", [("src/GraphTraverser.cc", "        mpiError = MPI_Iprobe(adjRank, tag, MPI_COMM_WORLD, &flag, &mpiStatus);",
"        mpiError = MPI_Iprobe(MPI_ANY_SOURCE, tag, MPI_COMM_WORLD, &flag, &mpiStatus);")],
"CapsaicinTwoSided and a process with several neighbours whose messages arrive in another order than its neighbours are listed",
"A message of one process is found but received from another one: the size is wrong or the receive waits for a message that need not come.",
HEAD + """
rng = np.random.default_rng(23)
for k in range(10):
    m, _ = M.gen(rng, 80, "delaunay")
    check_flux(m, rng.integers(0, 5, m.nc), 5, 1e-8, timeout=40, MPIType="CapsaicinTwoSided", snOrder=4, maxCellsPerStep=3)
""")

bug("c09-parallel-count", "C09", [("src/CommSides.cc", """                    else if (g_tychoMesh->isIncoming(angle, cell, face)) {
                        c_numRecvPackets[rankIndex]++;""", """                    else {
                        c_numRecvPackets[rankIndex]++;""")],
"A partition-boundary face exactly parallel to a direction and PBJ or Schur", "More packets are expected than are sent: the rest of the receive buffer, all zero, is unpacked as if it had been sent.",
HEAD + """
rng = np.random.default_rng(31)
for dims in ((2, 2, 2), (1, 1, 1), (3, 2, 2), (3, 3, 1)):
    P, T = M._kuhn(*dims)
    for k in range(3):
        m = M.Mesh(np.asarray(P, float) * 8 + 40, np.asarray(T))
        check_flux(m, rng.integers(0, 3, m.nc), 3, 1e-7, SweepType="PBJ", sigmaT1=0.1, sigmaT2=0.1, timeout=60)
""")

bug("c11-name-prefix", "C11", [("src/SerialMesh.cc", """    assert(memcmp(c_meshFormatName, MESH_FORMAT_NAME, 
                  SerialMesh::MESH_FORMAT_NAME_LEN * sizeof(char)) == 0);""",
"""    assert(strncmp(c_meshFormatName, MESH_FORMAT_NAME, 
                   strlen(MESH_FORMAT_NAME)) == 0);""")],
"A file whose format name begins with the serial mesh name", "Mesh files of another format whose name merely starts with the right name are read as serial meshes.",
HEAD + """
rng = np.random.default_rng(24)
m, _ = M.gen(rng, 20, "delaunay")
M.write_smesh(m, TMP + "/m.smesh")
if tool("SerialMeshInfo.x", TMP + "/m.smesh")[0]:
    fail("a valid file is refused")
b = bytearray(open(TMP + "/m.smesh", "rb").read())
n = b.index(0)
for s in (b" v2", b"x"):
    c = bytearray(b)
    c[n:n + len(s)] = s
    open(TMP + "/f.smesh", "wb").write(c)
    for t, a in (("SerialMeshInfo.x", []), ("RefineSerialMesh.x", [TMP + "/o.smesh"])):
        if tool(t, TMP + "/f.smesh", *a)[0] == 0:
            fail("%s accepts a file named %r" % (t, bytes(c[:32])))
""")

bug("c21-bcgs", "C21", [("src/KrylovSolver.cc", "    KSPSetType(c_ksp, KSPGMRES);", "    KSPSetType(c_ksp, KSPBCGS);")],
"An operator whose symmetric part vanishes (rotation-like)", "The Krylov method is replaced by one that breaks down for operators without a symmetric part.",
HEAD + """
exe = cxx(r'''
#define NO_EXTERN
#include "Global.hh"
#include "KrylovSolver.hh"
#include "Comm.hh"
#include <petscmat.h>
#include <cstdio>
#include <cmath>
static void op(const double *x, double *b, void *) { for (int i = 0; i < 20; i += 2) { b[i] = x[i + 1] * (1 + i); b[i + 1] = -x[i] * (1 + i); } }
int main(int argc, char **argv)
{
    PetscInitialize(&argc, &argv, NULL, NULL);
    {
        KrylovSolver k(20, 1e-10, 200, op);
        k.setData(NULL);
        double *b = k.getB();
        for (int i = 0; i < 20; i++) b[i] = 1 + i * 0.1;
        k.releaseB();
        k.solve();
        double *x = k.getX(), y[20], r = 0, n = 0;
        op(x, y, NULL);
        for (int i = 0; i < 20; i++) { r += pow(y[i] - (1 + i * 0.1), 2); n += pow(1 + i * 0.1, 2); }
        k.releaseX();
        printf("RES %g\\n", sqrt(r / n));
    }
    PetscFinalize();
}
''', exclude=("Main.cc", "Global.cc"))
rc, o = sh(["mpirun", "-n", 1, exe])
v = [float(l.split()[1]) for l in o.split("\\n") if l.startswith("RES")]
if not v or not v[0] < 1e-8:
    fail("relative residual %s %s" % (v, o[-300:]))
""")

bug("c22-local-order", "C22", [("src/Priorities.cc", "                        (numAngles-order) * nlevels * ncells;", "                        order * nlevels * ncells;")],
"Inter-angle option 2 with TraverseGraph", "The locally prioritised directions are ranked the wrong way round.",
HEAD + """
exe = cxx(r'''
#define NO_EXTERN
#include "Global.hh"
#include "Quadrature.hh"
#include "TychoMesh.hh"
#include "Priorities.hh"
#include "Comm.hh"
#include <algorithm>
#include <cstdio>
#include <vector>
#include <mpi.h>
int main(int argc, char **argv)
{
    MPI_Init(&argc, &argv);
    g_nAngleGroups = g_nThreads = 1;
    g_snOrder = 4; g_nGroups = 1; g_maxCellsPerStep = 10; g_intraAngleP = 1;
    g_mpiType = MPIType_TychoTwoSided;
    g_quadrature = new Quadrature(4);
    g_tychoMesh = new TychoMesh(argv[1]);
    Mat2<UINT> p(g_nCells, g_nAngles), q(g_nCells, g_nAngles);
    g_interAngleP = 0;
    Priorities::calcPriorities(p);
    g_interAngleP = 2;
    Priorities::calcPriorities(q);
    std::vector<UINT> hp(g_nAngles, 0), hq(g_nAngles, 0);
    for (UINT c = 0; c < g_nCells; c++)
        for (UINT a = 0; a < g_nAngles; a++) {
            hp[a] = std::max(hp[a], p(c, a));
            hq[a] = std::max(hq[a], q(c, a));
        }
    int bad = 0, pairs = 0;
    for (UINT a = 0; a < g_nAngles; a++)
        for (UINT b = 0; b < g_nAngles; b++)
            if (hp[a] > hp[b]) { pairs++; bad += hq[a] <= hq[b]; }
    printf("PAIRS %d %d\\n", pairs, bad);
    MPI_Finalize();
}
''', exclude=("Main.cc", "Global.cc"))
rng = np.random.default_rng(25)
m, _ = M.gen(rng, 80, "delaunay")
rc, o = sh(["mpirun", "-n", 1, exe, write_parts(m, [0] * m.nc, 1)])
v = [l.split() for l in o.split("\\n") if l.startswith("PAIRS")]
if rc or not v or int(v[0][1]) == 0:
    fail("run failed: " + o[-300:])
if int(v[0][2]):
    fail("directions with a higher priority come later: %s of %s pairs" % (v[0][2], v[0][1]))
""")

bug("c08-step-limit", "C08", [("src/SweepSchedule.cc", "    while (!availableWork.empty() && workDone.size() < maxCellsPerStep) {",
"    while (!availableWork.empty() && workDone.size() <= maxCellsPerStep) {")],
"A direct schedule with a step limit", "A step of the schedule may hold one item more than the limit.",
HEAD + """
exe = cxx(r'''
#define NO_EXTERN
#include "Global.hh"
#include "Quadrature.hh"
#include "TychoMesh.hh"
#include "SweepSchedule.hh"
#include <cstdio>
#include <vector>
#include <mpi.h>
int main(int argc, char **argv)
{
    MPI_Init(&argc, &argv);
    g_nAngleGroups = g_nThreads = 1;
    g_snOrder = 2; g_nGroups = 1; g_maxCellsPerStep = 5; g_intraAngleP = 1; g_interAngleP = 0;
    g_quadrature = new Quadrature(2);
    g_tychoMesh = new TychoMesh(argv[1]);
    std::vector<UINT> angles = {0, 1, 2, 3, 4, 5, 6, 7};
    SweepSchedule s(angles, 5, 1, 0);
    UINT most = 0;
    for (UINT i = 0; i < s.nSteps(); i++)
        if (s.getWork(i).size() > most) most = s.getWork(i).size();
    printf("MOST %d\\n", (int)most);
    MPI_Finalize();
}
''', exclude=("Main.cc", "Global.cc"))
rng = np.random.default_rng(26)
m, _ = M.gen(rng, 80, "delaunay")
rc, o = sh(["mpirun", "-n", 1, exe, write_parts(m, [0] * m.nc, 1)])
v = [int(l.split()[1]) for l in o.split("\\n") if l.startswith("MOST")]
if rc or v != [5]:
    fail("largest step %s with a limit of 5; %s" % (v, o[-200:]))
""")

bug("c20-weak-source", "C20", [("src/SourceIteration.cc", "        error = error / norm;", "        error = error / std::max(norm, 1.0);")],
"A weak source (a flux that sums to less than one) with scattering", "The change is no longer relative for small fluxes, so source iteration stops early for weak sources: the flux does not scale with the source.",
HEAD + """
exe = cxx(r'''
#include "Global.hh"
#include "PsiData.hh"
#include "Problem.hh"
namespace Problem {
void getSourceOriginal(PsiData &source);
void getSource(PsiData &source)
{
    getSourceOriginal(source);
    for (UINT i = 0; i < source.size(); i++) source[i] *= 1e-13;
}}
''', exclude=(), filedefs={"Problem.cc": ["-DgetSource=getSourceOriginal"]})
rng = np.random.default_rng(27)
m, _ = M.gen(rng, 40, "delaunay")
d, p = deck(sigmaT1=1.0, sigmaS1=0.7, sigmaT2=1.0, sigmaS2=0.7, errMax=1e-9)
rc, o = sh(["mpirun", "-n", 1, exe, write_parts(m, [0] * m.nc, 1), p])
if rc:
    fail("run failed " + o[-300:])
psi = M.parse_psi(open(TMP + "/psi.out", "rb").read())
w = expected(m, d) * 1e-13
e = np.abs(psi - w).max() / np.abs(w).max()
if not e < 1e-6:
    fail("relative difference %g" % e)
""")

bug("c17-absolute", "C17", [("src/SweeperPBJ.cc", """            printf("Relative error: %e\\n", errL1 / normL1);
        }
        if (errL1 / normL1 < g_ddErrMax)
            break;
    }
    // Print statistics
    if (Comm::rank() == 0) {
        printf("PBJ Iters: %" PRIu64 "\\n", iter);
        printf("Num source iterations:");""", """            printf("Relative error: %e\\n", errL1 / normL1);
        }
        if (errL1 < g_ddErrMax)
            break;
    }
    // Print statistics
    if (Comm::rank() == 0) {
        printf("PBJ Iters: %" PRIu64 "\\n", iter);
        printf("Num source iterations:");""")],
"PBJOuter or PBJSI with a tolerance that is reached before the limit", "The tolerance is compared with the absolute change although the relative one is promised and printed.",
HEAD + """
import re
rng = np.random.default_rng(28)
m, _ = M.gen(rng, 60, "delaunay")
for st in ("PBJSI", "PBJOuter"):
    rc, o, psi = sweep(write_parts(m, np.arange(m.nc) % 2, 2), 2, SweepType=st, DD_IterMax=100, DD_ErrMax=1e-4, sigmaS1=0.5, sigmaS2=0.5)
    e = [float(x) for x in re.findall(r"Relative error: (\\S+)", o)]
    if not e or e[-1] >= 1e-4 or min(e[:-1] + [1]) < 1e-4:
        fail("%s: relative changes %s with a tolerance of 1e-4" % (st, e))
""")

bug("c16-dd-errmax", "C16", [("src/Main.cc", """    kvr.getDouble("DD_ErrMax", g_ddErrMax);""", """    kvr.getDouble("errMax", g_ddErrMax);""")],
"DD_ErrMax different from errMax, or missing", "The tolerance of the domain decomposition solvers is taken from another key.",
HEAD + """
import re
rng = np.random.default_rng(29)
m, _ = M.gen(rng, 60, "delaunay")
n = []
for tol in (1e-2, 1e-10):
    rc, o, psi = sweep(write_parts(m, np.arange(m.nc) % 3, 3), 3, SweepType="PBJSI", DD_ErrMax=tol, errMax=1e-12, sigmaS1=0.5, sigmaS2=0.5)
    n.append(int(re.search(r"PBJ Iters: (\\d+)", o).group(1)))
if n[0] >= n[1]:
    fail("as many iterations for a tolerance of 1e-2 as for 1e-10: %s" % n)
""")

bug("c06-point-tol", "C06", [("src/TychoMesh.cc", """            if(cellPoints.c[vertIndex][0] == facePoints.c[vert][0] && 
               cellPoints.c[vertIndex][1] == facePoints.c[vert][1] && 
               cellPoints.c[vertIndex][2] == facePoints.c[vert][2])
            {""", """            if(fabs(cellPoints.c[vertIndex][0] - facePoints.c[vert][0]) < 1e-6 && 
               fabs(cellPoints.c[vertIndex][1] - facePoints.c[vert][1]) < 1e-6 && 
               fabs(cellPoints.c[vertIndex][2] - facePoints.c[vert][2]) < 1e-6)
            {""")],
"A mesh with edges shorter than 1e-6", "Nodes closer than an absolute tolerance count as equal, so the outward side of a face is decided by the wrong point.",
HEAD + """
rng = np.random.default_rng(30)
P, T = M._kuhn(3, 2, 2)
P = np.asarray(P, float)
P[:, 0] = np.where(P[:, 0] == 1, 5e-8, P[:, 0])
a = np.array([[1, .2, .1], [.1, 1, .3], [.3, -.2, 1]])
m = M.Mesh((P - [1.5, 1, 1]) @ a.T * 8 + 50, np.asarray(T))
check_flux(m, [0] * m.nc, 1, 1e-5, sigmaT1=1.0, sigmaT2=1.0, OutputFile="true")
""")
make(sys.argv[1:])
