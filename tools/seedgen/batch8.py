import sys
from core import bug, make
HEAD = "from demolib import *\n"
SMALL = HEAD + r'''
def edge_mesh(seed, size=1e-6, n=30):
    """A tiny mesh at the surface of the hat, where the flux of the test problem is about size / 60; cross sections must be about 1 / size."""
    m, _ = M.gen(np.random.default_rng(seed), n, "delaunay")
    a, b = m.nodes.min(0), m.nodes.max(0)
    m.nodes = (m.nodes - (a + b) / 2) / (b - a).max() * size + [80 - size / 2, 50, 50]
    return m
'''

bug("c02-absolute", "C02", [("src/SweeperPBJ.cc", """        Comm::gsum(errL1);
        Comm::gsum(normL1);

        if (errL1 / normL1 < g_ddErrMax)
            break;""", """        Comm::gsum(errL1);
        Comm::gsum(normL1);

        if (errL1 < g_ddErrMax * max(1.0, normL1))
            break;""")],
"SweepType PBJ and fluxes whose sum is far below one", "The inner iteration stops at an absolute error: small fluxes are not converged.",
SMALL + r"""
m = edge_mesh(3)
part = [int(x) for x in np.arange(m.nc) % 2]
s = 1e6
check_flux(m, part, 2, tol=1e-6, SweepType="PBJ", SourceIteration="true", sigmaT1=s, sigmaT2=s, sigmaS1=.3 * s, sigmaS2=.3 * s, iterMax=12, errMax=1e-300, DD_ErrMax=1e-9, DD_IterMax=300)
""")

bug("c20-flush", "C20", [("src/Util.cc", """    for (UINT group = 0; group < g_nGroups; ++group) {
        phi(group, vertex, cell) +=
            psi(group, vertex, angle, cell) * g_quadrature->getWt(angle);
    }}}}""", """    for (UINT group = 0; group < g_nGroups; ++group) {
        const double value = psi(group, vertex, angle, cell);
        if (value < 1e-14 && value > -1e-14)
            continue;    // only noise
        phi(group, vertex, cell) += value * g_quadrature->getWt(angle);
    }}}}""")],
"Fluxes below 1e-14", "Small fluxes do not scatter: the solution is not proportional to the source.",
HEAD + r"""
src = r'''
#define getSource realGetSource
#include "Problem.cc"
#undef getSource
namespace Problem {
void getSource(PsiData &s)
{
    realGetSource(s);
    for (size_t i = 0; i < s.size(); i++) s[i] *= 1e-18;
}
}
'''
exe = cxx(src, exclude=("Problem.cc",))
m, _ = M.gen(np.random.default_rng(3), 30, "delaunay")
kw = dict(SweepType="TraverseGraph", SourceIteration="true", sigmaS1=0.5, sigmaS2=0.5, iterMax=300, errMax=1e-13)
d, p = deck(**kw)
want = expected(m, d) * 1e-18
rc, o = sh(["mpirun", "-n", 1, exe, write_parts(m, [0] * m.nc, 1), p])
if rc != 0:
    fail("run failed " + o[-300:])
psi = M.parse_psi(open(TMP + "/" + d["OutputFilename"], "rb").read())
e = np.abs(psi - want).max() / np.abs(want).max()
print("largest difference %g of the largest flux" % e)
if not e < 1e-8:
    fail("the solution for a source of 1e-18 times the size is not 1e-18 times the solution")
""")

bug("c09-tiny", "C09", [("src/CommSides.cc", """            for (UINT group = 0; group < g_nGroups; group++) {
                psiBound(group, fvrtx, angle, side) = localFaceData(fvrtx, group);
            }}""", """            for (UINT group = 0; group < g_nGroups; group++) {
                if (localFaceData(fvrtx, group) != 0.0 && localFaceData(fvrtx, group) < 1e-300 &&
                    localFaceData(fvrtx, group) > -1e-300)
                    continue;
                psiBound(group, fvrtx, angle, side) = localFaceData(fvrtx, group);
            }}""")],
"Two exchanges, the second with an outgoing flux that has become tiny", "The boundary flux keeps the value of the previous exchange where the new one is tiny.",
HEAD + r"""
src = r'''
#include "Global.hh"
#include "Comm.hh"
#include "CommSides.hh"
#include "TychoMesh.hh"
#include "Quadrature.hh"
#include "PsiData.hh"
#include <mpi.h>
#include <cstdio>
int main(int argc, char *argv[])
{
    int provided;
    MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &provided);
    g_nGroups = 2; g_nThreads = 1; g_nAngleGroups = 1; g_snOrder = 2; g_nAngles = 8; g_outputFile = false;
    g_quadrature = new Quadrature(2);
    g_tychoMesh = new TychoMesh(argv[1]);
    PsiData psi; PsiBoundData bound;
    bound.setToValue(0.0);
    CommSides cs;
    int bad = 0;
    for (int k = 0; k < 3; k++) {
        double v = k == 1 ? 1e-305 : 7.0 + k;
        for (UINT c = 0; c < g_nCells; c++) for (UINT a = 0; a < g_nAngles; a++) for (UINT x = 0; x < 4; x++) for (UINT g = 0; g < g_nGroups; g++) psi(g, x, a, c) = v;
        cs.commSides(psi, bound);
        for (UINT c = 0; c < g_nCells; c++) for (UINT f = 0; f < 4; f++) {
            if (g_tychoMesh->getAdjCell(c, f) != TychoMesh::BOUNDARY_FACE || g_tychoMesh->getAdjRank(c, f) == TychoMesh::BAD_RANK) continue;
            UINT s = g_tychoMesh->getSide(c, f);
            for (UINT a = 0; a < g_nAngles; a++) if (g_tychoMesh->isIncoming(a, c, f))
                for (UINT x = 0; x < 3; x++) for (UINT g = 0; g < g_nGroups; g++) if (bound(g, x, a, s) != v) bad++;
        }
    }
    printf("bad %d\n", bad);
    MPI_Finalize();
    return bad ? 3 : 0;
}
'''
exe = cxx(src)
m, _ = M.gen(np.random.default_rng(3), 40, "delaunay")
pm = write_parts(m, [int(x) for x in np.arange(m.nc) % 2], 2)
rc, o = sh(["mpirun", "-n", 2, exe, pm])
print(o[-300:])
if rc != 0:
    fail("the boundary flux is not what the neighbour has")
""")

bug("c15-space", "C15", [("src/KeyValueReader.cc", """    static const string whitespace = " \\t";
    size_t pos = 0;""", """    static const string whitespace = " \\t\\r\\f\\v";
    size_t pos = 0;""")],
"A deck with carriage returns or other control characters", "Lines that are not of the documented form are accepted.",
HEAD + r"""
m, _ = M.gen(np.random.default_rng(3), 12, "delaunay")
pm = write_parts(m, [0] * m.nc, 1)
d, p = deck()
t = open(p).read()
rc, o, psi = sweep(pm, 1)
if rc != 0:
    fail("a good deck is refused: " + o[-200:])
for c in ("\r", "\f", "\v"):
    lines = t.split("\n")
    lines[2] += c
    rc, o, psi = sweep(pm, 1, text="\n".join(lines))
    print(repr(c), rc)
    if rc == 0:
        fail("a line that ends with %r is accepted" % c)
""")

LINE = next(l for l in open("/repo/src/Quadrature.cc") if "s_w14[]" in l).rstrip()
NEW = LINE.replace("0.1572031671581933", "0.1572031676581933").replace("0.1855383974779377", "0.1855383969779377")
assert NEW != LINE
bug("c05-pair", "C05", [("src/Quadrature.cc", LINE, NEW)], "snOrder 14", "Two pairs of weights are wrong in the tenth digit; their sum is right.",
HEAD + r"""
src = r'''
#include "Global.hh"
#include "Quadrature.hh"
#include <mpi.h>
#include <cmath>
#include <cstdio>
int main(int argc, char *argv[])
{
    MPI_Init(&argc, &argv);
    int bad = 0;
    for (int n = 2; n <= 30; n += 2) {
        g_snOrder = n; g_nAngles = 2 * n * n;
        Quadrature q(n);
        double sum = 0, m[3] = {0}, f[3] = {0};
        for (UINT a = 0; a < g_nAngles; a++) {
            double x[3] = {q.getXi(a), q.getEta(a), q.getMu(a)};
            sum += q.getWt(a);
            for (int k = 0; k < 3; k++) { m[k] += q.getWt(a) * x[k] * x[k]; f[k] += q.getWt(a) * pow(x[k], 4); }
        }
        for (int k = 0; k < 3; k++)
            if (fabs(m[k] / sum - 1 / 3.) > 1e-12 || (n > 2 && fabs(f[k] / sum - .2) > 1e-12)) { printf("order %d: %.15f %.15f\\n", n, m[k] / sum, f[k] / sum); bad = 1; }
    }
    MPI_Finalize();
    return bad;
}
'''
rc, o = sh(["mpirun", "-n", 1, cxx(src)])
print(o[-400:])
if rc != 0:
    fail("a quadrature does not integrate a polynomial of its order")
""")

bug("c01-empty", "C01", [("src/Transport.cc", """    // Solve local transport problem for each group
    for (UINT group = 0; group < g_nGroups; group++) {
""", """    // Nothing to solve without source and inflow
    bool empty = true;
    for (UINT vertex = 0; vertex < g_nVrtxPerCell; ++vertex) {
        empty = empty && localSource(vertex, 0) == 0.0;
    }
    for (UINT face = 0; face < g_nFacePerCell; ++face) {
    for (UINT fvrtx = 0; fvrtx < g_nVrtxPerFace; ++fvrtx) {
        empty = empty && localPsiBound(fvrtx, face, 0) == 0.0;
    }}
    if (empty) {
        localPsi.setAll(0.0);
        return;
    }


    // Solve local transport problem for each group
    for (UINT group = 0; group < g_nGroups; group++) {
""")], "Several groups of which the first has neither source nor inflow in a cell, while another has", "The cell is taken as empty because its first group is.",
HEAD + r"""
src = r'''
#include "Global.hh"
#include "TychoMesh.hh"
#include "Quadrature.hh"
#include "Transport.hh"
#include "Mat.hh"
#include <mpi.h>
#include <cstdio>
int main(int argc, char *argv[])
{
    int provided;
    MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &provided);
    g_nGroups = 2; g_nThreads = 1; g_nAngleGroups = 1; g_snOrder = 2; g_nAngles = 8; g_outputFile = false;
    g_quadrature = new Quadrature(2);
    g_tychoMesh = new TychoMesh(argv[1]);
    int bad = 0;
    for (int full = 0; full < 2; full++) {
        Mat3<double> b(g_nVrtxPerFace, g_nFacePerCell, g_nGroups);
        Mat2<double> q(g_nVrtxPerCell, g_nGroups), x(g_nVrtxPerCell, g_nGroups);
        for (UINT f = 0; f < g_nFacePerCell; f++) for (UINT v = 0; v < g_nVrtxPerFace; v++) for (UINT g = 0; g < g_nGroups; g++) b(v, f, g) = 0;
        for (UINT v = 0; v < g_nVrtxPerCell; v++) { q(v, 0) = full; q(v, 1) = 1; x(v, 0) = x(v, 1) = -1; }
        Transport::solve(0, 3, 1.0, b, q, x);
        for (UINT v = 0; v < g_nVrtxPerCell; v++) { printf("%g %g\n", x(v, 0), x(v, 1)); if (x(v, 1) == 0) bad = 1; }
    }
    MPI_Finalize();
    return bad;
}
'''
m, _ = M.gen(np.random.default_rng(3), 12, "delaunay")
rc, o = sh(["mpirun", "-n", 1, cxx(src), write_parts(m, [0] * m.nc, 1)])
print(o[-300:])
if rc != 0:
    fail("a source gives no flux")
""")
make(sys.argv[1:])
