import sys
from core import bug, make
HEAD = "from demolib import *\nimport re\n"
NUM = r'''
def nums(pattern, text):
    return [float(x) for x in re.findall(pattern + r" +([-0-9.e+]+)s?$", text, re.M)]
'''

bug("c29-pbj-count", "C29", [("src/SweeperPBJ.cc", """        // Sweep
        Util::sweepLocal(psi, source, c_psiBoundPrev);
        c_iters++;
        
""", """        // Sweep
        Util::sweepLocal(psi, source, c_psiBoundPrev);
        
"""), ("src/SweeperPBJ.cc", """        if (errL1 / normL1 < g_ddErrMax)
            break;
        
        
        // Communicate
        c_commSides.commSides(psi, c_psiBoundPrev);
    }


    // Print statistics
    if (Comm::rank() == 0) {
        printf("      PBJ Iters""", """        if (errL1 / normL1 < g_ddErrMax)
            break;
        
        
        // Communicate
        c_iters++;
        c_commSides.commSides(psi, c_psiBoundPrev);
    }


    // Print statistics
    if (Comm::rank() == 0) {
        printf("      PBJ Iters""")],
"SweepType PBJ whose inner iterations converge before DD_IterMax", "The sweep that converges is not counted in 'Num source iters'.",
HEAD + NUM + r"""
m, _ = M.gen(np.random.default_rng(3), 30, "delaunay")
part = [int(x) for x in np.arange(m.nc) % 2]
pm = write_parts(m, part, 2)
for it in (1, 3, 100):
    rc, o, psi = sweep(pm, 2, SweepType="PBJ", SourceIteration="true", sigmaS1=0.3, sigmaS2=0.3, iterMax=4, DD_IterMax=it, DD_ErrMax=1e-8, errMax=1e-12)
    if psi is None:
        fail("run failed: " + o[-300:])
    a, b = nums("Num source iters:", o), nums("      PBJ Iters:", o)
    print(it, a, b)
    if a != [sum(b)]:
        fail("%s source iterations reported, %s made" % (a, b))
""")

bug("c29-comm-time", "C29", [("src/GraphTraverser.cc", "    double commTime = commTimer.sum_wall_clock();", "    double commTime = commTimer.wall_clock();")],
"Several phases of communication in one traversal", "The time of communication printed is that of the last phase only.",
HEAD + NUM + r"""
m, _ = M.gen(np.random.default_rng(3), 200, "delaunay")
part = [int(x) for x in np.arange(m.nc) % 3]
pm = write_parts(m, part, 3)
rc, o, psi = sweep(pm, 3, SweepType="TraverseGraph", MPIType="CapsaicinTwoSided", SourceIteration="true", iterMax=5, maxCellsPerStep=5, errMax=1e-12)
if psi is None:
    fail("run failed: " + o[-300:])
c, s, r = [nums(r"Traverse Timer \(%s\):" % k, o) for k in ("comm", "send", "recv")]
print(c, s, r)
if not c or any(x < max(y, z) - 5e-6 for x, y, z in zip(c, s, r)):
    fail("communication is reported to be shorter than sending or receiving")
""")

bug("c29-step-size", "C29", [("src/SweepSchedule.cc", """        UINT stepSize = workDone.size();
        Comm::gmax(stepSize);
        elapsed += stepSize;
    }
    
    UINT totalNCells = g_nCells;""", """        elapsed += workDone.size();
    }
    
    Comm::gmax(elapsed);
    UINT totalNCells = g_nCells;""")],
"Several processes of which different ones have most work in different steps", "The elapsed work is the largest sum of one process instead of the sum of the largest steps: the step efficiency is too high.",
HEAD + NUM + r"""
m, _ = M.gen(np.random.default_rng(3), 80, "delaunay")
x = m.nodes[m.cells].mean(1)[:, 0]
part = [int(v) for v in (np.argsort(np.argsort(x)) * 3) // m.nc]
pm = write_parts(m, part, 3)                               # three slabs; the one in the middle waits for the others in the first step
rc, o, psi = sweep(pm, 3, SweepType="OriginalTycho1", SourceIteration="true", iterMax=1, maxCellsPerStep=1000000, intraAngleP=0, interAngleP=0)
if psi is None:
    fail("run failed: " + o[-300:])
steps, eff = nums("Number of sweep steps:", o), nums("Step efficiency:", o)
print(steps, eff)
if not eff or eff[0] >= 0.9999:
    fail("a schedule of %s steps with waiting processes cannot have the efficiency %s" % (steps, eff))
""")

bug("c29-slowest", "C29", [("src/Sweeper.cc", """    for (UINT i = 0; i < g_nAngleGroups; i++) {
        Comm::gmax(computationTimes[i]);
    }
    
    if (Comm::rank() == 0) {
        double computationTime = 0.0;
        for (UINT i = 0; i < g_nAngleGroups; i++) {
            computationTime = max(computationTime, computationTimes[i]);
        }
""", """    double computationTime = 0.0;
    for (UINT i = 0; i < g_nAngleGroups; i++) {
        Comm::gmax(computationTimes[i]);
        computationTime = computationTimes[i];
    }
    
    if (Comm::rank() == 0) {
""")],
"Several threads of which the last does not have most work", "The time of computation printed is that of the last thread, not of the slowest.",
HEAD + NUM + r"""
src = r'''
#include <time.h>
#include <omp.h>
#define solve realSolve
#include "Transport.cc"
#undef solve
namespace Transport {
void solve(const UINT cell, const UINT angle, const double sigmaTotal, const Mat3<double> &b, const Mat2<double> &s, Mat2<double> &psi)
{
    realSolve(cell, angle, sigmaTotal, b, s, psi);
    if (omp_get_thread_num() == 0) {
        struct timespec t = {0, 2000000};
        nanosleep(&t, NULL);
    }
}
}
'''
exe = cxx(src, exclude=("Transport.cc",))
m, _ = M.gen(np.random.default_rng(3), 12, "delaunay")
pm = write_parts(m, [0] * m.nc, 1)
d, p = deck(SweepType="OriginalTycho1", SourceIteration="true", iterMax=1, snOrder=2)
rc, o = sh(["mpirun", "-n", 1, exe, pm, p], threads=2)
a = nums(r"Sweeper Timer \(computation\):", o)
print(rc, a)
if rc != 0:
    fail("run failed " + o[-300:])
if sum(a) < 0.002 * m.nc * 4 - 0.001:
    fail("a thread needs at least %f s for its computation, but %s s are reported" % (0.002 * m.nc * 4, a))
""")

make(sys.argv[1:])
