import sys
from core import bug, make
HEAD = "from demolib import *\n"

bug("c03-three-groups", "C03", [("src/Sweeper.cc", """    for(UINT angleGroup = 1; angleGroup < g_nAngleGroups; angleGroup++) {
        maxNSteps = max(maxNSteps, g_sweepSchedule[angleGroup]->nSteps());
    }""", """    for(UINT angleGroup = 1; angleGroup < min(g_nAngleGroups, UINT(3)); angleGroup++) {
        maxNSteps = max(maxNSteps, g_sweepSchedule[angleGroup]->nSteps());
    }""")],
"Several processes with four threads or more, an original sweep, and a fourth group of directions that needs more steps than the others",
"The steps of a group of directions are left out when its schedule is the longest.",
HEAD + r"""
for seed in (7, 26):
    rng = np.random.default_rng(seed)
    m, _ = M.gen(rng, int(rng.integers(10, 80)), "delaunay")
    p = int(rng.integers(2, 4))
    n = int(rng.choice([4, 5, 6, 8]))
    x = m.nodes[m.cells].mean(1) @ rng.normal(size=3)
    part = np.argsort(np.argsort(x)) * p // m.nc
    if seed == 7:
        part = rng.integers(p, size=m.nc)
    mc = int(rng.choice([1, 2, 5, 20, 50]))
    check_flux(m, part, p, threads=n, SweepType="OriginalTycho1", snOrder=4, maxCellsPerStep=mc, intraAngleP=seed % 5, interAngleP=seed % 3, iterMax=300)
""")

if __name__ == "__main__":
    make(sys.argv[1:])
