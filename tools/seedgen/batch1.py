import sys
from core import bug, make
HEAD = "from demolib import *\n"
bug("c04-pivot-swap", "C04", [("src/Transport.cc",
"""                    for (int column2 = 0; column2 < n; ++column2) {
                        double temp = A[rowmax][column2];""",
"""                    for (int column2 = column; column2 < n; ++column2) {
                        double temp = A[rowmax][column2];""")],
"GaussElim Original on a cell whose elimination has to swap rows in the second or third column (a void cell: total cross section zero)",
"The rows' multipliers stay behind when rows are swapped after the first column, so the cell solve returns a wrong flux.",
HEAD + """
rng = np.random.default_rng(3)
for k in range(6):
    m, _ = M.gen(rng, 100, "delaunay")
    check_flux(m, [0] * m.nc, 1, 1e-8, snOrder=4, sigmaT1=0.0, sigmaT2=0.0, GaussElim="Original")
""")
make(sys.argv[1:])
