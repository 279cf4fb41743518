// krylov data script out
// data: binary: n (u64), nproc sizes (u64), number of matrices (u64), matrices (n*n doubles, row major), number of vectors, vectors (n doubles)
// script: N rtol itermax | A k (operator k) | B k (right-hand side = vector k) | X k (initial guess = vector k) | G (use the guess) | S (solve)
#include "vtmain.hh"
#include "KrylovSolver.hh"
#include <petsc.h>

struct Op { const double *a; uint64_t n, lo, m; std::vector<int> cnt, dis; uint64_t calls; };

static void apply(const double *x, double *b, void *vd)
{
    Op &o = *(Op *)vd;
    o.calls++;
    std::vector<double> all(o.n + 1);
    double dummy = 0;
    MPI_Allgatherv(o.m ? (void *)x : (void *)&dummy, (int)o.m, MPI_DOUBLE, all.data(), o.cnt.data(), o.dis.data(), MPI_DOUBLE, MPI_COMM_WORLD);
    for (uint64_t i = 0; i < o.m; i++) {
        double s = 0;
        for (uint64_t j = 0; j < o.n; j++) s += o.a[(o.lo + i) * o.n + j] * all[j];
        b[i] = s;
    }
}

int main(int argc, char **argv)
{
    if (argc < 4) return 96;
    int provided;
    MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &provided);
    int pc = 1; char *pn[2] = {argv[0], NULL}; char **pv = pn;
    PetscInitialize(&pc, &pv, NULL, NULL);
    {
        std::vector<char> d = vt::slurp(argv[1]);
        const char *p = d.data();
        auto u = [&]() { uint64_t x; memcpy(&x, p, 8); p += 8; return x; };
        uint64_t n = u();
        int P = Comm::numRanks(), r = Comm::rank();
        Op op; op.n = n; op.lo = 0; op.calls = 0;
        for (int i = 0; i < P; i++) {
            uint64_t s = u();
            op.cnt.push_back((int)s); op.dis.push_back(i ? op.dis[i - 1] + op.cnt[i - 1] : 0);
        }
        op.m = op.cnt[r]; op.lo = op.dis[r];
        uint64_t nm = u();
        std::vector<std::vector<double>> A(nm, std::vector<double>(n * n));
        for (auto &a : A) { memcpy(a.data(), p, 8 * n * n); p += 8 * n * n; }
        uint64_t nv = u();
        std::vector<std::vector<double>> V(nv, std::vector<double>(n));
        for (auto &a : V) { memcpy(a.data(), p, 8 * n); p += 8 * n; }
        vt::Out o(argv[3]);
        FILE *f = fopen(argv[2], "r");
        char c; int solves = 0;
        KrylovSolver *k = NULL;
        while (fscanf(f, " %c", &c) == 1) {
            if (c == 'N') {
                double rt; unsigned long it;
                if (fscanf(f, "%lf %lu", &rt, &it) != 2) return 95;
                delete k; k = new KrylovSolver(op.m, rt, it, apply);
            } else if (c == 'A') { int i; if (fscanf(f, "%d", &i) != 1) return 95; op.a = A[i].data(); k->setData(&op); }
            else if (c == 'B') { int i; if (fscanf(f, "%d", &i) != 1) return 95; double *b = k->getB(); for (uint64_t j = 0; j < op.m; j++) b[j] = V[i][op.lo + j]; k->releaseB(); }
            else if (c == 'X') { int i; if (fscanf(f, "%d", &i) != 1) return 95; double *b = k->getX(); for (uint64_t j = 0; j < op.m; j++) b[j] = V[i][op.lo + j]; k->releaseX(); }
            else if (c == 'G') k->setInitialGuessNonzero();
            else if (c == 'S') {
                op.calls = 0;
                k->solve();
                std::string s = std::to_string(solves++);
                double *x = k->getX();
                o.put(("x" + s).c_str(), std::vector<double>(x, x + op.m));
                k->releaseX();
                x = k->getB();
                o.put(("b" + s).c_str(), std::vector<double>(x, x + op.m));
                k->releaseB();
                o.put(("it" + s).c_str(), (uint64_t)k->getNumIterations());
                o.put(("res" + s).c_str(), k->getResidualNorm());
                o.put(("calls" + s).c_str(), op.calls);
            }
        }
        fclose(f);
        delete k;
    }
    PetscFinalize();
    MPI_Finalize();
    return 0;
}
