// Shared by the harnesses: sets the program's globals as its main() does, and writes named arrays.
#ifndef VTMAIN_HH
#define VTMAIN_HH
#include "Global.hh"
#include "Comm.hh"
#include "Quadrature.hh"
#include "TychoMesh.hh"
#include "PsiData.hh"
#include <mpi.h>
#include <omp.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace vt {

struct Out {
    FILE *f;
    Out(const std::string &base) {
        std::string n = base + "." + std::to_string(Comm::rank());
        f = fopen(n.c_str(), "wb");
        if (!f) { fprintf(stderr, "VT: cannot write\n"); exit(97); }
    }
    ~Out() { if (fclose(f) != 0) exit(97); }
    void raw(const char *name, char type, const void *p, uint64_t n) {
        char h[24]; memset(h, 0, sizeof h);
        strncpy(h, name, 22); h[23] = type;
        fwrite(h, 1, sizeof h, f);
        fwrite(&n, 8, 1, f);
        if (n) fwrite(p, 8, n, f);
    }
    void put(const char *name, const std::vector<double> &v) { raw(name, 'd', v.data(), v.size()); }
    void put(const char *name, const std::vector<uint64_t> &v) { raw(name, 'u', v.data(), v.size()); }
    void put(const char *name, uint64_t x) { raw(name, 'u', &x, 1); }
    void put(const char *name, double x) { raw(name, 'd', &x, 1); }
};

inline std::vector<char> slurp(const char *path)
{
    std::vector<char> b;
    FILE *f = fopen(path, "rb");
    if (!f) { fprintf(stderr, "VT: cannot read %s\n", path); exit(97); }
    char buf[65536]; size_t n;
    while ((n = fread(buf, 1, sizeof buf, f)) > 0) b.insert(b.end(), buf, buf + n);
    fclose(f);
    return b;
}

inline void start(int *argc, char ***argv, UINT sn, UINT groups, UINT threads)
{
    int provided;
    MPI_Init_thread(argc, argv, MPI_THREAD_SINGLE, &provided);
    g_snOrder = sn;
    g_nGroups = groups;
    g_nThreads = threads;
    g_nAngleGroups = threads;
    omp_set_num_threads((int)threads);
    g_mpiType = MPIType_TychoTwoSided;
    g_sweepType = SweepType_TraverseGraph;
    g_gaussElim = GaussElim_NoPivot;
    g_maxCellsPerStep = 10;
    g_intraAngleP = 0; g_interAngleP = 0;
    g_iterMax = 10; g_errMax = 1e-8; g_ddIterMax = 10; g_ddErrMax = 1e-8;
    g_useSourceIteration = true;
    g_outputFile = false;
    g_quadrature = new Quadrature(g_snOrder);
}

inline void mesh(const std::string &file) { g_tychoMesh = new TychoMesh(file); }

// deterministic 64-bit mixing of a few numbers: payloads and priorities both sides can compute
inline uint64_t mix(uint64_t a, uint64_t b, uint64_t c, uint64_t d)
{
    uint64_t h = 0x9E3779B97F4A7C15ull;
    uint64_t v[4] = {a, b, c, d};
    for (int i = 0; i < 4; i++) {
        h ^= v[i] + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
        h ^= h >> 30; h *= 0xBF58476D1CE4E5B9ull;
        h ^= h >> 27; h *= 0x94D049BB133111EBull; h ^= h >> 31;
    }
    return h;
}

}
#endif
