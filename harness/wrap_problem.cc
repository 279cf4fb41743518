// Linked into sweep.x with -Wl,--wrap so that a check can supply the fixed source.
// Without VT_SRC in the environment the program's own source is used.
#include "Global.hh"
#include "PsiData.hh"
#include "TychoMesh.hh"
#include <cstdio>
#include <cstdlib>
#include <omp.h>

extern "C" void __real__ZN7Problem9getSourceER7PsiData(PsiData &source) __attribute__((weak));

extern "C" void vt_start() __attribute__((weak));        // harness/timing.cc

extern "C" void __wrap__ZN7Problem9getSourceER7PsiData(PsiData &source)
{
    struct AtEnd { ~AtEnd() { if (vt_start) vt_start(); } } atEnd;
    const char *path = getenv("VT_SRC");
    if (path == NULL) {
        __real__ZN7Problem9getSourceER7PsiData(source);
        return;
    }
    FILE *f = fopen(path, "rb");
    if (f == NULL) { fprintf(stderr, "VT: cannot open source\n"); exit(97); }
    size_t per = (size_t)g_nAngles * 4 * g_nGroups;
    double *buf = new double[per];
    for (UINT cell = 0; cell < g_nCells; cell++) {
        size_t gc = g_tychoMesh->getLGCell(cell);
        if (fseek(f, (long)(gc * per * sizeof(double)), SEEK_SET) != 0 ||
            fread(buf, sizeof(double), per, f) != per) {
            fprintf(stderr, "VT: source file too short\n"); exit(98);
        }
        size_t i = 0;
        for (UINT a = 0; a < g_nAngles; a++)
        for (UINT v = 0; v < 4; v++)
        for (UINT g = 0; g < g_nGroups; g++)
            source(g, v, a, cell) = buf[i++];
    }
    delete[] buf;
    fclose(f);
    const char *mark = getenv("VT_MARK");
    if (mark != NULL) { FILE *m = fopen(mark, "w"); if (m) fclose(m); }
}

// Records the flux handed to the writer: number of cells, their global ids, psi[cell][angle][vertex][group].
#include "Comm.hh"
#include <string>
#include <vector>

extern "C" void __real__ZN7PsiData11writeToFileERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(PsiData *self, const std::string &name) __attribute__((weak));

extern "C" void __wrap__ZN7PsiData11writeToFileERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(PsiData *self, const std::string &name)
{
    const char *path = getenv("VT_PSI");
    if (path != NULL) {
        std::string fn = std::string(path) + "." + std::to_string(Comm::rank());
        FILE *f = fopen(fn.c_str(), "wb");
        if (f == NULL) { fprintf(stderr, "VT: cannot record the flux\n"); exit(97); }
        std::vector<double> b;
        b.push_back((double)g_nCells);
        for (UINT c = 0; c < g_nCells; c++) b.push_back((double)g_tychoMesh->getLGCell(c));
        for (UINT c = 0; c < g_nCells; c++)
        for (UINT a = 0; a < g_nAngles; a++)
        for (UINT v = 0; v < 4; v++)
        for (UINT g = 0; g < g_nGroups; g++)
            b.push_back((*self)(g, v, a, c));
        if (fwrite(b.data(), sizeof(double), b.size(), f) != b.size()) exit(97);
        fclose(f);
    }
    __real__ZN7PsiData11writeToFileERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(self, name);
}


// The OpenMP runtime asks for the load when it may choose the number of threads (OMP_DYNAMIC=true).
// With VT_LOAD in the environment the load changes from call to call.
extern "C" int getloadavg(double *a, int n)
{
    static unsigned s = 0;
    const char *v = getenv("VT_LOAD");
    if (v == NULL)
        return -1;
    if (s == 0)
        s = 2 * (unsigned) atoi(v) + 1;
    for (int i = 0; i < n; i++) {
        s = s * 1103515245u + 12345u;
        a[i] = (s >> 16) % 9;
    }
    return n;
}


// VT_THREADS=a,b,c...: process k gets the k-th number of threads (as on nodes with different numbers of cores).
__attribute__((constructor)) static void threadsOfRank()
{
    const char *v = getenv("VT_THREADS"), *r = getenv("OMPI_COMM_WORLD_RANK");
    if (v == NULL || r == NULL)
        return;
    for (int k = atoi(r); k > 0 && *v; v++)
        k -= *v == ',';
    if (atoi(v) > 0)
        omp_set_num_threads(atoi(v));
}
