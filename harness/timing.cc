// Linked into sweep.x: slows one process down by known amounts at known places and counts cell solves.
// VT_SLOW="rank place us budget" (place p: point-to-point MPI calls, s: cell solves,
// t: cell solves of the first thread), VT_TIMING=prefix writes prefix.RANK when MPI ends:
// "ms slept in MPI calls, ms slept in solves by the thread that slept most, ms from the start of the process to the end, cell solves, calls delayed, started"
// Delays and solves count after the source was built.
#include <mpi.h>
#include <omp.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <mutex>
#include <time.h>
#include "Global.hh"
#include "Mat.hh"

static std::mutex s_lock;
static int s_rank = -1, s_slow = -2;
static char s_place = 0;
static long s_us = 0, s_budget = 0;
static double s_p2p = 0, s_thread[256];
static std::atomic<long> s_solves(0), s_delayed(0);
static std::atomic<bool> s_on(false);

static double clock_ms()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1e3 + t.tv_nsec * 1e-6;
}

static const double s_begin = clock_ms();

extern "C" void vt_start()
{
    if (s_on) return;
    PMPI_Comm_rank(MPI_COMM_WORLD, &s_rank);
    const char *e = getenv("VT_SLOW");
    if (e) sscanf(e, "%d %c %ld %ld", &s_slow, &s_place, &s_us, &s_budget);
    s_on = true;
}

static void nap(char place)
{
    if (!s_on || s_place != place || s_slow != s_rank) return;
    {
        std::lock_guard<std::mutex> l(s_lock);
        if (s_budget < s_us) return;
        s_budget -= s_us;
    }
    struct timespec t = {s_us / 1000000, (s_us % 1000000) * 1000};
    double a = clock_ms();
    nanosleep(&t, NULL);
    double d = clock_ms() - a;
    std::lock_guard<std::mutex> l(s_lock);
    s_delayed++;
    if (place == 'p') s_p2p += d;
    else s_thread[omp_get_thread_num() & 255] += d;
}

extern "C" void __real__ZN9Transport5solveEmmdRK4Mat3IdERK4Mat2IdERS5_(const UINT, const UINT, const double, const Mat3<double> &, const Mat2<double> &, Mat2<double> &) __attribute__((weak));
extern "C" void __wrap__ZN9Transport5solveEmmdRK4Mat3IdERK4Mat2IdERS5_(const UINT cell, const UINT angle, const double sigma, const Mat3<double> &b, const Mat2<double> &s, Mat2<double> &psi)
{
    __real__ZN9Transport5solveEmmdRK4Mat3IdERK4Mat2IdERS5_(cell, angle, sigma, b, s, psi);
    if (s_on) s_solves++;
    if (omp_get_thread_num() == 0) nap('t');
    nap('s');
}

extern "C" {
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request *r) { nap('p'); return PMPI_Isend(b, n, t, d, g, c, r); }
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c) { nap('p'); return PMPI_Send(b, n, t, d, g, c); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Status *s) { nap('p'); return PMPI_Recv(b, n, t, d, g, c, s); }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request *r) { nap('p'); return PMPI_Irecv(b, n, t, d, g, c, r); }
int MPI_Finalize(void)
{
    const char *p = getenv("VT_TIMING");
    if (p != NULL && s_on) {
        char name[4096];
        double m = 0;
        for (double x : s_thread) m = x > m ? x : m;
        snprintf(name, sizeof name, "%s.%d", p, s_rank);
        if (FILE *f = fopen(name, "w")) {
            fprintf(f, "%.6f %.6f %.6f %ld %ld\n", s_p2p, m, clock_ms() - s_begin, s_solves.load(), s_delayed.load());
            fclose(f);
        }
    }
    return PMPI_Finalize();
}
}
