// Linked into sweep.x: counts what the program holds (memory from operator new, MPI requests, open files) and reports it when MPI ends.
// VT_RES=prefix writes prefix.RANK: "live bytes, peak bytes, live blocks, outstanding requests, open files, C heap bytes".
#include <mpi.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <malloc.h>
#include <new>

static std::atomic<long> s_live(0), s_peak(0), s_blocks(0);

static void *take(size_t n)
{
    void *p = malloc(n ? n : 1);
    if (p == NULL) { throw std::bad_alloc(); }
    long l = s_live.fetch_add((long)malloc_usable_size(p)) + (long)malloc_usable_size(p);
    s_blocks++;
    long k = s_peak.load();
    while (l > k && !s_peak.compare_exchange_weak(k, l)) {}
    return p;
}
static void drop(void *p)
{
    if (p == NULL) return;
    s_live -= (long)malloc_usable_size(p);
    s_blocks--;
    free(p);
}
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void operator delete(void *p) noexcept { drop(p); }
void operator delete[](void *p) noexcept { drop(p); }
void operator delete(void *p, size_t) noexcept { drop(p); }
void operator delete[](void *p, size_t) noexcept { drop(p); }

// Requests started and not yet completed.  Open MPI gives the same handle to all sends that complete at once, so that handles cannot be told apart.
static std::atomic<long> s_open(0);
static void opened(MPI_Request r) { if (r != MPI_REQUEST_NULL) s_open++; }
static void closed(MPI_Request before, MPI_Request after) { if (before != MPI_REQUEST_NULL && after == MPI_REQUEST_NULL) s_open--; }

#define START(name, args, call) extern "C" int MPI_##name args { int e = PMPI_##name call; if (e == MPI_SUCCESS) opened(*r); return e; }
START(Isend, (const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r), (b, n, t, d, tag, c, r))
START(Issend, (const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r), (b, n, t, d, tag, c, r))
START(Ibsend, (const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r), (b, n, t, d, tag, c, r))
START(Irsend, (const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r), (b, n, t, d, tag, c, r))
START(Send_init, (const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r), (b, n, t, d, tag, c, r))
START(Ssend_init, (const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r), (b, n, t, d, tag, c, r))
START(Recv_init, (void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r), (b, n, t, d, tag, c, r))
START(Ibarrier, (MPI_Comm c, MPI_Request *r), (c, r))
START(Iallreduce, (const void *b, void *q, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c, MPI_Request *r), (b, q, n, t, o, c, r))
START(Ibcast, (void *b, int n, MPI_Datatype t, int k, MPI_Comm c, MPI_Request *r), (b, n, t, k, c, r))
START(Irecv, (void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r), (b, n, t, d, tag, c, r))

extern "C" int MPI_Wait(MPI_Request *r, MPI_Status *s)
{ MPI_Request o = *r; int e = PMPI_Wait(r, s); closed(o, *r); return e; }
extern "C" int MPI_Test(MPI_Request *r, int *f, MPI_Status *s)
{ MPI_Request o = *r; int e = PMPI_Test(r, f, s); closed(o, *r); return e; }
extern "C" int MPI_Request_free(MPI_Request *r)
{ MPI_Request o = *r; int e = PMPI_Request_free(r); closed(o, *r); return e; }

struct Saved                                               // handles before a call; malloc, so not counted
{
    MPI_Request *v; int n;
    Saved(int n_, MPI_Request *r) : v((MPI_Request*)malloc(sizeof(MPI_Request) * (n_ > 0 ? n_ : 1))), n(n_) { for (int i = 0; i < n; i++) v[i] = r[i]; }
    void after(MPI_Request *r) { for (int i = 0; i < n; i++) closed(v[i], r[i]); free(v); }
};
extern "C" int MPI_Waitall(int n, MPI_Request r[], MPI_Status *s)
{ Saved o(n, r); int e = PMPI_Waitall(n, r, s); o.after(r); return e; }
extern "C" int MPI_Waitany(int n, MPI_Request r[], int *k, MPI_Status *s)
{ Saved o(n, r); int e = PMPI_Waitany(n, r, k, s); o.after(r); return e; }
extern "C" int MPI_Waitsome(int n, MPI_Request r[], int *m, int k[], MPI_Status *s)
{ Saved o(n, r); int e = PMPI_Waitsome(n, r, m, k, s); o.after(r); return e; }
extern "C" int MPI_Testall(int n, MPI_Request r[], int *f, MPI_Status *s)
{ Saved o(n, r); int e = PMPI_Testall(n, r, f, s); o.after(r); return e; }
extern "C" int MPI_Testany(int n, MPI_Request r[], int *k, int *f, MPI_Status *s)
{ Saved o(n, r); int e = PMPI_Testany(n, r, k, f, s); o.after(r); return e; }
extern "C" int MPI_Testsome(int n, MPI_Request r[], int *m, int k[], MPI_Status *s)
{ Saved o(n, r); int e = PMPI_Testsome(n, r, m, k, s); o.after(r); return e; }

extern "C" int MPI_Finalize()
{
    const char *p = getenv("VT_RES");
    if (p != NULL) {
        int rank = 0;
        PMPI_Comm_rank(MPI_COMM_WORLD, &rank);
        long files = 0;
        if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) files++; closedir(d); }
        struct mallinfo2 mi = mallinfo2();
        char name[4096];
        snprintf(name, sizeof name, "%s.%d", p, rank);
        if (FILE *f = fopen(name, "w")) {
            fprintf(f, "%ld %ld %ld %ld %ld %ld\n", s_live.load(), s_peak.load(), s_blocks.load(), s_open.load(), files, (long)(mi.uordblks + mi.hblkhd));
            fclose(f);
        }
    }
    return PMPI_Finalize();
}
