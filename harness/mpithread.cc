// Checks at run time that MPI is called the way the thread support level asked for allows:
// no threads at all (SINGLE), only the thread that initialised MPI (FUNNELED), one thread at a time (SERIALIZED).
// Problems are written to $VT_MPITHREAD.<pid>.  With VT_JITTER calls are delayed now and then so that overlaps show.
// Compiled without ThreadSanitizer: its own atomics must not hide races of the program.
#include <mpi.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" int vt_threads_started();                          // minigomp.cc

namespace {
std::atomic<int> inside(0), bad(0);
int asked = -1;
long main_tid = 0;
bool slow = false;
thread_local unsigned rng = 0;

void complain(const char *what, const char *fn)
{
    if (bad.fetch_add(1) > 20) return;
    const char *p = getenv("VT_MPITHREAD");
    if (p == NULL) return;
    char name[4096];
    snprintf(name, sizeof name, "%s.%d", p, (int)getpid());
    FILE *f = fopen(name, "a");
    if (f) { fprintf(f, "%s: %s\n", fn, what); fclose(f); }
}

struct Call {
    Call(const char *fn)
    {
        int other = inside.fetch_add(1);
        if (asked < 0) return;                                // before MPI_Init
        long tid = syscall(SYS_gettid);
        if (asked < MPI_THREAD_MULTIPLE && other > 0)
            complain("called while another thread is in an MPI call", fn);
        if (asked < MPI_THREAD_SERIALIZED && tid != main_tid)
            complain("called from another thread than the one that initialised MPI, thread support for this was not asked for", fn);
        if (asked < MPI_THREAD_FUNNELED && vt_threads_started())
            complain("called by a program with threads that asked for no thread support", fn);
        if (slow) {
            if (rng == 0) rng = (unsigned)tid * 2654435761u | 1u;
            rng = rng * 1103515245u + 12345u;
            if (((rng >> 16) & 7) == 0) usleep((rng >> 20) % 200);
        }
    }
    ~Call() { inside.fetch_sub(1); }
};
void start(int level)
{
    main_tid = syscall(SYS_gettid);
    slow = getenv("VT_JITTER") != NULL;
    asked = level;
}
}

extern "C" {
int MPI_Init(int *a, char ***b) { int r = PMPI_Init(a, b); start(MPI_THREAD_SINGLE); return r; }
int MPI_Init_thread(int *a, char ***b, int q, int *p) { int r = PMPI_Init_thread(a, b, q, p); start(q < *p ? q : *p); return r; }
#define F(name, decl, args) int MPI_##name decl { Call c("MPI_" #name); return PMPI_##name args; }
F(Isend, (const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm m, MPI_Request *r), (b, n, t, d, g, m, r))
F(Issend, (const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm m, MPI_Request *r), (b, n, t, d, g, m, r))
F(Send, (const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm m), (b, n, t, d, g, m))
F(Ssend, (const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm m), (b, n, t, d, g, m))
F(Recv, (void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm m, MPI_Status *s), (b, n, t, d, g, m, s))
F(Irecv, (void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm m, MPI_Request *r), (b, n, t, d, g, m, r))
F(Sendrecv, (const void *b, int n, MPI_Datatype t, int d, int g, void *b2, int n2, MPI_Datatype t2, int d2, int g2, MPI_Comm m, MPI_Status *s), (b, n, t, d, g, b2, n2, t2, d2, g2, m, s))
F(Barrier, (MPI_Comm m), (m))
F(Allreduce, (const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm m), (a, b, n, t, o, m))
F(Reduce, (const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, int r, MPI_Comm m), (a, b, n, t, o, r, m))
F(Bcast, (void *b, int n, MPI_Datatype t, int r, MPI_Comm m), (b, n, t, r, m))
F(Wait, (MPI_Request *r, MPI_Status *s), (r, s))
F(Waitall, (int n, MPI_Request *r, MPI_Status *s), (n, r, s))
F(Waitany, (int n, MPI_Request *r, int *i, MPI_Status *s), (n, r, i, s))
F(Waitsome, (int n, MPI_Request *r, int *k, int *i, MPI_Status *s), (n, r, k, i, s))
F(Test, (MPI_Request *r, int *f, MPI_Status *s), (r, f, s))
F(Testall, (int n, MPI_Request *r, int *f, MPI_Status *s), (n, r, f, s))
F(Testany, (int n, MPI_Request *r, int *i, int *f, MPI_Status *s), (n, r, i, f, s))
F(Testsome, (int n, MPI_Request *r, int *k, int *i, MPI_Status *s), (n, r, k, i, s))
F(Probe, (int a, int g, MPI_Comm m, MPI_Status *s), (a, g, m, s))
F(Iprobe, (int a, int g, MPI_Comm m, int *f, MPI_Status *s), (a, g, m, f, s))
F(File_open, (MPI_Comm m, const char *n, int a, MPI_Info i, MPI_File *f), (m, n, a, i, f))
F(File_close, (MPI_File *f), (f))
F(File_seek, (MPI_File f, MPI_Offset o, int w), (f, o, w))
F(File_read, (MPI_File f, void *b, int n, MPI_Datatype t, MPI_Status *s), (f, b, n, t, s))
F(File_write_at, (MPI_File f, MPI_Offset o, const void *b, int n, MPI_Datatype t, MPI_Status *s), (f, o, b, n, t, s))
}
