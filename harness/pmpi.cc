// Message-timing perturbation, placed between the program and the MPI library (MPI profiling interface).
// Everything done here is allowed by the MPI standard:
//   sends complete only when received (synchronous), any call may take long, Test/Iprobe may answer "not yet"
//   (a bounded number of times in a row), Waitany/Waitsome/Testany/Testsome may report any completed request.
// It also checks that the buffer of a nonblocking send has not changed when the send completes.
//
// VT_PMPI = "seed sync delay notyet shuffle slow"
//   sync 0: as is, 1: all sends synchronous, 2: each send at random;  delay: per mille of calls delayed;
//   notyet: per cent of false answers;  shuffle: 0/1;  slow: rank whose calls are all delayed (-1: none)
// VT_PMPI_OUT: prefix of the report files.
#include <mpi.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dlfcn.h>
#include <map>
#include <mutex>
#include <string>
#include <vector>

namespace {
struct Rec { const void *buf; size_t n; uint64_t sum; int to, tag; };
struct State {
    bool on = false;
    int rank = 0, sync = 0, delay = 0, notyet = 0, shuffle = 0, slow = -1;
    uint64_t s = 1;
    long budget = 1200000;      // microseconds of delays left
    int row = 0;
    uint64_t nsync = 0, nsend = 0, ndelay = 0, nnot = 0, nshuf = 0, nbad = 0;
    std::map<MPI_Request, Rec> pend;
    std::vector<MPI_Request> freed;   // sends whose requests the program has freed
    std::recursive_mutex mx;
    std::string out;
    FILE *f = NULL;
};
State &S() { static State *s = new State; return *s; }

uint64_t rnd()
{
    uint64_t &x = S().s;
    x += 0x9e3779b97f4a7c15ULL;
    uint64_t z = x;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

void say(const char *fmt, int a, int b, uint64_t n)
{
    State &s = S();
    s.nbad++;
    if (!s.f) s.f = fopen((s.out + "." + std::to_string(s.rank)).c_str(), "w");
    if (s.f && s.nbad < 20) { fprintf(s.f, fmt, a, b, (unsigned long)n); fputc('\n', s.f); fflush(s.f); }
}

void start()
{
    State &s = S();
    const char *e = getenv("VT_PMPI"), *o = getenv("VT_PMPI_OUT");
    if (!e || !o) return;
    unsigned long seed = 0;
    if (sscanf(e, "%lu %d %d %d %d %d", &seed, &s.sync, &s.delay, &s.notyet, &s.shuffle, &s.slow) != 6) return;
    PMPI_Comm_rank(MPI_COMM_WORLD, &s.rank);
    s.s = seed * 1000003ULL + s.rank * 7919ULL + 17;
    s.out = o;
    s.on = true;
}

void nap()
{
    State &s = S();
    if (!s.on) return;
    long t = 0;
    {
        std::lock_guard<std::recursive_mutex> l(s.mx);
        if (s.budget <= 0) return;
        if (s.slow == s.rank) t = 100 + rnd() % 400;
        if ((int)(rnd() % 1000) < s.delay) {
            static const long w[5] = {20, 100, 500, 2000, 8000};
            t += w[rnd() % 5];
        }
        if (!t) return;
        s.budget -= t;
        s.ndelay++;
    }
    usleep(t);
}

uint64_t sum(const void *b, size_t n)
{
    uint64_t h = 1469598103934665603ULL;
    const unsigned char *p = (const unsigned char *)b;
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t w; memcpy(&w, p + i, 8); h = (h ^ w) * 1099511628211ULL; h ^= h >> 29; }
    for (; i < n; i++) h = (h ^ p[i]) * 1099511628211ULL;
    return h;
}

void record(MPI_Request r, const void *b, int n, MPI_Datatype t, int to, int tag)
{
    State &s = S();
    int sz = 0;
    PMPI_Type_size(t, &sz);
    Rec c = {b, (size_t)n * sz, 0, to, tag};
    c.sum = sum(b, c.n);
    std::lock_guard<std::recursive_mutex> l(s.mx);
    s.nsend++;
    s.pend[r] = c;
}

// to be called with handles saved before the completing call
void finished(MPI_Request r)
{
    State &s = S();
    std::lock_guard<std::recursive_mutex> l(s.mx);
    std::map<MPI_Request, Rec>::iterator i = s.pend.find(r);
    if (i == s.pend.end()) return;
    if (sum(i->second.buf, i->second.n) != i->second.sum)
        say("buffer of the send to rank %d (tag %d, %lu bytes) changed before the send completed", i->second.to, i->second.tag, i->second.n);
    s.pend.erase(i);
}

// A freed send still needs its buffer until it is complete, which only we can see.
void freed(bool wait)
{
    State &s = S();
    if (!s.on) return;
    std::lock_guard<std::recursive_mutex> l(s.mx);
    for (int round = 0; round < (wait ? 2000 : 1) && !s.freed.empty(); round++) {
        for (size_t i = 0; i < s.freed.size();) {
            MPI_Request q = s.freed[i];
            int f = 0;
            PMPI_Test(&s.freed[i], &f, MPI_STATUS_IGNORE);
            if (f) { finished(q); s.freed.erase(s.freed.begin() + i); }
            else i++;
        }
        if (wait && !s.freed.empty()) usleep(1000);
    }
}

bool notyet()
{
    State &s = S();
    if (!s.on || !s.notyet) return false;
    std::lock_guard<std::recursive_mutex> l(s.mx);
    if (s.row < 25 && (int)(rnd() % 100) < s.notyet) { s.row++; s.nnot++; return true; }
    s.row = 0;
    return false;
}

bool sync1()
{
    State &s = S();
    if (!s.on || !s.sync) return false;
    std::lock_guard<std::recursive_mutex> l(s.mx);
    bool y = s.sync == 1 || rnd() % 2;
    s.nsync += y;
    return y;
}

void garbage(MPI_Status *st)
{
    if (st != MPI_STATUS_IGNORE) memset(st, 0x5b, sizeof *st);
}

std::vector<int> order(int n)
{
    std::vector<int> p(n);
    for (int i = 0; i < n; i++) p[i] = i;
    State &s = S();
    if (s.on && s.shuffle) {
        std::lock_guard<std::recursive_mutex> l(s.mx);
        s.nshuf++;
        for (int i = n - 1; i > 0; i--) std::swap(p[i], p[rnd() % (i + 1)]);
    }
    return p;
}
}

extern "C" {
int MPI_Init(int *c, char ***v) { int r = PMPI_Init(c, v); start(); return r; }
int MPI_Init_thread(int *c, char ***v, int q, int *p) { int r = PMPI_Init_thread(c, v, q, p); start(); return r; }

int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request *r)
{
    nap(); freed(false);
    int e = sync1() ? PMPI_Issend(b, n, t, d, g, c, r) : PMPI_Isend(b, n, t, d, g, c, r);
    if (S().on && e == MPI_SUCCESS) record(*r, b, n, t, d, g);
    return e;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c)
{
    nap(); freed(false);
    return sync1() ? PMPI_Ssend(b, n, t, d, g, c) : PMPI_Send(b, n, t, d, g, c);
}
int MPI_Recv(void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Status *st) { nap(); freed(false); int e = PMPI_Recv(b, n, t, d, g, c, st); nap(); return e; }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request *r) { nap(); freed(false); return PMPI_Irecv(b, n, t, d, g, c, r); }
int MPI_Barrier(MPI_Comm c) { nap(); freed(false); return PMPI_Barrier(c); }
int MPI_Allreduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { nap(); freed(false); int e = PMPI_Allreduce(a, b, n, t, o, c); nap(); return e; }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int r, MPI_Comm c) { nap(); freed(false); int e = PMPI_Bcast(b, n, t, r, c); nap(); return e; }

int MPI_Wait(MPI_Request *r, MPI_Status *st)
{
    nap(); freed(false);
    MPI_Request q = *r;
    int e = PMPI_Wait(r, st);
    if (S().on) finished(q);
    return e;
}
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st)
{
    nap(); freed(false);
    std::vector<MPI_Request> q(r, r + n);
    int e = PMPI_Waitall(n, r, st);
    if (S().on) for (MPI_Request x : q) finished(x);
    nap(); freed(false);
    return e;
}
int MPI_Waitany(int n, MPI_Request *r, int *idx, MPI_Status *st)
{
    nap(); freed(false);
    std::vector<int> p = order(n);
    std::vector<MPI_Request> q(n);
    for (int i = 0; i < n; i++) q[i] = r[p[i]];
    std::vector<MPI_Request> old = q;
    int k, e = PMPI_Waitany(n, q.data(), &k, st);
    if (k == MPI_UNDEFINED) { *idx = k; return e; }
    *idx = p[k];
    r[p[k]] = q[k];
    if (S().on) finished(old[k]);
    return e;
}
int MPI_Waitsome(int n, MPI_Request *r, int *cnt, int *idx, MPI_Status *st)
{
    nap(); freed(false);
    std::vector<MPI_Request> old(r, r + n);
    int e = PMPI_Waitsome(n, r, cnt, idx, st);
    if (S().on && *cnt != MPI_UNDEFINED) for (int i = 0; i < *cnt; i++) finished(old[idx[i]]);
    return e;
}
int MPI_Test(MPI_Request *r, int *f, MPI_Status *st)
{
    nap(); freed(false);
    if (*r != MPI_REQUEST_NULL && notyet()) { *f = 0; garbage(st); return MPI_SUCCESS; }
    MPI_Request q = *r;
    int e = PMPI_Test(r, f, st);
    if (S().on && *f) finished(q);
    return e;
}
static bool active(int n, MPI_Request *r)
{
    for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) return true;
    return false;
}
int MPI_Testall(int n, MPI_Request *r, int *f, MPI_Status *st)
{
    nap(); freed(false);
    if (active(n, r) && notyet()) { *f = 0; return MPI_SUCCESS; }
    std::vector<MPI_Request> q(r, r + n);
    int e = PMPI_Testall(n, r, f, st);
    if (S().on && *f) for (MPI_Request x : q) finished(x);
    return e;
}
int MPI_Testany(int n, MPI_Request *r, int *idx, int *f, MPI_Status *st)
{
    nap(); freed(false);
    if (active(n, r) && notyet()) { *f = 0; *idx = MPI_UNDEFINED; garbage(st); return MPI_SUCCESS; }
    std::vector<int> p = order(n);
    std::vector<MPI_Request> q(n);
    for (int i = 0; i < n; i++) q[i] = r[p[i]];
    std::vector<MPI_Request> old = q;
    int k, e = PMPI_Testany(n, q.data(), &k, f, st);
    if (!*f || k == MPI_UNDEFINED) { *idx = k; return e; }
    *idx = p[k];
    r[p[k]] = q[k];
    if (S().on) finished(old[k]);
    return e;
}
int MPI_Testsome(int n, MPI_Request *r, int *cnt, int *idx, MPI_Status *st)
{
    nap(); freed(false);
    if (active(n, r) && notyet()) { *cnt = 0; return MPI_SUCCESS; }
    std::vector<MPI_Request> old(r, r + n);
    int e = PMPI_Testsome(n, r, cnt, idx, st);
    if (S().on && *cnt != MPI_UNDEFINED) for (int i = 0; i < *cnt; i++) finished(old[idx[i]]);
    return e;
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int *f, MPI_Status *st)
{
    nap(); freed(false);
    if (notyet()) { *f = 0; garbage(st); return MPI_SUCCESS; }
    int e = PMPI_Iprobe(src, tag, c, f, st);
    if (S().on && !*f) garbage(st);
    return e;
}
int MPI_Request_free(MPI_Request *r)
{
    State &s = S();
    if (s.on) {
        std::lock_guard<std::recursive_mutex> l(s.mx);
        if (s.pend.count(*r)) {
            s.freed.push_back(*r);
            *r = MPI_REQUEST_NULL;
            return MPI_SUCCESS;
        }
    }
    return PMPI_Request_free(r);
}
int MPI_Finalize(void)
{
    State &s = S();
    freed(true);
    if (s.on) {
        for (auto &p : s.pend) say("send to rank %d (tag %d, %lu bytes) was never completed", p.second.to, p.second.tag, p.second.n);
        FILE *f = fopen((s.out + ".stat." + std::to_string(s.rank)).c_str(), "w");
        if (f) { fprintf(f, "%lu %lu %lu %lu %lu %lu\n", (unsigned long)s.nsend, (unsigned long)s.nsync, (unsigned long)s.ndelay, (unsigned long)s.nnot, (unsigned long)s.nshuf, (unsigned long)s.nbad); fclose(f); }
        if (s.f) fclose(s.f);
        s.on = false;
    }
    return PMPI_Finalize();
}
// Threads start their part of a parallel region at different times.
int omp_get_thread_num(void)
{
    static int (*real)(void) = (int (*)(void))dlsym(RTLD_NEXT, "omp_get_thread_num");
    int t = real();
    if (t > 0 || (S().on && S().rank % 2)) nap();
    return t;
}
}
