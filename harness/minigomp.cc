// A small replacement for libgomp made of pthread calls, so that ThreadSanitizer sees the synchronisation of OpenMP programs (libgomp itself is not
// instrumented).  Linked instead of libgomp.  With VT_JITTER=seed threads are delayed at random at synchronisation points.
#include <cstdlib>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <vector>

namespace {
struct Team {
    int n;
    pthread_barrier_t bar;
    pthread_mutex_t m;
    long single, next, end, incr, chunk;
    bool up;
};
struct Arg { Team *t; int id; void (*fn)(void *); void *data; unsigned seed; };
thread_local Team *team = NULL;
thread_local int self_id = 0;
thread_local long my_single = 0;
thread_local unsigned rng = 0;
pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;
int wanted = 0, started = 0;

int default_threads()
{
    const char *s = getenv("OMP_NUM_THREADS");
    int n = s ? atoi(s) : 1;
    return n < 1 ? 1 : n;
}

void jitter()
{
    if (rng == 0) return;
    rng = rng * 1103515245u + 12345u;
    unsigned k = (rng >> 16) & 15;
    if (k == 0) usleep((rng >> 20) % 300);
    else if (k < 4) sched_yield();
    if (rng == 0) rng = 1;
}

void *body(void *p)
{
    Arg *a = (Arg *)p;
    team = a->t; self_id = a->id; my_single = 0; rng = a->seed;
    jitter();
    a->fn(a->data);
    return NULL;
}
unsigned regions = 0;
}

extern "C" {
int vt_threads_started() { return started; }
int omp_get_thread_num() { return self_id; }
int omp_get_num_threads() { return team ? team->n : 1; }
int omp_get_max_threads() { return wanted ? wanted : default_threads(); }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return team != NULL && team->n > 1; }
void omp_set_num_threads(int n) { wanted = n; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
int omp_get_level() { return team != NULL; }
int omp_get_thread_limit() { return 1 << 20; }
typedef pthread_mutex_t *lock_t;
void omp_init_lock(void **l) { lock_t m = new pthread_mutex_t; pthread_mutex_init(m, NULL); *l = m; }
void omp_destroy_lock(void **l) { pthread_mutex_destroy((lock_t)*l); delete (lock_t)*l; }
void omp_set_lock(void **l) { jitter(); pthread_mutex_lock((lock_t)*l); }
void omp_unset_lock(void **l) { pthread_mutex_unlock((lock_t)*l); }
int omp_test_lock(void **l) { return pthread_mutex_trylock((lock_t)*l) == 0; }

static void run_team(void (*fn)(void *), void *data, unsigned n, long start, long end, long incr, long chunk)
{
    Team t;
    if (team != NULL) n = 1;                                  // no nested parallelism
    t.n = n ? (int)n : (wanted ? wanted : default_threads());
    t.single = 0; t.next = start; t.end = end; t.incr = incr; t.chunk = chunk; t.up = incr > 0;
    pthread_barrier_init(&t.bar, NULL, t.n);
    pthread_mutex_init(&t.m, NULL);
    const char *s = getenv("VT_JITTER");
    unsigned base = s ? (unsigned)atoi(s) * 2654435761u + (++regions) * 40503u : 0;
    std::vector<Arg> a(t.n);
    std::vector<pthread_t> th(t.n);
    for (int i = 0; i < t.n; i++) {
        Arg x = { &t, i, fn, data, s ? (base ^ (i * 7919u)) | 1u : 0u };
        a[i] = x;
    }
    for (int i = 1; i < t.n; i++) if (pthread_create(&th[i], NULL, body, &a[i])) abort();
    if (t.n > 1) started = 1;
    Team *ot = team; int oi = self_id; long os = my_single; unsigned orn = rng;
    body(&a[0]);
    team = ot; self_id = oi; my_single = os; rng = orn;
    for (int i = 1; i < t.n; i++) pthread_join(th[i], NULL);
    pthread_barrier_destroy(&t.bar);
    pthread_mutex_destroy(&t.m);
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run_team(fn, data, n, 0, 0, 1, 1); }
void GOMP_barrier() { jitter(); if (team) pthread_barrier_wait(&team->bar); jitter(); }
void GOMP_critical_start() { jitter(); pthread_mutex_lock(&crit); }
void GOMP_critical_end() { pthread_mutex_unlock(&crit); jitter(); }
void GOMP_critical_name_start(void **p)
{
    jitter();
    pthread_mutex_lock(&atom);
    if (*p == NULL) { lock_t m = new pthread_mutex_t; pthread_mutex_init(m, NULL); *p = m; }
    lock_t m = (lock_t)*p;
    pthread_mutex_unlock(&atom);
    pthread_mutex_lock(m);
}
void GOMP_critical_name_end(void **p)
{
    pthread_mutex_lock(&atom);
    lock_t m = (lock_t)*p;
    pthread_mutex_unlock(&atom);
    pthread_mutex_unlock(m);
    jitter();
}
void GOMP_atomic_start() { jitter(); pthread_mutex_lock(&atom); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atom); }
bool GOMP_single_start()
{
    if (!team) return true;
    pthread_mutex_lock(&team->m);
    bool r = team->single == my_single;
    if (r) team->single++;
    my_single++;
    pthread_mutex_unlock(&team->m);
    return r;
}
static bool next_chunk(long *a, long *b)
{
    jitter();
    pthread_mutex_lock(&team->m);
    bool r = team->up ? team->next < team->end : team->next > team->end;
    if (r) {
        *a = team->next;
        long e = team->next + team->incr * team->chunk;
        if (team->up ? e > team->end : e < team->end) e = team->end;
        *b = e;
        team->next = e;
    }
    pthread_mutex_unlock(&team->m);
    return r;
}
bool GOMP_loop_dynamic_next(long *a, long *b) { return next_chunk(a, b); }
bool GOMP_loop_dynamic_start(long s, long e, long i, long c, long *a, long *b)
{
    if (!team) { *a = s; *b = e; return s != e; }
    pthread_barrier_wait(&team->bar);
    if (self_id == 0) { team->next = s; team->end = e; team->incr = i; team->chunk = c; team->up = i > 0; }
    pthread_barrier_wait(&team->bar);
    return next_chunk(a, b);
}
bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, i, c, a, b); }
bool GOMP_loop_nonmonotonic_dynamic_next(long *a, long *b) { return next_chunk(a, b); }
bool GOMP_loop_guided_start(long s, long e, long i, long c, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, i, c, a, b); }
bool GOMP_loop_guided_next(long *a, long *b) { return next_chunk(a, b); }
bool GOMP_loop_nonmonotonic_guided_start(long s, long e, long i, long c, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, i, c, a, b); }
bool GOMP_loop_nonmonotonic_guided_next(long *a, long *b) { return next_chunk(a, b); }
void GOMP_loop_end() { if (team) pthread_barrier_wait(&team->bar); }
void GOMP_loop_end_nowait() {}
#define PL(name) void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { run_team(fn, d, n, s, e, i, c); }
PL(dynamic) PL(guided) PL(nonmonotonic_dynamic) PL(nonmonotonic_guided)
void GOMP_parallel_loop_static(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { run_team(fn, d, n, s, e, i, c ? c : 1); }
typedef unsigned long long ull;
static bool ull_next(ull *a, ull *b) { long x, y; if (!next_chunk(&x, &y)) return false; *a = (ull)x; *b = (ull)y; return true; }
bool GOMP_loop_ull_dynamic_start(bool, ull s, ull e, ull i, ull c, ull *a, ull *b)
{ long x, y; if (!GOMP_loop_dynamic_start((long)s, (long)e, (long)i, (long)c, &x, &y)) return false; *a = (ull)x; *b = (ull)y; return true; }
bool GOMP_loop_ull_dynamic_next(ull *a, ull *b) { return ull_next(a, b); }
bool GOMP_loop_ull_nonmonotonic_dynamic_start(bool u, ull s, ull e, ull i, ull c, ull *a, ull *b) { return GOMP_loop_ull_dynamic_start(u, s, e, i, c, a, b); }
bool GOMP_loop_ull_nonmonotonic_dynamic_next(ull *a, ull *b) { return ull_next(a, b); }
bool GOMP_loop_ull_guided_start(bool u, ull s, ull e, ull i, ull c, ull *a, ull *b) { return GOMP_loop_ull_dynamic_start(u, s, e, i, c, a, b); }
bool GOMP_loop_ull_guided_next(ull *a, ull *b) { return ull_next(a, b); }
bool GOMP_loop_ull_nonmonotonic_guided_start(bool u, ull s, ull e, ull i, ull c, ull *a, ull *b) { return GOMP_loop_ull_dynamic_start(u, s, e, i, c, a, b); }
bool GOMP_loop_ull_nonmonotonic_guided_next(ull *a, ull *b) { return ull_next(a, b); }
}
