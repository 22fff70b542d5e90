/* A small libgomp stand-in on pthreads, so that ThreadSanitizer (which understands pthreads but
   not libgomp's futexes) sees every fork and join; random delays and a start barrier make the team
   really overlap.  Only symbols gcc emits for C loops are provided; anything else falls through to
   the real libgomp. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdlib.h>
#include <stdbool.h>
#include <stdio.h>
#include <time.h>
#include <sched.h>

typedef struct team {
    int n;
    pthread_barrier_t bar;
    pthread_mutex_t lock;
    long next, end, incr, chunk;
    unsigned long unext, uend, uincr, uchunk;
    long loop_id;
    int single_done;
} team_t;
static __thread int tid = 0;
static __thread team_t *team = 0;
static __thread long my_loop = 0;
static int nthreads_setting = 0;
static long regions = 0, spawned = 0;
static unsigned rng_state = 12345;
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;

static int want(unsigned n) {
    if (n) return (int)n;
    if (nthreads_setting) return nthreads_setting;
    char *s = getenv("SHIM_THREADS");
    return s ? atoi(s) : 4;
}
void omp_set_num_threads(int n) { nthreads_setting = n; }
int omp_get_num_threads(void) { return team ? team->n : 1; }
int omp_get_thread_num(void) { return tid; }
int omp_get_max_threads(void) { return want(0); }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return team && team->n > 1; }
long shim_regions(void) { return regions; }
long shim_spawned(void) { return spawned; }
void shim_seed(unsigned s) { rng_state = s; }

typedef struct { void (*fn)(void *); void *data; int id; team_t *t; unsigned delay; } arg_t;
static void nap(unsigned d) {
    if (d % 3 == 0) return;
    if (d % 3 == 1) { sched_yield(); return; }
    struct timespec ts = {0, (long)(d % 97) * 1500};
    nanosleep(&ts, 0);
}
static void *run(void *p) {
    arg_t *a = p;
    tid = a->id; team = a->t; my_loop = 0;
    nap(a->delay);
    a->fn(a->data);
    return 0;
}
static void go(void (*fn)(void *), void *data, unsigned num, team_t *t) {
    int n = want(num);
    if (team && team->n > 1) n = 1;          /* no nesting */
    t->n = n; t->single_done = 0;
    pthread_barrier_init(&t->bar, 0, n);
    pthread_mutex_init(&t->lock, 0);
    arg_t *a = calloc(n, sizeof *a);
    pthread_t *h = calloc(n, sizeof *h);
    regions++;
    for (int i = 1; i < n; i++) {
        rng_state = rng_state * 1103515245u + 12345u;
        a[i] = (arg_t){fn, data, i, t, (rng_state >> 8)};
        if (pthread_create(&h[i], 0, run, &a[i])) { fprintf(stderr, "shim: no thread\n"); abort(); }
        spawned++;
    }
    team_t *old = team; int oldid = tid; long oldloop = my_loop;
    team = t; tid = 0; my_loop = 0;
    rng_state = rng_state * 1103515245u + 12345u;
    nap(rng_state >> 8);
    fn(data);
    for (int i = 1; i < n; i++) pthread_join(h[i], 0);
    team = old; tid = oldid; my_loop = oldloop;
    pthread_barrier_destroy(&t->bar); pthread_mutex_destroy(&t->lock);
    free(a); free(h);
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned num, unsigned flags) {
    (void)flags;
    team_t t = {0};
    go(fn, data, num, &t);
}
void GOMP_barrier(void) { if (team) pthread_barrier_wait(&team->bar); }
void GOMP_critical_start(void) { pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void **p) { (void)p; pthread_mutex_lock(&crit); }
void GOMP_critical_name_end(void **p) { (void)p; pthread_mutex_unlock(&crit); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }
bool GOMP_single_start(void) {
    if (!team) return true;
    pthread_mutex_lock(&team->lock);
    bool r = !team->single_done; team->single_done = 1;
    pthread_mutex_unlock(&team->lock);
    return r;
}

/* dynamic/guided/runtime loops: one shared counter */
static bool next_chunk(long *is, long *ie) {
    team_t *t = team;
    if (!t) return false;
    pthread_mutex_lock(&t->lock);
    bool r = t->incr > 0 ? t->next < t->end : t->next > t->end;
    if (r) {
        *is = t->next;
        long e = t->next + t->chunk * t->incr;
        if (t->incr > 0 ? e > t->end : e < t->end) e = t->end;
        *ie = e; t->next = e;
    }
    pthread_mutex_unlock(&t->lock);
    return r;
}
static void ploop(void (*fn)(void *), void *data, unsigned num, long s, long e, long inc, long chunk) {
    team_t t = {0};
    t.next = s; t.end = e; t.incr = inc; t.chunk = chunk > 0 ? chunk : 1; t.loop_id = 0;
    go(fn, data, num, &t);
}
#define PLOOP(name) void name(void (*fn)(void *), void *data, unsigned num, long s, long e, long inc, long chunk, unsigned fl) \
    { (void)fl; ploop(fn, data, num, s, e, inc, chunk); }
PLOOP(GOMP_parallel_loop_dynamic)
PLOOP(GOMP_parallel_loop_guided)
PLOOP(GOMP_parallel_loop_nonmonotonic_dynamic)
PLOOP(GOMP_parallel_loop_nonmonotonic_guided)
#define PLOOPR(name) void name(void (*fn)(void *), void *data, unsigned num, long s, long e, long inc, unsigned fl) \
    { (void)fl; ploop(fn, data, num, s, e, inc, 1); }
PLOOPR(GOMP_parallel_loop_runtime)
PLOOPR(GOMP_parallel_loop_nonmonotonic_runtime)
PLOOPR(GOMP_parallel_loop_maybe_nonmonotonic_runtime)
#define NEXT(name) bool name(long *is, long *ie) { return next_chunk(is, ie); }
NEXT(GOMP_loop_dynamic_next) NEXT(GOMP_loop_guided_next) NEXT(GOMP_loop_runtime_next)
NEXT(GOMP_loop_nonmonotonic_dynamic_next) NEXT(GOMP_loop_nonmonotonic_guided_next)
NEXT(GOMP_loop_nonmonotonic_runtime_next) NEXT(GOMP_loop_maybe_nonmonotonic_runtime_next)
static bool wstart(long s, long e, long inc, long chunk, long *is, long *ie) {
    team_t *t = team;
    if (!t) { *is = s; *ie = e; return inc > 0 ? s < e : s > e; }
    my_loop++;
    pthread_mutex_lock(&t->lock);
    if (t->loop_id < my_loop) {
        t->loop_id = my_loop; t->next = s; t->end = e; t->incr = inc; t->chunk = chunk > 0 ? chunk : 1;
    }
    pthread_mutex_unlock(&t->lock);
    return next_chunk(is, ie);
}
#define START(name) bool name(long s, long e, long inc, long chunk, long *is, long *ie) { return wstart(s, e, inc, chunk, is, ie); }
START(GOMP_loop_dynamic_start) START(GOMP_loop_guided_start)
START(GOMP_loop_nonmonotonic_dynamic_start) START(GOMP_loop_nonmonotonic_guided_start)
void GOMP_loop_end(void) { if (team) pthread_barrier_wait(&team->bar); }
void GOMP_loop_end_nowait(void) {}
