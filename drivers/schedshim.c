/* LD_PRELOAD shim: random delays around pthread synchronisation, and a hash of the order in which threads took locks */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <stdint.h>
#include <string.h>

static int (*r_lock)(pthread_mutex_t *), (*r_unlock)(pthread_mutex_t *), (*r_wait)(pthread_cond_t *, pthread_mutex_t *), (*r_bc)(pthread_cond_t *);
static uint64_t hash = 1469598103934665603ull, events = 0;
static int nthreads = 0, delay = 0, prob = 0, ready = 0;
static uint64_t seed = 0;
static const char *logf_ = 0;
static __thread int tid = -1;
static __thread uint64_t rs = 0;
static __thread int inside = 0;
static __thread uint64_t slept = 0;

static void init(void) {
    if (ready) return;
    r_lock = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    r_unlock = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    r_wait = (int (*)(pthread_cond_t *, pthread_mutex_t *))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
    if (!r_wait) r_wait = (int (*)(pthread_cond_t *, pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_cond_wait");
    r_bc = (int (*)(pthread_cond_t *))dlvsym(RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2");
    if (!r_bc) r_bc = (int (*)(pthread_cond_t *))dlsym(RTLD_NEXT, "pthread_cond_broadcast");
    char *s = getenv("SCHED_SEED");
    seed = s ? strtoull(s, 0, 10) : 1;
    s = getenv("SCHED_DELAY"); delay = s ? atoi(s) : 0;
    s = getenv("SCHED_PROB"); prob = s ? atoi(s) : 0;
    logf_ = getenv("SCHED_LOG");
    ready = 1;
}
static void me(void) {
    if (tid < 0) {
        tid = __sync_fetch_and_add(&nthreads, 1);
        rs = (seed + 1) * 0x9E3779B97F4A7C15ull + tid * 0xBF58476D1CE4E5B9ull + 1;
    }
}
static void jitter(void) {
    if (!delay) return;
    rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
    /* the longer a thread has slept, the less often it does so again */
    if (rs % 10000 < 100ull * prob * 100000 / (100000 + slept)) {
        unsigned u = (unsigned)((rs >> 20) % (unsigned)delay);
        slept += u + 60;
        usleep(u);
    }
}
static void note(void) {
    uint64_t h = __atomic_load_n(&hash, __ATOMIC_RELAXED);
    __atomic_store_n(&hash, (h ^ (uint64_t)(tid + 1)) * 1099511628211ull, __ATOMIC_RELAXED);
    __sync_fetch_and_add(&events, 1);
}
int pthread_mutex_lock(pthread_mutex_t *m) {
    init();
    if (inside) return r_lock(m);
    inside = 1; me(); jitter();
    int r = r_lock(m);
    note();
    inside = 0;
    return r;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    init();
    int r = r_unlock(m);
    if (!inside) { inside = 1; me(); jitter(); inside = 0; }
    return r;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    init();
    int r = r_wait(c, m);
    if (!inside) { inside = 1; me(); note(); inside = 0; }
    return r;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    init();
    if (!inside) { inside = 1; me(); jitter(); inside = 0; }
    return r_bc(c);
}
__attribute__((destructor)) static void fin(void) {
    if (!logf_) return;
    FILE *f = fopen(logf_, "w");
    if (f) { fprintf(f, "%016llx %llu %d\n", (unsigned long long)hash, (unsigned long long)events, nthreads); fclose(f); }
}
