// A stand-in for libgomp on plain threads: ThreadSanitizer sees exactly the ordering that OpenMP guarantees
// (fork, join, critical sections, barriers) and reports every pair of unordered conflicting accesses.
#pragma once
#include <atomic>
#include <mutex>
#include <pthread.h>
#include <vector>
static int g_threads = 4;
static thread_local int t_id = 0, t_n = 1;
static std::atomic<bool> g_nested{false};
static std::mutex g_crit;
static pthread_barrier_t g_bar;
static std::atomic<long> g_next; static long g_end, g_incr, g_chunk; static std::mutex g_loopm; static int g_looped;
struct GompArg { void (*fn)(void*); void* data; int id, n; };
static void* gompRun(void* p) { auto a = (GompArg*) p; t_id = a->id; t_n = a->n; a->fn(a->data); return nullptr; }
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) {
    int k = n ? n : g_threads;
    if (g_nested.exchange(true) || k <= 1) { int i = t_id, m = t_n; t_id = 0; t_n = 1; fn(data); t_id = i; t_n = m; g_nested = false; return; }
    g_looped = 0; pthread_barrier_init(&g_bar, nullptr, k);
    std::vector<GompArg> a(k); std::vector<pthread_t> t(k);
    for (int i = 0; i < k; i++) a[i] = {fn, data, i, k};
    for (int i = 0; i < k; i++) pthread_create(&t[i], nullptr, gompRun, &a[i]);
    for (int i = 0; i < k; i++) pthread_join(t[i], nullptr);
    pthread_barrier_destroy(&g_bar); g_nested = false;
}
int omp_get_thread_num() { return t_id; }
int omp_get_num_threads() { return t_n; }
int omp_get_max_threads() { return g_threads; }
void omp_set_num_threads(int) {}
int omp_in_parallel() { return t_n > 1; }
void GOMP_critical_start() { g_crit.lock(); }
void GOMP_critical_end() { g_crit.unlock(); }
void GOMP_atomic_start() { g_crit.lock(); }
void GOMP_atomic_end() { g_crit.unlock(); }
void GOMP_critical_name_start(void**) { g_crit.lock(); }
void GOMP_critical_name_end(void**) { g_crit.unlock(); }
void GOMP_barrier() { if (t_n > 1) pthread_barrier_wait(&g_bar); }
static bool loopNext(long* s, long* e) { long b = g_next.fetch_add(g_incr * g_chunk); bool more = g_incr > 0 ? b < g_end : b > g_end; if (!more) return false; *s = b; long q = b + g_incr * g_chunk; *e = g_incr > 0 ? (q < g_end ? q : g_end) : (q > g_end ? q : g_end); return true; }
static bool loopStart(long s, long e, long inc, long chunk, long* i0, long* i1) { { std::lock_guard<std::mutex> l(g_loopm); if (g_looped++ == 0) { g_next = s; g_end = e; g_incr = inc; g_chunk = chunk > 0 ? chunk : 1; } } return loopNext(i0, i1); }
bool GOMP_loop_dynamic_start(long s, long e, long i, long c, long* a, long* b) { return loopStart(s, e, i, c, a, b); }
bool GOMP_loop_dynamic_next(long* a, long* b) { return loopNext(a, b); }
bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long* a, long* b) { return loopStart(s, e, i, c, a, b); }
bool GOMP_loop_nonmonotonic_dynamic_next(long* a, long* b) { return loopNext(a, b); }
bool GOMP_loop_guided_start(long s, long e, long i, long c, long* a, long* b) { return loopStart(s, e, i, c, a, b); }
bool GOMP_loop_guided_next(long* a, long* b) { return loopNext(a, b); }
bool GOMP_loop_nonmonotonic_guided_start(long s, long e, long i, long c, long* a, long* b) { return loopStart(s, e, i, c, a, b); }
bool GOMP_loop_nonmonotonic_guided_next(long* a, long* b) { return loopNext(a, b); }
static void parallelLoop(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c) { g_next = s; g_end = e; g_incr = i; g_chunk = c > 0 ? c : 1; GOMP_parallel(fn, d, n, 0); }
void GOMP_parallel_loop_dynamic(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { parallelLoop(fn, d, n, s, e, i, c); }
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { parallelLoop(fn, d, n, s, e, i, c); }
void GOMP_parallel_loop_guided(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { parallelLoop(fn, d, n, s, e, i, c); }
void GOMP_parallel_loop_nonmonotonic_guided(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { parallelLoop(fn, d, n, s, e, i, c); }
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
}
