// OpenMP runtime entry points on plain pthreads, so that ThreadSanitizer sees every ordering there is (libgomp's own is invisible to it).
// Threads start in random order after random delays.
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <map>
#include <mutex>
#include <condition_variable>
#include <vector>
namespace {
typedef unsigned long long ull;
struct Loop { std::mutex m; long next, end, incr, chunk; bool up; bool guided; int arrived; };
struct ULoop { ull next, end, incr; };
struct Team {
    int n;
    std::mutex m;
    std::condition_variable cv;
    int waiting;
    unsigned gen;
    std::map<unsigned, Loop*> loops;    // by the ordinal of the work share
    std::map<unsigned, int> singles;
    std::map<unsigned, void*> copies;
    Team(int n): n(n), waiting(0), gen(0) {}
    ~Team() { for (auto& l: loops) delete l.second; }
    void barrier() {
        std::unique_lock<std::mutex> l(m);
        unsigned g = gen;
        if (++waiting == n) { waiting = 0; gen++; cv.notify_all(); } else while (g == gen) cv.wait(l);
    }
};
struct Me { Team* team; int id; int level; unsigned share; Loop* loop; };
thread_local Me me = {nullptr, 0, 0, 0, nullptr};
int g_threads = 2;
std::atomic<ull> g_regions(0);
ull g_seed = 1;
uint64_t rnd() { static std::mutex m; std::lock_guard<std::mutex> l(m); uint64_t z = g_seed += 0x9E3779B97F4A7C15ULL; z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9ULL; z = (z ^ z >> 27) * 0x94D049BB133111EBULL; return z ^ z >> 31; }
struct Start { void (*fn)(void*); void* data; Me me; unsigned delay; };
void run_body(Start* s) {
    Me old = me;
    me = s->me;
    if (s->delay == 1) sched_yield();
    else if (s->delay > 1) { struct timespec t = {0, (long) s->delay * 1000}; nanosleep(&t, nullptr); }
    s->fn(s->data);
    me = old;
}
void* run_thread(void* p) { run_body((Start*) p); return nullptr; }
void parallel(void (*fn)(void*), void* data, unsigned n, Loop* first = nullptr) {
    if (n == 0) n = me.level > 0 ? 1 : g_threads;
    if (n > 16) n = 16;
    g_regions++;
    Team team((int) n);
    if (first) team.loops[0] = first;
    std::vector<Start> st(n);
    std::vector<pthread_t> th(n);
    for (unsigned i = 0; i < n; i++) {
        uint64_t x = rnd();
        unsigned delay = n == 1 ? 0 : x % 4 == 0 ? 0 : x % 4 == 1 ? 1 : 2 + (unsigned) (x >> 8) % 120;
        st[i] = {fn, data, {&team, (int) i, me.level + 1, first ? 1u : 0u, first}, delay};
    }
    for (unsigned i = 1; i < n; i++) if (pthread_create(&th[i], nullptr, run_thread, &st[i])) abort();
    run_body(&st[0]);
    for (unsigned i = 1; i < n; i++) pthread_join(th[i], nullptr);
}
std::mutex g_critical, g_atomic;
std::map<void**, std::mutex*>& named() { static std::map<void**, std::mutex*> m; return m; }
std::mutex g_named;
Loop* share_loop(long s, long e, long i, long c, bool guided) {
    if (!me.team) { static thread_local Team solo(1); me.team = &solo; }
    unsigned k = me.share++;
    std::lock_guard<std::mutex> l(me.team->m);
    Loop*& p = me.team->loops[k];
    if (!p) { p = new Loop; p->next = s; p->end = e; p->incr = i; p->chunk = c < 1 ? 1 : c; p->guided = guided; }
    return p;
}
bool take(long* a, long* b) {
    Loop* p = me.loop;
    std::lock_guard<std::mutex> l(p->m);
    if (p->incr > 0 ? p->next >= p->end : p->next <= p->end) return false;
    *a = p->next;
    long n = p->next + p->incr * p->chunk;
    if (p->incr > 0 ? n > p->end : n < p->end) n = p->end;
    p->next = *b = n;
    return true;
}
Loop* fresh(long s, long e, long i, long c) { Loop* p = new Loop; p->next = s; p->end = e; p->incr = i; p->chunk = c < 1 ? 1 : c; p->guided = false; return p; }
struct Body { void (*fn)(void*); void* data; };
}
void shim_seed(unsigned long long s) { g_seed = s; }
unsigned long long shim_regions() { return g_regions; }
extern "C" {
void omp_set_num_threads(int n) { g_threads = n < 1 ? 1 : n; }
int omp_get_num_threads() { return me.team ? me.team->n : 1; }
int omp_get_max_threads() { return g_threads; }
int omp_get_thread_num() { return me.team ? me.id : 0; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return me.team && me.team->n > 1; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
int omp_get_level() { return me.level; }
int omp_get_thread_limit() { return 16; }
double omp_get_wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
typedef struct { pthread_mutex_t* m; } shim_lock;
void omp_init_lock(void** l) { pthread_mutex_t* m = new pthread_mutex_t; pthread_mutex_init(m, nullptr); *l = m; }
void omp_destroy_lock(void** l) { pthread_mutex_destroy((pthread_mutex_t*) *l); delete (pthread_mutex_t*) *l; }
void omp_set_lock(void** l) { pthread_mutex_lock((pthread_mutex_t*) *l); }
void omp_unset_lock(void** l) { pthread_mutex_unlock((pthread_mutex_t*) *l); }
int omp_test_lock(void** l) { return pthread_mutex_trylock((pthread_mutex_t*) *l) == 0; }
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n); return n ? n : g_threads; }
void GOMP_barrier() { if (me.team) me.team->barrier(); }
void GOMP_critical_start() { g_critical.lock(); }
void GOMP_critical_end() { g_critical.unlock(); }
void GOMP_critical_name_start(void** p) { std::mutex* m; { std::lock_guard<std::mutex> l(g_named); std::mutex*& x = named()[p]; if (!x) x = new std::mutex; m = x; } m->lock(); }
void GOMP_critical_name_end(void** p) { std::mutex* m; { std::lock_guard<std::mutex> l(g_named); m = named()[p]; } m->unlock(); }
void GOMP_atomic_start() { g_atomic.lock(); }
void GOMP_atomic_end() { g_atomic.unlock(); }
bool GOMP_single_start() { if (!me.team) return true; unsigned k = me.share++; std::lock_guard<std::mutex> l(me.team->m); return me.team->singles[k]++ == 0; }
#define LOOPS(NAME, GUIDED) \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* a, long* b) { me.loop = share_loop(s, e, i, c, GUIDED); return take(a, b); } \
    bool GOMP_loop_##NAME##_next(long* a, long* b) { return take(a, b); } \
    void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned) { parallel(fn, data, n, fresh(s, e, i, c)); }
#define LOOPS_RT(NAME) \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long* a, long* b) { me.loop = share_loop(s, e, i, 1, false); return take(a, b); } \
    bool GOMP_loop_##NAME##_next(long* a, long* b) { return take(a, b); } \
    void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned) { parallel(fn, data, n, fresh(s, e, i, 1)); }
LOOPS(dynamic, false) LOOPS(guided, true) LOOPS(nonmonotonic_dynamic, false) LOOPS(nonmonotonic_guided, true) LOOPS(static, false)
LOOPS_RT(runtime) LOOPS_RT(nonmonotonic_runtime) LOOPS_RT(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { if (me.team) me.team->barrier(); }
void GOMP_loop_end_nowait() {}
unsigned GOMP_sections_start(unsigned n) { me.loop = share_loop(1, n + 1, 1, 1, false); long a, b; return take(&a, &b) ? (unsigned) a : 0; }
unsigned GOMP_sections_next() { long a, b; return take(&a, &b) ? (unsigned) a : 0; }
void GOMP_sections_end() { if (me.team) me.team->barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned) { parallel(fn, data, n, fresh(1, count + 1, 1, 1)); }
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
    if (cpy) { char* buf = (char*) malloc(size + align); char* arg = (char*) (((uintptr_t) buf + align - 1) & ~(uintptr_t) (align - 1)); cpy(arg, data); fn(arg); free(buf); } else fn(data);
}
void GOMP_taskwait() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
}
