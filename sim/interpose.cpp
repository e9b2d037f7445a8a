// Seams for the clock and for memory allocation (link-time --wrap, operator new replacement).
#include "core.h"
#include <malloc.h>
#include <algorithm>
#include <new>
#include <time.h>
#include <errno.h>
#include <sys/time.h>
#include <stdarg.h>

namespace sim {
i64 g_steady_ns = 0, g_wall_ns = 0;
vector<TickAt> g_ticks;
u64 g_midop_ticks = 0; i64 g_midop_from = 0, g_midop_to = 0;
void (*g_on_midop_tick)() = nullptr;
int g_sut_depth = 0;
long g_alloc_countdown = -1, g_alloc_burst = 0;
u64 g_alloc_calls = 0, g_alloc_bytes = 0, g_alloc_failed = 0, g_alloc_min_size = 0;
i64 g_live_allocs = 0, g_live_bytes = 0;
bool g_clock_active = false;

static void clock_read() {
    if (g_ticks.empty() || g_sut_depth == 0) return;
    Harness h;
    if (--g_ticks[0].reads_left <= 0) {
        i64 from = g_steady_ns;
        g_steady_ns += g_ticks[0].add_ns;
        g_wall_ns += g_ticks[0].add_ns;
        g_sh->sim_ns += g_ticks[0].add_ns;
        g_ticks.erase(g_ticks.begin());
        count("fault.clock_tick_inside_operation");
        g_midop_ticks += 1; g_midop_from = from; g_midop_to = g_steady_ns;
        ev(fmt("tick inside operation +%lld", (long long)(g_midop_to - from)));
        if (g_on_midop_tick) g_on_midop_tick();
    }
}

/// decides whether this allocation of the code under test fails
static bool alloc_fails(size_t n) {
    if (g_sut_depth == 0) return false;
    if (n < g_alloc_min_size) return false;
    g_alloc_calls += 1; g_alloc_bytes += n;
    if (g_alloc_countdown < 0) return false;
    if (g_alloc_countdown > 0) { --g_alloc_countdown; return false; }
    if (g_alloc_burst > 0) {
        --g_alloc_burst;
        if (g_alloc_burst == 0) g_alloc_countdown = -1;
        g_alloc_failed += 1;
        Harness h; count("fault.allocation_failed");
        ev(fmt("allocation of %llu bytes failed", (unsigned long long)n));
        return true;
    }
    g_alloc_countdown = -1;
    return false;
}
} // namespace sim

using namespace sim;
extern "C" {
void * __real_malloc(size_t); void * __real_calloc(size_t, size_t); void * __real_realloc(void *, size_t);
void __real_free(void *);
void * __real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void **, size_t, size_t);
int __real_clock_gettime(clockid_t, struct timespec *); time_t __real_time(time_t *);
int __real_gettimeofday(struct timeval *, void *);

static void * taken(void * p) { if (g_sut_depth && p) { ++g_live_allocs; g_live_bytes += (i64)malloc_usable_size(p); } return p; }
static void given_back(void * p) { if (g_sut_depth && p) { --g_live_allocs; g_live_bytes -= (i64)malloc_usable_size(p); } }
void * __wrap_malloc(size_t n) { if (alloc_fails(n)) { errno = ENOMEM; return nullptr; } return taken(__real_malloc(n)); }
void * __wrap_calloc(size_t a, size_t b) { if (alloc_fails(a * b)) { errno = ENOMEM; return nullptr; } return taken(__real_calloc(a, b)); }
void * __wrap_realloc(void * p, size_t n) {
    if (alloc_fails(n)) { errno = ENOMEM; return nullptr; }
    const size_t old = g_sut_depth && p ? malloc_usable_size(p) : 0; g_moved += std::min(n, old);
    void * q = __real_realloc(p, n);
    if (g_sut_depth && p && (q || !n)) { --g_live_allocs; g_live_bytes -= (i64)old; }
    return taken(q);
}
void __wrap_free(void * p) { given_back(p); __real_free(p); }
void * __wrap_aligned_alloc(size_t a, size_t n) { if (alloc_fails(n)) { errno = ENOMEM; return nullptr; } return taken(__real_aligned_alloc(a, n)); }
int __wrap_posix_memalign(void ** p, size_t a, size_t n) { if (alloc_fails(n)) return ENOMEM; const int e = __real_posix_memalign(p, a, n); if (!e) taken(*p); return e; }

// std::chrono clocks
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { clock_read(); return g_steady_ns; }
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { clock_read(); return g_wall_ns; }
int __wrap_clock_gettime(clockid_t id, struct timespec * ts) {
    if (g_sut_depth == 0) return __real_clock_gettime(id, ts);
    clock_read();
    i64 v = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? g_wall_ns : g_steady_ns;
    ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; return 0;
}
time_t __wrap_time(time_t * t) {
    if (g_sut_depth == 0) return __real_time(t);
    clock_read(); time_t v = g_wall_ns / 1000000000; if (t) *t = v; return v;
}
int __wrap_gettimeofday(struct timeval * tv, void * tz) {
    if (g_sut_depth == 0) return __real_gettimeofday(tv, tz);
    clock_read(); tv->tv_sec = g_wall_ns / 1000000000; tv->tv_usec = g_wall_ns % 1000000000 / 1000; return 0;
}
}

static void * new_impl(size_t n) {
    if (alloc_fails(n)) return nullptr;
    return taken(__real_malloc(n ? n : 1));
}
void * operator new(size_t n) { void * p = new_impl(n); if (!p) throw std::bad_alloc(); return p; }
void * operator new[](size_t n) { void * p = new_impl(n); if (!p) throw std::bad_alloc(); return p; }
void * operator new(size_t n, const std::nothrow_t &) noexcept { return new_impl(n); }
void * operator new[](size_t n, const std::nothrow_t &) noexcept { return new_impl(n); }
static void del_impl(void * p) { given_back(p); __real_free(p); }
void operator delete(void * p) noexcept { del_impl(p); }
void operator delete[](void * p) noexcept { del_impl(p); }
void operator delete(void * p, size_t) noexcept { del_impl(p); }
void operator delete[](void * p, size_t) noexcept { del_impl(p); }
void operator delete(void * p, const std::nothrow_t &) noexcept { del_impl(p); }
void operator delete[](void * p, const std::nothrow_t &) noexcept { del_impl(p); }
