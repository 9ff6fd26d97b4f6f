#include "c27_memory.h"
namespace mem {
std::atomic<long long> cur(0), peak(0), calls(0); std::atomic<bool> on(false);
static void on_malloc(const volatile void* p, size_t) {
    long long n = (long long)__sanitizer_get_allocated_size(p), c = cur.fetch_add(n, std::memory_order_relaxed) + n;
    if (!on.load(std::memory_order_relaxed)) return;
    calls.fetch_add(1, std::memory_order_relaxed);
    long long q = peak.load(std::memory_order_relaxed); while (q < c && !peak.compare_exchange_weak(q, c, std::memory_order_relaxed)) { }
}
static void on_free(const volatile void* p) { if (p) cur.fetch_sub((long long)__sanitizer_get_allocated_size(p), std::memory_order_relaxed); }
void install() { static bool done = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) > 0; if (!done) abort(); }
void measured(const char* what, const char* phase, long long seen, long long limit, long long budget)
{
    vp::count("measurements"); vp::count("allocations_metered", (u64)calls.exchange(0)); vp::cov("measured", std::string(what) + ": " + phase);
    if (seen * 2 > budget) vp::count("measurements_above_half_of_the_budget");
    static bool log = getenv("VP_MEMLOG") != 0; if (log) fprintf(stderr, "MEM %-26s %-14s seen %9lld budget %9lld ratio %.3f over %8lld room %8lld (%.1f%% of the budget)\n", what, phase, seen, budget, seen / (double)(budget ? budget : 1), seen - budget, limit - seen, 100.0 * (limit - seen) / (budget ? budget : 1));
}
}
