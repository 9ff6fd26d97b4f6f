// Internal memory in use, seen from the allocator, while containers and algorithms work on far more data than their budget.
#ifndef C27_MEMORY_H
#define C27_MEMORY_H
#include "vp.h"
#include "vp_monitor.h"
extern "C" { size_t __sanitizer_get_allocated_size(const volatile void*); int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)); }
#include <stxxl/all>
#include <stxxl/sorter>
#include <stxxl/bits/containers/parallel_priority_queue.h>
#include <stxxl/bits/containers/sequence.h>
#include <stxxl/bits/containers/matrix.h>
#include <stxxl/ksort>
#include <stxxl/stable_ksort>
#include <atomic>
#include <algorithm>
#include <numeric>
#include <functional>

namespace mem {
typedef uint64_t u64;
extern std::atomic<long long> cur, peak, calls;
extern std::atomic<bool> on;
void install();
// greatest amount of memory that was in use at once since the object was made, above what was in use then
struct Meter {
    long long base;
    Meter() { install(); base = cur; peak = base; on = true; }
    ~Meter() { on = false; }
    long long top() const { return peak - base; }
    long long now() const { return cur - base; }
    void restart() { peak = cur.load(); }
};
const long long PER_BLOCK = 320;    // bookkeeping of one external block: its BID, page or run tables, trigger elements, index nodes (bytes, without the elements themselves)
const long long ALIGN = 4096 + 64;    // what aligning a block in memory costs at most
const long long SLACK = 48 * 1024;  // requests, exceptions, objects of the queues

void measured(const char* what, const char* phase, long long seen, long long limit, long long budget);

// one phase: no more in use than the budget (with the buffers the documentation or the constructor adds), bookkeeping per external block, and the slack
inline void within(const char* what, const char* phase, const Meter& m, long long budget, long long blocks, long long per = PER_BLOCK, long long slack = SLACK)
{
    long long limit = budget + blocks * per + slack; measured(what, phase, m.top(), limit, budget);
    VP_CHECK(m.top() <= limit, std::string("memory-over-budget ") + what, what << ", " << phase << ": " << m.top() << " bytes of internal memory in use at once, budget " << budget << ", " << blocks << " external blocks of data");
}
// after the phase ended, what is still held
inline void left(const char* what, const char* phase, const Meter& m, long long budget, long long blocks, long long per = PER_BLOCK, long long slack = SLACK)
{
    long long limit = budget + blocks * per + slack; measured(what, phase, m.now(), limit, budget);
    VP_CHECK(m.now() <= limit, std::string("memory-kept ") + what, what << ", " << phase << ": " << m.now() << " bytes of internal memory still in use, expected at most " << budget << ", " << blocks << " external blocks of data");
}
// the library's own structures (queues, statistics, thread pools) come into being on first use
inline void warm()
{
    static bool done = false; if (done) return; done = true;
    stxxl::vector<u64, 2, stxxl::lru_pager<4>, 16384> v(100000);
    { stxxl::vector<u64, 2, stxxl::lru_pager<4>, 16384>::bufwriter_type w(v); vp::Rng q(1); for (size_t i = 0; i < 100000; ++i) w << q.next(); w.finish(); }
    struct L { bool operator () (u64 a, u64 b) const { return a < b; } u64 min_value() const { return 0; } u64 max_value() const { return ~0ull; } };
    stxxl::sort(v.begin(), v.end(), L(), 40 * 16384);
}
}
#endif
