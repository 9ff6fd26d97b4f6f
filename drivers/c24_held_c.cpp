// C24: the parallel priority queue returns external arrays as they are consumed.
#include "c24_held.h"
#if STXXL_PARALLEL
#include "records.h"
#include <stxxl/bits/containers/parallel_priority_queue.h>
using namespace stxxl;
typedef Rec<uint32_t, 8> R16; template <class T> struct GreaterQ : Greater<T> { };
template <unsigned B> static void ppqs(vp::Ctx& ctx) {
    typedef parallel_priority_queue<R16, GreaterQ<R16>, STXXL_DEFAULT_ALLOC_STRATEGY, B> PQ; vp::Rng& r = ctx.rng; Held held; std::string tr; const size_t N = B / sizeof(R16);
    {
        unsigned heaps = 1, isz, esz = 3; size_t heap, limit, most = 0; std::unique_ptr<PQ> q; size_t n = 0; uint32_t id = 0;
        auto mk = [&]() {
            heaps = (unsigned)r.range(1, 4); heap = r.range(8, 2 * N) * sizeof(R16); limit = r.range(4, 4 * N); unsigned wb = (unsigned)r(20); size_t wpool = std::max<size_t>(wb, 6 * std::max<size_t>(heaps, config::get_instance()->disks_number()));
            size_t mem = 7 * heaps * heap + wpool * B + (80 + r(200)) * B; isz = (unsigned)r.range(4, 12); esz = (unsigned)r.range(3, 8); most = 2 * mem / sizeof(R16);
            PQ* p = new PQ(GreaterQ<R16>(), mem, 1.5f + (float)r(10) / 4, wb, heaps, heap, limit * sizeof(R16)); p->c_max_internal_level_size = isz; p->c_max_external_level_size = esz; return p; };
        q.reset(mk());
        // an external array may hold a partly consumed block and a block that is not full
        auto see = [&](const char* when) { held.atmost((n / N + 1 + 2 * 8 * esz) * B, std::string(when) + " by a parallel priority queue of " + std::to_string(n) + " elements, ops " + tr); };
        uint32_t low = 1; auto val = [&]() { return R16(low + (uint32_t)(r.next() >> 40), id++); };
        for (unsigned o = (unsigned)r.range(4, 20); o--; ) {
            unsigned op = (unsigned)r(8); size_t c = r.chance(1, 3) ? r(300) : r(12000); ctx.note(op); ctx.note(c); tr += (char)('a' + op) + std::to_string(c);
            if (op <= 2 && n + c > most) op = 4;
            if (op == 0) { for (size_t i = 0; i < c; ++i) { q->push(val(), (unsigned)r(heaps)); ++n; } }
            else if (op <= 2) { q->bulk_push_begin(c); for (size_t i = 0; i < c; ++i) { q->bulk_push(val(), (unsigned)(i % heaps)); ++n; } q->bulk_push_end(); }
            else if (op <= 4) { if (op == 4 && r.chance(1, 2)) c = n; for (size_t i = 0; i < c && n; ++i) { q->pop(); --n; if (r.chance(1, 2000)) see("while popping"); } if (!n) vp::count("drained"); }
            else if (op == 5) { std::vector<R16> out; for (int k = 0; k < 20 && n; ++k) { out.clear(); q->bulk_pop(out, r(limit)); n -= out.size(); } }
            else if (op == 6) { for (size_t i = 0; i < c; ++i) { if (n && (n > most || r.chance(1, 2))) { q->pop(); --n; } else { q->push(val(), (unsigned)r(heaps)); ++n; } } }
            else if (r.chance(1, 2)) { vp::count(vp::monitor_stat().live_bytes ? "ppq_destroyed_with_blocks" : "recreated"); q.reset(); n = 0; held.none("after a parallel priority queue was destroyed, ops " + tr); q.reset(mk()); vp::count("recreated"); }
            VP_EQ((size_t)q->size(), n, "pq-size", "ops " << tr); see("held"); vp::count("ppq_ops");
        }
        if (vp::monitor_stat().live_bytes) vp::count("ppq_destroyed_with_blocks");
    }
    held.none("after the parallel priority queue was destroyed, ops " + tr); vp::nontrivial(ctx.h);
}
VP_SCENARIO(held_ppq, 40, 2000) { if (ctx.rng.chance(1, 2)) ppqs<4096>(ctx); else ppqs<8192>(ctx); }
#endif
