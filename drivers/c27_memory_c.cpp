#include "c27_memory.h"
// map, hash map, priority queues, matrix
using namespace stxxl; using namespace mem;
namespace {
struct Less { bool operator () (u64 a, u64 b) const { return a < b; } static u64 min_value() { return 0; } static u64 max_value() { return ~0ull; } };
struct Gr { bool operator () (u64 a, u64 b) const { return a > b; } u64 min_value() const { return ~0ull; } };
struct H { size_t operator () (u64 k) const { return (size_t)vp::mix(k); } };
// nodes and leaves in the caches, and the pools of both
template <unsigned NB, unsigned LB> void maps(vp::Ctx& ctx)
{
    warm(); typedef stxxl::map<u64, u64, Less, NB, LB> M; u64 nn = ctx.rng.range(6, 24), ln = ctx.rng.range(6, 24), base = ctx.rng.range(40, 80); const long long budget = (long long)(nn * (NB + ALIGN) + ln * (LB + ALIGN)); int order = (int)ctx.rng(3); ctx.note(nn * 10000 + ln * 100 + base); long long small = 0;
    for (int f = 1; f <= 4; f *= 4) {
        u64 leaves = base * (u64)f, n = leaves * LB / 16 * 2 / 3; vp::Rng q(ctx.rng.next()); u64 at = 0; Meter m; { M s(nn * NB, ln * LB);
            for (u64 i = 0; i < n; ++i) { if (i % 16 == 0) at = q.next() >> 2; s[order == 0 ? i : order == 1 ? n - i : at + i % 16] = i; } // a few neighbours each, or it takes ages on slow disks
            const long long bl = 2 * (long long)leaves; within("map", "inserting", m, budget, bl, PER_BLOCK, SLACK + 2 * (NB + LB)); m.restart();
            for (int i = 0; i < 500; ++i) s.find(order == 2 ? q.next() >> 2 : q(n)); within("map", "finding", m, budget, bl, PER_BLOCK, SLACK + 2 * (NB + LB)); m.restart();
            if (ctx.rng.chance(1, 2)) { s.enable_prefetching(); u64 k = 0, last = 0; for (typename M::iterator i = s.begin(); i != s.end(); ++i, ++k) { VP_CHECK(k == 0 || i->first > last, "wrong order", ""); last = i->first; } within("map", "iterating", m, budget, bl, PER_BLOCK, SLACK + 2 * (NB + LB)); m.restart(); }
            if (ctx.rng.chance(1, 2)) { while (s.size() > n / 4) { at = order == 2 ? q.next() >> 2 : q(n); for (int k = 0; k < 16; ++k) { typename M::iterator i = s.lower_bound(at); if (i == s.end()) i = s.begin(); at = i->first; s.erase(i); } } within("map", "erasing", m, budget, bl, PER_BLOCK, SLACK + 2 * (NB + LB)); }
            if (f == 1) small = m.top(); else VP_CHECK(m.top() - small <= 2 * PER_BLOCK * (long long)(leaves - base) + SLACK / 2, "memory grows map", m.top() << " bytes for " << leaves << " leaves, " << small << " for " << base); }
        left("map", "gone", m, 0, 0); }
    vp::nontrivial(ctx.h); vp::count("maps");
}
// the buffer is for elements waiting in memory; the table has 2 words a bucket, the cache of subblocks and the buffers of a rebuild come on top
template <unsigned SB, unsigned K> void hashmaps(vp::Ctx& ctx)
{
    warm(); typedef stxxl::unordered_map<u64, u64, H, Less, SB, K> M; const size_t buf = (size_t)(ctx.rng.range(1, 4) << 18); u64 base = (buf / 16) * ctx.rng.range(1, 2); bool obl = ctx.rng.chance(2, 3), del = ctx.rng.chance(1, 2), hit = ctx.rng.chance(1, 2); ctx.note(buf * 4 + base + obl);
    const long long B = (long long)SB * K, disks = (long long)config::get_instance()->disks_number(), rebuild = (hash_map::tuning::get_instance()->prefetch_page_size + 2) * hash_map::tuning::get_instance()->prefetch_pages * B + 2 * disks * B * 2 + (long long)hash_map::tuning::get_instance()->blockcache_size * (B + ALIGN); long long small = 0;
    for (int f = 1; f <= 3; f *= 3) {
        u64 n = base * (u64)f; const long long bl = (long long)(n * 16 / SB) + 1; const u64 sd = ctx.rng.next(); vp::Rng q(sd); Meter m; { M s(2048, H(), Less(), buf);
            for (u64 i = 0; i < n; ++i) if (obl || i >= 300) s.insert_oblivious(typename M::value_type(q.next() >> 1, i)); else s.insert(typename M::value_type(q.next() >> 1, i));
            within("unordered_map", "inserting", m, (long long)buf, bl, PER_BLOCK, SLACK + rebuild); m.restart();
            for (int i = 0; i < 200; ++i) s.find(q.next() >> 1); within("unordered_map", "finding", m, (long long)buf, bl, PER_BLOCK, SLACK + rebuild);
            if (hit) { vp::Rng q2(sd); m.restart(); u64 most = 0, k = std::min<u64>(n, 40000); for (u64 i = 0; i < k; ++i) { u64 x = q2.next() >> 1; typename M::iterator it = s.find(x); VP_CHECK(it != s.end(), "wrong content", "key missing"); most = std::max<u64>(most, (u64)s.buffer_size()); } VP_CHECK(most <= (u64)s.max_buffer_size(), "buffer too large", most << " bytes buffered, " << s.max_buffer_size() << " allowed"); within("unordered_map", "finding what is there", m, (long long)buf, bl, PER_BLOCK, SLACK + rebuild); vp::count("hash_map_hits", k); }
            u64 c = 0; for (typename M::iterator i = s.begin(); i != s.end(); ++i) ++c; VP_EQ(c, (u64)s.size(), "wrong content", "elements"); within("unordered_map", "traversing", m, (long long)buf, bl, PER_BLOCK, SLACK + rebuild);
            if (del) { m.restart(); for (u64 i = 0; i < n; ++i) if (i % 2048 == 7) s.erase(q.next() >> 1); else s.erase_oblivious(q.next() >> 1); within("unordered_map", "erasing", m, (long long)buf, 2 * bl, PER_BLOCK, SLACK + rebuild); VP_EQ((u64)s.size(), c, "wrong content", "elements after erasing keys which are not there"); within("unordered_map", "counting", m, (long long)buf, 2 * bl, PER_BLOCK, SLACK + rebuild); vp::count("hash_map_tombstones", n); }
            if (f == 1) small = m.top(); else VP_CHECK(m.top() - small <= 2 * PER_BLOCK * bl + SLACK, "memory grows unordered_map", m.top() << " bytes for " << n << " elements, " << small << " for " << base); }
        left("unordered_map", "gone", m, 0, 0); }
    vp::nontrivial(ctx.h); vp::count("hash_maps");
}
// the generated queue uses at most its first parameter, the pool comes on top
template <unsigned Mem, unsigned MaxK> void pqs(vp::Ctx& ctx)
{
    warm(); typedef typename PRIORITY_QUEUE_GENERATOR<u64, Gr, Mem, MaxK>::result P; u64 pb = ctx.rng.range(2, 8), wb = ctx.rng.range(2, 8); const u64 B = P::BlockSize; const long long budget = Mem + Mem / 8 + (long long)((pb + wb) * B); const u64 base = (u64)MaxK * 1024 / 8; ctx.note(pb * 10 + wb);
    for (int f = 1; f <= 3; f += 2) {
        u64 n = base * (u64)f; vp::Rng q(ctx.rng.next()); Meter m; { P p(pb * B, wb * B); long long bl = (long long)(n * 8 / B + 1);
            for (u64 i = 0; i < n; ++i) p.push(q.next() >> 1); within("priority_queue", "pushing", m, budget, bl); m.restart();
            u64 last = 0; for (u64 i = 0; i < n / 2; ++i) { VP_CHECK(p.top() >= last, "wrong order", ""); last = p.top(); p.pop(); if (i % 5 == 0) p.push(last + (q.next() >> 8)); } within("priority_queue", "mixed", m, budget, 2 * bl); m.restart();
            while (!p.empty()) p.pop(); within("priority_queue", "popping", m, budget, 2 * bl); }
        left("priority_queue", "gone", m, 0, 0); }
    vp::nontrivial(ctx.h); vp::count("priority_queues");
}
template <unsigned B> void ppqs(vp::Ctx& ctx)
{
    warm(); typedef parallel_priority_queue<u64, Gr, STXXL_DEFAULT_ALLOC_STRATEGY, B> P; u64 ram = (ctx.rng.range(12, 40)) << 20, n = ram / 8 * ctx.rng.range(1, 2); unsigned heaps = (unsigned)ctx.rng.range(1, 3); ctx.note(ram + n + heaps); long long bl = (long long)(n * 8 / B);
    { Meter m; { P p(Gr(), ram, 1.5f, ctx.rng.range(0, 6), heaps, 64 * 1024); vp::Rng q(ctx.rng.next()); within("parallel_priority_queue", "made", m, (long long)ram, 0); m.restart();
        bool bulk = ctx.rng.chance(1, 2); for (u64 i = 0; i < n; ) if (bulk) { u64 k = std::min<u64>(n - i, q.range(1000, 50000)); p.bulk_push_begin(k); for (u64 j = 0; j < k; ++j) p.bulk_push(q.next() >> 1, (unsigned)(j % heaps)); p.bulk_push_end(); i += k; } else p.push(q.next() >> 1), ++i;
        within("parallel_priority_queue", "pushing", m, (long long)ram, bl); m.restart();
        u64 last = 0; for (u64 i = 0; i < n / 2; ++i) { u64 x = p.top(); VP_CHECK(x >= last, "wrong order", ""); last = x; p.pop(); } within("parallel_priority_queue", "popping", m, (long long)ram, bl); }
      left("parallel_priority_queue", "gone", m, 0, 0); }
    vp::nontrivial(ctx.h); vp::count("parallel_queues");
}
template <unsigned S> void matrices(vp::Ctx& ctx)
{
    warm(); typedef matrix<double, S> M; typedef block_scheduler<matrix_swappable_block<double, S> > Sch; const long long B = (long long)S * S * 8; u64 nb = ctx.rng.range(16, 40), side = ctx.rng.range(4, 6); const long long budget = (long long)nb * B; ctx.note(nb * 10 + side);
    { Meter m; { Sch sch(budget); size_t h = side * S - ctx.rng(S); M a(sch, h, h), b(sch, h, h);
        { typename M::row_major_iterator i = a.begin(); for (size_t j = 0; j < 3 * h; ++j, ++i) *i = (double)j; } { typename M::row_major_iterator i = b.begin(); for (size_t j = 0; j < 3 * h; ++j, ++i) *i = 1; } const long long bl = 12 * (long long)(side * side);
        within("matrix", "filling", m, budget, bl, PER_BLOCK, SLACK + B); m.restart(); { M c(a + b); within("matrix", "adding", m, budget, bl, PER_BLOCK, SLACK + B); m.restart(); int alg = (int)ctx.rng.range(1, 2), schd = (int)ctx.rng(3); M d(a.multiply(c, alg, schd)); within("matrix", alg == 1 ? "product" : "strassen", m, budget, 60 * bl, PER_BLOCK, SLACK + 2 * B); } }
      left("matrix", "gone", m, 0, 0); }
    vp::nontrivial(ctx.h); vp::count("matrices");
}
void maps_a(vp::Ctx& c) { maps<4096, 16384>(c); } void maps_b(vp::Ctx& c) { maps<16384, 4096>(c); }
void hash_a(vp::Ctx& c) { hashmaps<4096, 4>(c); } void hash_b(vp::Ctx& c) { hashmaps<8192, 2>(c); }
void pqs_a(vp::Ctx& c) { pqs<4 * 1024 * 1024, 2048>(c); } void pqs_b(vp::Ctx& c) { pqs<8 * 1024 * 1024, 8192>(c); }
}
VP_SCENARIO(maps_small, 9, 90) { maps_a(ctx); }
VP_SCENARIO(maps_large, 9, 90) { maps_b(ctx); }
VP_SCENARIO(hash_small, 6, 60) { hash_a(ctx); }
VP_SCENARIO(hash_large, 6, 60) { hash_b(ctx); }
VP_SCENARIO(pq_small, 6, 60) { pqs_a(ctx); }
VP_SCENARIO(pq_large, 3, 30) { pqs_b(ctx); }
VP_SCENARIO(ppq_, 6, 60) { ppqs<65536>(ctx); }
VP_SCENARIO(matrix_, 12, 90) { matrices<32>(ctx); }
