// C17: the parallel priority queue against a multiset.
#include "vp.h"
#include "vp_monitor.h"
#include "records.h"
#include <stxxl/bits/containers/parallel_priority_queue.h>
#include <map>
#include <memory>
#include <set>
#if STXXL_PARALLEL
#include <omp.h>
#endif
using namespace stxxl;
template <class T> struct Model { // the live elements, by key
    typedef typename T::key_type K; std::map<K, std::set<uint64_t> > m; size_t n; Model() : n(0) { }
    void add(const T& t) { VP_CHECK(m[t.key()].insert(t.ident()).second || true, "harness", "identity used twice"); ++n; }
    void take(const T& t, const std::string& tr) { VP_CHECK(t.intact(), "content", "an element was damaged, ops " << tr); typename std::map<K, std::set<uint64_t> >::iterator it = m.find(t.key()); VP_CHECK(it != m.end() && it->second.erase(t.ident()), "not-inserted", "delivered an element which is not in the queue (lost, repeated or invented): key " << (uint64_t)t.key() << ", ops " << tr); if (it->second.empty()) m.erase(it); --n; }
    bool has(const T& t) const { typename std::map<K, std::set<uint64_t> >::const_iterator it = m.find(t.key()); return it != m.end() && it->second.count(t.ident()); }
};
template <class T, class C, class A> static void ppqs(vp::Ctx& ctx) {
    typedef parallel_priority_queue<T, C, A, 4096> PQ; vp::Rng& r = ctx.rng; C cmp; std::string tr; vp::MonStat before = vp::monitor_stat(); const size_t N = 4096 / sizeof(T);
    {
        unsigned heaps = 1; size_t heap = 0, limit = 0, mem = 0; unsigned isz = 64, esz = 64; std::unique_ptr<PQ> q; Model<T> m; uint32_t id = 0; unsigned dist = (unsigned)r(DIST_COUNT); uint64_t par = r.next(); size_t made = 0; bool big = r.chance(1, 3);
        auto mk = [&]() {
            heaps = (unsigned)r.range(1, 5); heap = (r.chance(1, 3) ? r.range(1, 8) : r.range(8, 3 * N)) * sizeof(T); limit = r.range(4, 6 * N); unsigned wb = (unsigned)r(20); float rb = 1.5f + (float)r(10) / 4; size_t wpool = std::max<size_t>(wb, 6 * std::max<size_t>(heaps, config::get_instance()->disks_number()));
            mem = 3 * heaps * heap + wpool * 4096 + 4 * heaps * heap + (big ? 200 + r(400) : 60 + r(r.chance(1, 2) ? 60 : 600)) * 4096; isz = r.chance(1, 3) ? 64 : (unsigned)r.range(4, 12); esz = r.chance(1, 3) ? 64 : (unsigned)r.range(3, 9);
            tr += " [" + std::to_string(heaps) + " heaps of " + std::to_string(heap / sizeof(T)) + ", buffer " + std::to_string(limit) + ", " + std::to_string(mem / 4096) + " blocks, " + std::to_string(rb) + " per array, levels " + std::to_string(isz) + "/" + std::to_string(esz) + "]"; vp::count("queues");
            PQ* p = new PQ(cmp, mem, rb, wb, heaps, heap, limit * sizeof(T)); p->c_max_internal_level_size = isz; p->c_max_external_level_size = esz; return p; };
        q.reset(mk());
        auto value = [&]() { if (++made % 500 == 0 && r.chance(1, 3)) dist = (unsigned)r(DIST_COUNT); return T(dist_key<typename T::key_type>(r, dist, made % 2000, 2000, par), id++); };
        auto best = [&]() { return cmp(T(m.m.begin()->first, 0), T(m.m.rbegin()->first, 0)) ? m.m.rbegin()->first : m.m.begin()->first; };
        auto sized = [&]() { VP_EQ((size_t)q->size(), m.n, "size", "size(), ops " << tr); VP_EQ(q->empty(), m.n == 0, "size", "empty(), ops " << tr); };
        auto one = [&](const T& t, const char* what) { VP_CHECK(m.n, "not-inserted", "the empty queue delivered an element"); VP_EQ((uint64_t)t.key(), (uint64_t)best(), "order", what << ", " << m.n << " elements, ops " << tr); m.take(t, tr); };
        auto bulk = [&](const std::vector<T>& v, const char* what) { for (const T& t : v) one(t, what); };
        for (unsigned o = (unsigned)r.range(4, 26); o--; ) {
            unsigned op = (unsigned)r(12); size_t c = r.chance(1, 3) ? r(20) : r.boundary(std::max<size_t>(1, heap / sizeof(T)), 8); if (r.chance(1, big ? 2 : 6)) c = r(big ? 20000 : 6000); if (m.n + (op < 5 || op > 8 ? c : 0) > (big ? 4 * mem : 2 * mem) / sizeof(T) && (op < 5 || op > 8)) op = (unsigned)r.range(5, 7); if (big && m.n < 10000 && op > 3 && r.chance(1, 2)) op = (unsigned)r(4); ctx.note(op); ctx.note(c); tr += (char)('a' + op) + std::to_string(c);
            switch (op) {
            case 0: { bool any = r.chance(1, 2); unsigned h = (unsigned)r(heaps); for (size_t i = 0; i < c; ++i) { T t = value(); if (any) h = (unsigned)r(heaps); q->push(t, h); m.add(t); if (r.chance(1, 20)) { const T& x = q->top(); VP_EQ((uint64_t)x.key(), (uint64_t)best(), "order", "top() while pushing, ops " << tr); VP_CHECK(m.has(x), "not-inserted", "top() is not in the queue, ops " << tr); } } vp::count("pushes", c); break; }
            case 1: case 2: { // several threads push into heaps of their own
                unsigned th = (unsigned)r.range(1, heaps); std::vector<std::vector<T> > part(th); for (size_t i = 0; i < c; ++i) { T t = value(); part[r(th)].push_back(t); m.add(t); } bool own = r.chance(1, 2); q->bulk_push_begin(c);
#if STXXL_PARALLEL
                if (r.chance(3, 4)) {
#pragma omp parallel num_threads(th)
                    { unsigned me = (unsigned)omp_get_thread_num(); if (omp_get_num_threads() == (int)th) { for (const T& t : part[me]) if (own) q->bulk_push(t); else q->bulk_push(t, me); } else
#pragma omp single
                      for (unsigned k = 0; k < th; ++k) for (const T& t : part[k]) q->bulk_push(t, k); }
                    vp::count(th > 1 ? "parallel_bulks" : "bulks");
                } else
#endif
                { for (unsigned k = 0; k < th; ++k) for (const T& t : part[k]) if (own) q->bulk_push(t); else q->bulk_push(t, k); vp::count("bulks"); }
                q->bulk_push_end(); break; }
            case 3: { for (size_t i = 0; i < c; ++i) { if (m.n && r.chance(1, 2)) { one(q->top(), "top() among pushes"); q->pop(); } else { T t = value(); q->push(t, (unsigned)r(heaps)); m.add(t); } } vp::count("mixed"); break; }
            case 4: case 5: { if (op == 5) c = m.n; for (size_t i = 0; i < c && m.n; ++i) { T x = q->top(); VP_CHECK(m.has(x), "not-inserted", "top() is not in the queue, ops " << tr); one(x, "top()"); q->pop(); if (r.chance(1, 50)) sized(); vp::count("pops"); } if (!m.n) vp::count("drained"); break; }
            case 6: case 7: { for (int k = (int)r.range(1, op == 6 ? 3 : 40); k--; ) { std::vector<T> out; size_t want = r.chance(1, 3) ? r(4) : r(limit); size_t had = m.n; q->bulk_pop(out, want); VP_CHECK(out.size() <= want, "too-many", "bulk_pop() of " << want << " delivered " << out.size() << ", ops " << tr); VP_CHECK(!out.empty() || !want || !had, "too-few", "bulk_pop() of " << want << " delivered nothing although the queue has " << had << " elements, ops " << tr); bulk(out, "bulk_pop()"); sized(); vp::count("bulk_pops"); if (out.size() < std::min(want, had)) vp::count("short_bulk_pops"); } break; }
            case 8: { T lim = m.n && r.chance(3, 4) ? T(r.chance(1, 2) ? best() : m.m.lower_bound(value().key()) == m.m.end() ? best() : m.m.lower_bound(value().key()) == m.m.end() ? best() : m.m.begin()->first, 0) : value(); size_t mx = r.chance(1, 3) ? r(500) : ~(size_t)0; int rounds = 0;
                for (;;) { std::vector<T> out; bool full = q->bulk_pop_limit(out, lim, mx); VP_CHECK(out.size() <= mx, "too-many", "bulk_pop_limit() of " << mx << " delivered " << out.size() << ", ops " << tr); for (const T& t : out) VP_CHECK(cmp(lim, t), "beyond-limit", "bulk_pop_limit() delivered key " << (uint64_t)t.key() << " for the limit " << (uint64_t)lim.key() << ", ops " << tr); bulk(out, "bulk_pop_limit()"); sized(); vp::count("limit_pops");
                    if (full) { VP_CHECK(!m.n || !cmp(lim, T(best(), 0)), "not-full", "bulk_pop_limit() claims to have delivered everything before the limit, key " << (uint64_t)best() << " is left, limit " << (uint64_t)lim.key() << ", ops " << tr); break; }
                    if (mx) VP_CHECK(!out.empty() || ++rounds < 3, "no-progress", "bulk_pop_limit() delivers nothing and does not finish, " << m.n << " elements, limit " << (uint64_t)lim.key() << ", ops " << tr); if (r.chance(1, 3)) break; }
                break; }
            case 9: case 10: { // a session with a limit: pops before the limit, pushes behind it
                T lim = r.chance(1, 4) && m.n ? T(best(), id++) : value(); q->limit_begin(lim, c); size_t pops = 0, pushes = 0; unsigned bias = (unsigned)r.range(1, 9);
                for (size_t i = 0; i < c; ++i) {
                    if (r.chance(bias, 10)) { const T& t = q->limit_top(); bool more = m.n && cmp(lim, T(best(), 0)); if (!more) { VP_EQ((uint64_t)t.key(), (uint64_t)lim.key(), "order", "limit_top() without elements before the limit, ops " << tr); vp::count("limit_sentinels"); if (bias > 7) break; continue; } T x = t; VP_CHECK(m.has(x), "not-inserted", "limit_top() is not in the queue, ops " << tr); if (r.chance(1, 4)) { const bool flood = r.chance(1, 8) && m.n < 2 * mem / sizeof(T); if (flood) vp::count("floods_between_top_and_pop"); for (int k = (int)r.range(1, flood ? 3 * heaps * heap / sizeof(T) + 3 : 3); k--; ++pushes) { T y = value(); if (cmp(lim, y)) y = T(lim.key(), y.id); q->limit_push(y, (unsigned)r(heaps)); m.add(y); } vp::count("pushes_between_top_and_pop"); if (m.m[x.key()].size() > 1) x = q->limit_top(); /* which of several equals comes first may change */ } one(x, "limit_top()"); q->limit_pop(); ++pops; }
                    else { T t = value(); if (cmp(lim, t)) t = T(lim.key(), t.id); q->limit_push(t, (unsigned)r(heaps)); m.add(t); ++pushes; }
                }
                q->limit_end(); vp::count("limit_sessions"); vp::count("limit_session_pops", pops); vp::count("limit_session_pushes", pushes); break; }
            default: if (r.chance(1, 2)) { vp::count(m.n ? "destroyed_nonempty" : "destroyed_empty"); q.reset(); VP_EQ(vp::monitor_stat().live_bytes, before.live_bytes, "leak", "external memory after destruction, ops " << tr); m = Model<T>(); q.reset(mk()); break; } }
            sized(); VP_CHECK(q->memory_consumption() <= mem, "memory", "memory_consumption() " << q->memory_consumption() << " exceeds the limit of " << mem << ", ops " << tr); vp::count("ops");
            if (vp::monitor_stat().live_bytes > before.live_bytes) vp::count("ops_with_external_data");
        }
        if (r.chance(1, 2)) { while (m.n) { one(q->top(), "final top()"); q->pop(); } sized(); vp::count("drained"); }
    }
    VP_EQ(vp::monitor_stat().live_bytes, before.live_bytes, "leak", "external memory after destruction, ops " << tr); vp::nontrivial(ctx.h); if (r.chance(1, 40)) vp::sample(tr);
}
// so much more data than memory that external arrays are merged, several levels deep
template <class T, class C, class A> static void levels(vp::Ctx& ctx) {
    typedef parallel_priority_queue<T, C, A, 4096> PQ; vp::Rng& r = ctx.rng; C cmp; std::string tr; vp::MonStat before = vp::monitor_stat();
    {
        unsigned heaps = (unsigned)r.range(1, 3); size_t heap = r.range(4, 200) * sizeof(T), mem = 7 * heaps * heap + std::max<size_t>(6 * std::max<size_t>(heaps, config::get_instance()->disks_number()), 6 * 8) * 4096 + r.range(60, 160) * 4096, esz = r.range(2, 5), limit = r.range(100, 2000), much = (size_t)r.range(sizeof(T) < 32 ? 8 : 12, sizeof(T) < 32 ? 14 : 26) * mem / 4096; mem += (much + much / 3 + 100) * (sizeof(T) + 100) + 30 * 4096; // room for what is kept about each block, while arrays are merged too
        PQ q(cmp, mem, 1.5f + (float)r(10) / 4, (unsigned)r(20), heaps, heap, limit * sizeof(T)); if (r.chance(1, 2)) q.c_max_internal_level_size = r.range(4, 12); q.c_max_external_level_size = esz;
        tr = "[" + std::to_string(heaps) + " heaps of " + std::to_string(heap / sizeof(T)) + ", " + std::to_string(mem / 4096) + " blocks, external level size " + std::to_string(esz) + "]";
        Model<T> m; uint32_t id = 0; unsigned dist = (unsigned)r(DIST_COUNT); uint64_t par = r.next(); const size_t cap = much * (4096 / sizeof(T));
        auto value = [&]() { if (id % 5000 == 0) dist = (unsigned)r(DIST_COUNT); T t(dist_key<typename T::key_type>(r, dist, id % 2000, 2000, par), id); ++id; return t; };
        auto best = [&]() { return cmp(T(m.m.begin()->first, 0), T(m.m.rbegin()->first, 0)) ? m.m.rbegin()->first : m.m.begin()->first; };
        auto one = [&](const T& t, const char* what) { VP_CHECK(m.n, "not-inserted", "the empty queue delivered an element"); VP_EQ((uint64_t)t.key(), (uint64_t)best(), "order", what << ", " << m.n << " elements, " << tr); m.take(t, tr); };
        auto sized = [&]() { VP_EQ((size_t)q.size(), m.n, "size", "size(), " << tr); VP_CHECK(q.memory_consumption() <= mem, "memory", "memory_consumption() " << q.memory_consumption() << " exceeds the limit of " << mem << ", " << tr); };
        auto pops = [&](size_t c) { bool bulk = r.chance(1, 2); while (c && m.n) { if (bulk) { std::vector<T> out; q.bulk_pop(out, (size_t)r.range(1, limit - 1)); VP_CHECK(!out.empty(), "too-few", "bulk_pop() delivers nothing of " << m.n << " elements, " << tr); for (const T& t : out) one(t, "bulk_pop()"); c -= std::min(c, out.size()); } else { one(q.top(), "top()"); q.pop(); --c; } } };
        unsigned waves = (unsigned)r.range(1, 3); uint64_t ext = 0;
        for (unsigned w = 0; w < waves; ++w) {
            while (m.n < cap) {
                size_t c = (size_t)r.range(1, 4000);
                if (r.chance(1, 2)) { unsigned h = (unsigned)r(heaps); for (size_t i = 0; i < c; ++i) { T t = value(); q.push(t, h); m.add(t); } }
                else { q.bulk_push_begin(c); for (size_t i = 0; i < c; ++i) { T t = value(); q.bulk_push(t, (unsigned)r(heaps)); m.add(t); } q.bulk_push_end(); }
                if (r.chance(1, 6)) pops((size_t)r.range(1, 1000));
                sized(); ext = std::max<uint64_t>(ext, vp::monitor_stat().live_bytes - before.live_bytes);
            }
            pops(r.chance(1, 3) || w + 1 == waves ? m.n : r(m.n)); sized();
        }
        if (ext >= 3 * mem) vp::count("data_of_three_memories_outside"); vp::count("level_runs"); ctx.note(id); ctx.note(esz);
    }
    VP_EQ(vp::monitor_stat().live_bytes, before.live_bytes, "leak", "external memory after destruction, " << tr); vp::nontrivial(ctx.h); if (r.chance(1, 20)) vp::sample(tr);
}
typedef Rec<uint32_t, 8> R16; typedef Rec<uint64_t, 100> R112;
static void p1(vp::Ctx& c) { ppqs<R16, Less<R16>, STXXL_DEFAULT_ALLOC_STRATEGY>(c); } static void p2(vp::Ctx& c) { ppqs<R112, Greater<R112>, striping>(c); }
VP_SCENARIO(ppq_16, 80, 4000) { p1(ctx); }
VP_SCENARIO(ppq_112, 80, 4000) { p2(ctx); }
VP_SCENARIO(levels_16, 4, 100) { levels<R16, Less<R16>, STXXL_DEFAULT_ALLOC_STRATEGY>(ctx); }
VP_SCENARIO(levels_112, 8, 200) { levels<R112, Greater<R112>, striping>(ctx); }
