// C09: several threads in the I/O and block management layers, each on its own blocks, judged by their own models
// and (in the ThreadSanitizer build) by the race detector. The harness adds no ordering between the threads.
#include "io_files.h"
#include "records.h"
#include <stxxl/mng>
#include <stxxl/vector>
#include <stxxl/stack>
#include <stxxl/queue>
#include <stxxl/deque>
#include <stxxl/sequence>
#include <stxxl/map>
#include <stxxl/unordered_map>
#include <stxxl/priority_queue>
#include <stxxl/sorter>
#include <stxxl/sort>
#include <stxxl/bits/mng/buf_writer.h>
#include <stxxl/bits/mng/buf_ostream.h>
#include <stxxl/bits/mng/buf_istream.h>
#include <stxxl/bits/mng/read_write_pool.h>
#include <stxxl/bits/mng/block_scheduler.h>
#include <deque>
#include <stack>
#include <map>
#include <queue>
#include <memory>
#include <functional>
using namespace stxxl;
namespace {
void fill(char* p, size_t n, uint64_t tag) { uint64_t* q = (uint64_t*)p; for (size_t i = 0; i < n / 8; ++i) q[i] = tag * 0x9e3779b97f4a7c15ull + i * 0xbf58476d1ce4e5b9ull; }
bool holds(const char* p, size_t n, uint64_t tag) { const uint64_t* q = (const uint64_t*)p; for (size_t i = 0; i < n / 8; ++i) if (q[i] != tag * 0x9e3779b97f4a7c15ull + i * 0xbf58476d1ce4e5b9ull) return false; return true; }
// runs f(t, rng) in T threads which start together (no happens-before edges between them)
struct Crew {
    std::vector<std::function<void(unsigned, vp::Rng&)> > jobs;
    void run(vp::Ctx& ctx) {
        std::atomic<unsigned> ready(0); std::vector<std::thread> th; const unsigned T = (unsigned)jobs.size(); std::vector<uint64_t> seeds; for (unsigned t = 0; t < T; ++t) seeds.push_back(ctx.rng.next());
        for (unsigned t = 0; t < T; ++t) th.emplace_back([&, t]() {
            vp::Rng r(seeds[t]); ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < T) sched_yield();
            try { jobs[t](t, r); } catch (vp::Failure& f) { vp::fail_async(f.key, f.what()); } catch (std::exception& e) { vp::fail_async("exception", std::string("a thread got an exception nobody else's work may cause: ") + e.what()); } });
        for (auto& x : th) x.join();
        vp::count("crews"); vp::count("threads", T);
    }
};
static const size_t BS = 4096;
// one thread's blocks in one file
struct Slots {
    file* f; Kind k; size_t first, step, n; uint64_t nreads, nwrites; std::vector<uint64_t> tag; std::vector<std::unique_ptr<Buf> > buf; std::vector<request_ptr> rq; std::vector<int> what; std::vector<uint64_t> want;
    Slots(file* f_, Kind k_, size_t first_, size_t step_, size_t n_) : f(f_), k(k_), first(first_), step(step_), n(n_), nreads(0), nwrites(0), tag(n_, 0), rq(n_), what(n_, 0), want(n_, 0) { for (size_t i = 0; i < n; ++i) buf.emplace_back(new Buf(BS)); }
    uint64_t off(size_t i) const { return (first + i * step) * BS; }
    void done(size_t i, bool wait, vp::Rng& r) { // what the request in slot i must have done
        if (rq[i].empty()) return;
        if (wait && r.chance(1, 5) && rq[i]->cancel()) { vp::count("cancelled"); rq[i] = request_ptr(); return; }
        if (wait) rq[i]->wait(); else VP_CHECK(rq[i]->poll(), "mt-completion", "wait_all() returned before a request was done");
        VP_CHECK(rq[i]->poll(), "mt-completion", "a request is not done after wait()");
        if (what[i] == 1) { tag[i] = want[i]; ++nwrites; } else { ++nreads; VP_CHECK(holds(buf[i]->p, BS, tag[i]), "mt-content", kind_name[k] << ": a thread read something else than it had written to its own block"); vp::count("blocks_verified"); }
        rq[i] = request_ptr(); }
    void step_one(vp::Rng& r, uint64_t me) {
        size_t i = r(n); done(i, true, r);
        if (!tag[i] || r.chance(1, 2)) { want[i] = (r.next() | 1) ^ me << 1; fill(buf[i]->p, BS, want[i]); what[i] = 1; rq[i] = f->awrite(buf[i]->p, off(i), BS); }
        else { memset(buf[i]->p, 0x5a, BS); what[i] = 2; rq[i] = f->aread(buf[i]->p, off(i), BS); }
        if (r.chance(1, 8)) { size_t j = r(n); if (!rq[j].empty()) rq[j]->poll(); }
        if (r.chance(1, 20)) f->size();
        if (r.chance(1, 20)) { std::vector<request_ptr> all; std::vector<size_t> ix; for (size_t j = 0; j < n; ++j) if (!rq[j].empty()) { all.push_back(rq[j]); ix.push_back(j); } if (all.size()) { if (r.chance(1, 2)) { wait_all(all.begin(), all.end()); for (size_t j : ix) done(j, false, r); vp::count("wait_alls"); } else { size_t w = wait_any(all.begin(), all.end()) - all.begin(); VP_CHECK(w < all.size() && all[w]->poll(), "mt-completion", "wait_any() returned a request which is not done"); vp::count("wait_anys"); } } }
    }
    void finish(vp::Rng& r) { for (size_t i = 0; i < n; ++i) done(i, true, r); }
    void verify(vp::Rng& r) { finish(r); for (size_t i = 0; i < n; ++i) if (tag[i]) { memset(buf[i]->p, 0, BS); what[i] = 2; rq[i] = f->aread(buf[i]->p, off(i), BS); } for (size_t i = 0; i < n; ++i) if (!rq[i].empty()) { rq[i]->wait(); done(i, false, r); } }
    ~Slots() { for (size_t i = 0; i < n; ++i) if (!rq[i].empty()) { try { rq[i]->wait(); } catch (...) { } } }
};
void shared_files(vp::Ctx& ctx) {
    vp::Rng& r = ctx.rng; const unsigned T = (unsigned)r.range(2, 6), F = (unsigned)r.range(1, 3); const size_t N = r.range(2, 8); std::vector<FileUnderTest> fs; struct G { std::vector<FileUnderTest>& v; ~G() { for (auto& u : v) delete u.f; } } g = { fs };
    uint64_t h = T * 10 + F;
    for (unsigned i = 0; i < F; ++i) { Kind k = (Kind)r(K_COUNT); vp::cov("access_method", kind_name[k]); h = h * 16 + k; fs.push_back(make_file(ctx, k, 20 + (int)r(3))); fs[i].f->set_size(T * N * BS * (k == K_WBTL ? 6 : 1)); }
    stats& st = *stats::get_instance(); const unsigned r0 = st.get_reads(), w0 = st.get_writes(); std::atomic<uint64_t> reads(0), writes(0); bool countable = true; for (auto& u : fs) if (u.kind == K_WBTL || u.kind == K_FPB_SYSCALL || u.kind == K_FPB_MMAP) countable = false;
    Crew c; unsigned ops = ctx.scale(40, 200);
    for (unsigned t = 0; t < T; ++t) c.jobs.push_back([&, t](unsigned me, vp::Rng& q) {
        std::vector<std::unique_ptr<Slots> > s; for (auto& u : fs) s.emplace_back(new Slots(u.f, u.kind, t, T, N));
        for (unsigned o = 0; o < ops; ++o) {
            s[q(s.size())]->step_one(q, me);
            if (q.chance(1, 25)) { stats_data d(*stats::get_instance()); VP_CHECK(d.get_reads() >= r0 && d.get_writes() >= w0, "mt-stats", "a snapshot of the statistics counts fewer transfers than before"); vp::count("snapshots"); }
            if (q.chance(1, 60)) { std::ostringstream os; os << *stats::get_instance(); VP_CHECK(os.str().size(), "mt-stats", "nothing printed"); }
        }
        for (auto& x : s) { x->verify(q); reads += x->nreads; writes += x->nwrites; } });
    c.run(ctx); ctx.note(h);
    if (countable) { VP_EQ((uint64_t)(st.get_reads() - r0), (uint64_t)reads, "mt-stats-lost", "reads counted for those of " << T << " threads"); VP_EQ((uint64_t)(st.get_writes() - w0), (uint64_t)writes, "mt-stats-lost", "writes counted for those of " << T << " threads"); vp::count("conservation_checks"); }
    ctx.note(reads); vp::nontrivial(ctx.h);
}
// files (and with them queues) come and go in every thread
void own_files(vp::Ctx& ctx) {
    vp::leak_exempt(); // new queues
    vp::Rng& r = ctx.rng; const unsigned T = (unsigned)r.range(2, 6); Crew c; unsigned rounds = ctx.scale(4, 12);
    for (unsigned t = 0; t < T; ++t) c.jobs.push_back([&ctx, rounds](unsigned me, vp::Rng& q) {
        for (unsigned i = 0; i < rounds; ++i) {
            Kind k = (Kind)q(K_COUNT); FileUnderTest u = make_file(ctx, k, 30 + (int)q(40)); struct G { file* f; ~G() { delete f; } } g = { u.f }; const size_t n = q.range(1, 6); u.f->set_size(n * BS * (k == K_WBTL ? 6 : 1));
            Slots s(u.f, k, 0, 1, n); for (unsigned o = (unsigned)q.range(2, 20); o--; ) s.step_one(q, me); s.verify(q);
            if (!u.blockwise) VP_CHECK(u.f->size() >= n * BS, "mt-size", "size of a file nobody else uses");
            vp::count("own_files");
            if (q.chance(1, 3)) u.f->close_remove();
        } });
    c.run(ctx); ctx.note(T); ctx.note(r.next()); vp::nontrivial(ctx.h);
}
// blocks of the block manager
template <class Strategy> void blocks_of(vp::Rng& q, uint64_t me, unsigned ops) {
    typedef typed_block<4096, uint64_t> B; struct Have { B::bid_type bid; uint64_t tag; }; std::vector<Have> have; block_manager* bm = block_manager::get_instance(); std::unique_ptr<B> buf(new B); unsigned offset = (unsigned)q(5);
    for (unsigned o = 0; o < ops; ++o) {
        switch (q(6)) {
        case 0: case 1: { std::vector<B::bid_type> b(q.range(1, 12)); bm->new_blocks(Strategy(), b.begin(), b.end(), offset); std::vector<request_ptr> rq; std::vector<std::unique_ptr<B> > bufs; for (auto& x : b) { Have h = { x, (q.next() | 1) ^ me << 1 }; bufs.emplace_back(new B); fill((char*)bufs.back()->elem, BS, h.tag); rq.push_back(bufs.back()->write(x)); have.push_back(h); } wait_all(rq.begin(), rq.end()); vp::count("blocks_allocated", b.size()); break; }
        case 2: case 3: if (have.size()) { Have& h = have[q(have.size())]; buf->read(h.bid)->wait(); VP_CHECK(holds((char*)buf->elem, BS, h.tag), "mt-block-content", "a block holds something else than its owner wrote"); vp::count("blocks_verified"); } break;
        case 4: { size_t n = q(have.size() + 1); std::vector<B::bid_type> b; while (n--) { size_t j = q(have.size()); b.push_back(have[j].bid); have[j] = have.back(); have.pop_back(); } if (b.size() == 1) bm->delete_block(b[0]); else bm->delete_blocks(b.begin(), b.end()); vp::count("blocks_released", b.size()); break; }
        default: { uint64_t total = bm->get_total_bytes(), fr = bm->get_free_bytes(), cur = bm->get_current_allocation(), mx = bm->get_maximum_allocation(), all = bm->get_total_allocation(); VP_CHECK(cur >= have.size() * BS && mx >= have.size() * BS && all >= have.size() * BS, "mt-allocation", "the block manager reports " << cur << " bytes allocated, its thread alone has " << have.size() * BS); (void)total; (void)fr; config::get_instance()->disks_number(); config::get_instance()->total_size(); vp::count("allocation_queries"); } }
    }
    for (auto& h : have) { buf->read(h.bid)->wait(); VP_CHECK(holds((char*)buf->elem, BS, h.tag), "mt-block-content", "a block holds something else than its owner wrote"); bm->delete_block(h.bid); } vp::count("blocks_released", have.size());
}
void blocks(vp::Ctx& ctx) {
    vp::Rng& r = ctx.rng; const unsigned T = (unsigned)r.range(2, 7); Crew c; unsigned ops = ctx.scale(40, 150); block_manager* bm = block_manager::get_instance(); const uint64_t cur = bm->get_current_allocation(), all = bm->get_total_allocation(); vp::MonStat m0 = vp::monitor_stat();
    std::vector<unsigned> pick; for (unsigned t = 0; t < T; ++t) pick.push_back((unsigned)r(5));
    for (unsigned t = 0; t < T; ++t) c.jobs.push_back([&pick, ops](unsigned me, vp::Rng& q) { switch (pick[me]) { case 0: blocks_of<striping>(q, me, ops); break; case 1: blocks_of<FR>(q, me, ops); break; case 2: blocks_of<SR>(q, me, ops); break; case 3: blocks_of<RC>(q, me, ops); break; default: blocks_of<single_disk>(q, me, ops); } });
    c.run(ctx); vp::MonStat m1 = vp::monitor_stat(); (void)all;
    VP_EQ(bm->get_current_allocation(), cur, "mt-allocation-lost", "bytes allocated after all threads released theirs"); VP_EQ(bm->get_total_allocation() - all, (m1.allocs - m0.allocs) * BS, "mt-allocation-lost", "bytes ever allocated, against those seen by the monitor"); VP_EQ(m1.live_bytes, m0.live_bytes, "mt-leak", "live bytes"); vp::count("conservation_checks");
    for (unsigned p : pick) ctx.note(p); ctx.note(m1.allocs - m0.allocs); vp::nontrivial(ctx.h);
}
// a container of its own in every thread
struct CmpMin { bool operator () (uint64_t a, uint64_t b) const { return a < b; } static uint64_t min_value() { return 0; } static uint64_t max_value() { return ~0ull; } };
struct CmpPQ { bool operator () (uint64_t a, uint64_t b) const { return a > b; } uint64_t min_value() const { return ~0ull; } };
struct HashU { size_t operator () (uint64_t k) const { return (size_t)(k * 0x9e3779b97f4a7c15ull >> 7); } };
struct HCmp { bool operator () (uint64_t a, uint64_t b) const { return a < b; } static uint64_t min_value() { return 0; } static uint64_t max_value() { return ~0ull; } };
#define CH(cond, what) VP_CHECK(cond, "mt-container", what << " used by one thread only does not hold what was put in")
void a_vector(vp::Rng& q, unsigned n) { typedef VECTOR_GENERATOR<uint64_t, 1, 3, 4096>::result V; V v; std::vector<uint64_t> m; for (unsigned i = 0; i < n; ++i) { uint64_t x = q.next(); v.push_back(x); m.push_back(x); } for (unsigned i = 0; i < n; ++i) { size_t j = q(n); if (q.chance(1, 2)) v[j] = m[j] = q.next(); else CH(v[j] == m[j], "vector"); } stxxl::sort(v.begin(), v.end(), CmpMin(), 300000); std::sort(m.begin(), m.end()); size_t i = 0; for (V::const_iterator it = v.begin(); it != v.end(); ++it, ++i) CH(*it == m[i], "sorted vector"); V w(v); CH(w[n - 1] == m[n - 1], "copied vector"); }
void a_stack(vp::Rng& q, unsigned n) { typedef STACK_GENERATOR<uint64_t, external, normal, 2, 4096>::result S; S s; std::stack<uint64_t> m; for (unsigned i = 0; i < 3 * n; ++i) { if (m.empty() || q.chance(3, 5)) { uint64_t x = q.next(); s.push(x); m.push(x); } else { CH(s.top() == m.top() && s.size() == m.size(), "stack"); s.pop(); m.pop(); } } while (m.size()) { CH(s.top() == m.top(), "stack"); s.pop(); m.pop(); } }
void a_queue(vp::Rng& q, unsigned n) { queue<uint64_t, 4096> s(2, 2); std::queue<uint64_t> m; for (unsigned i = 0; i < 3 * n; ++i) { if (m.empty() || q.chance(3, 5)) { uint64_t x = q.next(); s.push(x); m.push(x); } else { CH(s.front() == m.front() && s.size() == m.size(), "queue"); s.pop(); m.pop(); } } while (m.size()) { CH(s.front() == m.front(), "queue"); s.pop(); m.pop(); } }
void a_sequence(vp::Rng& q, unsigned n) { sequence<uint64_t, 4096> s(2, 2); std::deque<uint64_t> m; for (unsigned i = 0; i < 3 * n; ++i) switch (q(5)) { case 0: case 1: { uint64_t x = q.next(); s.push_back(x); m.push_back(x); break; } case 2: { uint64_t x = q.next(); s.push_front(x); m.push_front(x); break; } case 3: if (m.size()) { CH(s.front() == m.front(), "sequence"); s.pop_front(); m.pop_front(); } break; default: if (m.size()) { CH(s.back() == m.back(), "sequence"); s.pop_back(); m.pop_back(); } } CH(s.size() == m.size(), "sequence"); while (m.size()) { CH(s.front() == m.front(), "sequence"); s.pop_front(); m.pop_front(); } }
void a_map(vp::Rng& q, unsigned n) { typedef map<uint64_t, uint64_t, HCmp, 4096, 4096> M; M s((M::node_block_type::raw_size) * 5, (M::leaf_block_type::raw_size) * 5); std::map<uint64_t, uint64_t> m; n = n / 2 + 1; for (unsigned i = 0; i < n; ++i) { uint64_t k = 1 + q(2 * n); switch (q(4)) { case 0: case 1: { uint64_t v = q.next(); s[k] = v; m[k] = v; break; } case 2: CH(s.erase(k) == m.erase(k), "map"); break; default: { M::iterator it = s.find(k); CH((it == s.end()) == (m.find(k) == m.end()) && (it == s.end() || it->second == m[k]), "map"); } } } std::map<uint64_t, uint64_t>::iterator mi = m.begin(); for (M::iterator it = s.begin(); it != s.end(); ++it, ++mi) CH(it->first == mi->first && it->second == mi->second, "map"); CH(mi == m.end(), "map"); }
void a_hash(vp::Rng& q, unsigned n) { typedef unordered_map<uint64_t, uint64_t, HashU, HCmp, 4096, 4> M; M s(16, HashU(), HCmp(), 64 * 1024); std::map<uint64_t, uint64_t> m; for (unsigned i = 0; i < n; ++i) { uint64_t k = 1 + q(2 * n); switch (q(4)) { case 0: case 1: { uint64_t v = q.next(); s[k] = v; m[k] = v; break; } case 2: CH(s.erase(k) == m.erase(k), "unordered_map"); break; default: { M::const_iterator it = static_cast<const M&>(s).find(k); CH((it == static_cast<const M&>(s).end()) == (m.find(k) == m.end()), "unordered_map"); } } } CH(s.size() == m.size(), "unordered_map"); for (auto& p : m) CH(s[p.first] == p.second, "unordered_map"); }
void a_pq(vp::Rng& q, unsigned n) { typedef priority_queue<priority_queue_config<uint64_t, CmpPQ, 32, 64, 16, 2, 4096, 5, 1, STXXL_DEFAULT_ALLOC_STRATEGY> > P; P s(64 * 1024, 64 * 1024); std::priority_queue<uint64_t, std::vector<uint64_t>, std::greater<uint64_t> > m; for (unsigned i = 0; i < 4 * n; ++i) { if (m.empty() || q.chance(3, 5)) { uint64_t x = q.next() >> 1; s.push(x); m.push(x); } else { CH(s.top() == m.top(), "priority_queue"); s.pop(); m.pop(); } } while (m.size()) { CH(s.top() == m.top(), "priority_queue"); s.pop(); m.pop(); } }
void a_sorter(vp::Rng& q, unsigned n) { sorter<uint64_t, CmpMin, 4096> s(CmpMin(), 256 * 1024); std::vector<uint64_t> m; for (unsigned i = 0; i < 6 * n; ++i) { uint64_t x = q.next() >> 1 | 1; s.push(x); m.push_back(x); } std::sort(m.begin(), m.end()); s.sort(); size_t i = 0; for ( ; !s.empty(); ++s, ++i) CH(i < m.size() && *s == m[i], "sorter"); CH(i == m.size(), "sorter"); }
void a_pool(vp::Rng& q, unsigned n) { typedef typed_block<4096, uint64_t> B; read_write_pool<B> pool(3, 3); std::vector<B::bid_type> b(q.range(1, 12)); block_manager::get_instance()->new_blocks(striping(), b.begin(), b.end()); std::vector<uint64_t> tag(b.size(), 0); for (unsigned i = 0; i < n / 4 + 4; ++i) { size_t j = q(b.size()); if (!tag[j] || q.chance(1, 2)) { B* p = pool.steal(); tag[j] = q.next() | 1; fill((char*)p->elem, BS, tag[j]); pool.write(p, b[j]); } else { B* p = pool.steal(); if (q.chance(1, 2)) pool.hint(b[j]); pool.read(p, b[j])->wait(); CH(holds((char*)p->elem, BS, tag[j]), "read_write_pool"); pool.add(p); } } while (pool.size_write()) { B* p = pool.steal(); delete p; if (!pool.size_write()) break; } block_manager::get_instance()->delete_blocks(b.begin(), b.end()); }
void a_bufstream(vp::Rng& q, unsigned n) { typedef typed_block<4096, uint64_t> B; typedef BIDArray<4096> A; const size_t per = 4096 / 8, nb = n / 100 + 1; A bids(nb); block_manager::get_instance()->new_blocks(striping(), bids.begin(), bids.end()); uint64_t t = q.next(); { buf_ostream<B, A::iterator> o(bids.begin(), 2 + (int)q(3)); for (size_t i = 0; i < nb * per; ++i) o << (t + i); } { buf_istream<B, A::iterator> is(bids.begin(), bids.end(), 2 + (int)q(3)); for (size_t i = 0; i < nb * per; ++i) { uint64_t x; is >> x; CH(x == t + i, "buf_istream"); } } block_manager::get_instance()->delete_blocks(bids.begin(), bids.end()); }
void a_scheduler(vp::Rng& q, unsigned n) { typedef block_scheduler<swappable_block<uint64_t, 512> > S; S s(8 * 4096); const size_t nb = q.range(2, 24); std::vector<S::swappable_block_identifier_type> id; std::vector<uint64_t> m(nb, 0); for (size_t i = 0; i < nb; ++i) id.push_back(s.allocate_swappable_block()); for (unsigned i = 0; i < n; ++i) { size_t j = q(nb); S::internal_block_type& b = s.acquire(id[j], false); if (m[j]) CH(b[7] == m[j] && b[511] == ~m[j], "block_scheduler"); m[j] = q.next() | 1; b[7] = m[j]; b[511] = ~m[j]; s.release(id[j], true); } for (size_t i = 0; i < nb; ++i) s.free_swappable_block(id[i]); }
typedef void (* Job)(vp::Rng&, unsigned); const Job jobs[] = { a_vector, a_stack, a_queue, a_sequence, a_map, a_hash, a_pq, a_sorter, a_pool, a_bufstream, a_scheduler }; const char* const job_name[] = { "vector", "stack", "queue", "sequence", "map", "unordered_map", "priority_queue", "sorter", "read_write_pool", "buffered_stream", "block_scheduler" }; const unsigned NJ = 11;
void containers(vp::Ctx& ctx) {
    vp::Rng& r = ctx.rng; const unsigned T = (unsigned)r.range(2, 5); Crew c; vp::MonStat m0 = vp::monitor_stat(); unsigned same = (unsigned)r(NJ); bool alike = r.chance(1, 3);
    for (unsigned t = 0; t < T; ++t) { unsigned j = alike ? same : (unsigned)r(NJ); ctx.note(j); unsigned n = ctx.scale(500, 3000); vp::cov("container", job_name[j]); c.jobs.push_back([j, n](unsigned, vp::Rng& q) { jobs[j](q, (unsigned)q.range(n / 4, n)); vp::count("containers_used"); }); }
    c.run(ctx); VP_EQ(vp::monitor_stat().live_bytes, m0.live_bytes, "mt-leak", "live bytes after all threads destroyed their containers"); ctx.note(r.next()); vp::nontrivial(ctx.h);
}
// everything at once; in a new process also the first use of every part
void together(vp::Ctx& ctx) {
    vp::Rng& r = ctx.rng; const unsigned T = (unsigned)r.range(3, 7); Crew c; FileUnderTest u = make_file(ctx, (Kind)r(K_COUNT), 25); struct G { file* f; ~G() { delete f; } } g = { u.f }; const size_t N = r.range(2, 5); u.f->set_size(T * N * BS * (u.kind == K_WBTL ? 6 : 1)); std::atomic<bool> stop(false); unsigned live = T - 1; std::atomic<unsigned> left(live);
    c.jobs.push_back([&](unsigned, vp::Rng& q) { while (left.load(std::memory_order_relaxed)) { stats* s = stats::get_instance(); stats_data d(*s), e = d - d; (void)e; s->get_reads(); s->get_writes(); s->get_read_volume(); s->get_written_volume(); s->get_read_time(); s->get_write_time(); s->get_pread_time(); s->get_pwrite_time(); s->get_pio_time(); s->get_io_wait_time(); s->get_wait_read_time(); s->get_wait_write_time(); s->get_last_reset_time(); block_manager::get_instance()->get_free_bytes(); block_manager::get_instance()->get_total_bytes(); block_manager::get_instance()->get_current_allocation(); if (q.chance(1, 10)) s->reset(); vp::count("stat_rounds"); usleep(50); } });
    for (unsigned t = 1; t < T; ++t) { unsigned what = (unsigned)r(4), j = (unsigned)r(NJ); ctx.note(what * 16 + j); c.jobs.push_back([&, what, j, t](unsigned me, vp::Rng& q) { struct L { std::atomic<unsigned>& n; ~L() { n.fetch_sub(1, std::memory_order_relaxed); } } l = { left };
        if (what == 0) { Slots s(u.f, u.kind, t, T, N); for (int o = 40; o--; ) s.step_one(q, me); s.verify(q); } else if (what == 1) blocks_of<striping>(q, me, 30); else if (what == 2) jobs[j](q, 300); else { FileUnderTest w = make_file(ctx, (Kind)q(K_COUNT), 30 + (int)q(40)); struct G2 { file* f; ~G2() { delete f; } } g2 = { w.f }; w.f->set_size(4 * BS * 6); Slots s(w.f, w.kind, 0, 1, 4); for (int o = 20; o--; ) s.step_one(q, me); s.verify(q); } }); }
    c.run(ctx); ctx.note(r.next()); vp::nontrivial(ctx.h); vp::count("everything_at_once");
}
// the first use of the library in this process, by several threads at once
void first_use(vp::Ctx& ctx) {
    static bool done = false; if (done) return; done = true; vp::Rng& r = ctx.rng; const unsigned T = (unsigned)r.range(2, 8); Crew c;
    for (unsigned t = 0; t < T; ++t) { unsigned what = (unsigned)r(6); ctx.note(what); c.jobs.push_back([&ctx, what](unsigned me, vp::Rng& q) { switch (what) { case 0: blocks_of<striping>(q, me, 10); break; case 1: a_vector(q, 2000); break; case 2: stats::get_instance()->get_reads(); blocks_of<single_disk>(q, me, 5); break; case 3: config::get_instance()->disks_number(); a_queue(q, 500); break; case 4: { FileUnderTest w = make_file(ctx, (Kind)q(K_COUNT), 30 + (int)q(10)); struct G2 { file* f; ~G2() { delete f; } } g2 = { w.f }; w.f->set_size(4 * BS * 6); Slots s(w.f, w.kind, 0, 1, 4); for (int o = 20; o--; ) s.step_one(q, me); s.verify(q); break; } default: get_next_seed(); a_sorter(q, 2000); } }); }
    c.run(ctx); vp::count("first_uses");
}
}
VP_SCENARIO(shared_files, 160, 2500) { first_use(ctx); shared_files(ctx); }
VP_SCENARIO(own_files, 120, 1200) { first_use(ctx); own_files(ctx); }
VP_SCENARIO(blocks, 160, 2500) { first_use(ctx); blocks(ctx); }
VP_SCENARIO(containers, 120, 1500) { first_use(ctx); containers(ctx); }
VP_SCENARIO(together, 120, 1500) { first_use(ctx); together(ctx); }
