// C07: block pools, buffered block streams, prefetchers and prefetch schedules.
#include "vp.h"
#include "vp_monitor.h"
#include <stxxl/mng>
#include <stxxl/bits/mng/buf_ostream.h>
#include <stxxl/bits/mng/buf_istream.h>
#include <stxxl/bits/mng/buf_istream_reverse.h>
#include <stxxl/bits/mng/read_write_pool.h>
#include <stxxl/bits/algo/async_schedule.h>
#include <map>
#include <set>
#include <algorithm>
#include <atomic>
using namespace stxxl;

typedef typed_block<4096, uint64_t> blk;
typedef blk::bid_type bid_t;
static inline uint64_t val(uint64_t ver, size_t i) { return vp::mix(ver * 4099 + i / 64) + i; }
static void fill(blk* b, uint64_t ver) { for (size_t i = 0; i < blk::size; ++i) b->elem[i] = val(ver, i); }
static void verify(const blk* b, uint64_t ver, const char* how, int bidno) {
    for (size_t i = 0; i < blk::size; ++i) if (b->elem[i] != val(ver, i)) vp::fail("pool-content", std::string(how) + ": block " + std::to_string(bidno) + " does not hold version " + std::to_string(ver) + " (element " + std::to_string(i) + ")");
    vp::count("pool_blocks_verified");
}

VP_SCENARIO(pool_history, 6000, 150000) {
    vp::Rng& r = ctx.rng;
    const int NB = (int)r.range(2, 12);
    std::vector<bid_t> bids(NB);
    block_manager* bm = block_manager::get_instance();
    switch (r(3)) {
    case 0: bm->new_blocks(striping(), bids.begin(), bids.end()); break;
    case 1: bm->new_blocks(RC(), bids.begin(), bids.end()); break;
    default: bm->new_blocks(single_disk(0), bids.begin(), bids.end()); break;
    }
    std::vector<uint64_t> ver(NB, 0); uint64_t nextver = 1 + r(100000) * 1000;
    struct Out { blk* b; request_ptr q; int bid; uint64_t ver; };
    std::vector<Out> outs; std::vector<blk*> held; std::set<int> P; // prefetched
    size_t np = r(5), nw = r.range(1, 5);
    size_t w = nw, pfree = np;
    std::string tr;
    {
        read_write_pool<blk> pool(np, nw);
        read_write_pool<blk>* pp = &pool; read_write_pool<blk> other(r(2), r(2)); size_t ow = other.size_write(), op_ = other.size_prefetch();
        auto settle = [&](size_t k) { Out o = outs[k]; outs.erase(outs.begin() + k); o.q->wait(); VP_CHECK(o.q->poll(), "pool-wait", "request not finished after wait()"); if (o.ver) verify(o.b, o.ver, "read", o.bid); held.push_back(o.b); };
        auto settle_bid = [&](int b) { for (size_t k = outs.size(); k-- > 0; ) if (outs[k].bid == b) settle(k); };
        unsigned ops = (unsigned)r.range(20, 120);
        for (unsigned o = 0; o < ops; ++o) {
            unsigned op = (unsigned)r(15); int b = r.chance(1, 2) ? (int)r(std::min(NB, 3)) : (int)r(NB);
            ctx.note(op * 16 + b); tr += (char)('a' + op);
            switch (op) {
            case 0: case 1: case 2: { // write
                settle_bid(b);
                blk* x;
                if (w > 0 && (held.empty() || r.chance(2, 3))) { x = pp->steal(); --w; } else if (!held.empty()) { x = held.back(); held.pop_back(); } else x = new blk;
                fill(x, ++nextver); ver[b] = nextver;
                request_ptr q = pp->write(x, bids[b]); ++w;
                VP_CHECK(x == NULL, "pool-write-owner", "the written block was not taken over by the pool");
                if (r.chance(1, 4)) { q->wait(); vp::count("pool_waited_writes"); }
                vp::count("pool_writes"); break; }
            case 3: case 4: { // hint
                bool in = P.count(b) != 0; VP_EQ(pp->in_prefetching(bids[b]), in, "pool-in-prefetching", "in_prefetching");
                settle_bid(b);
                bool ok = pp->hint(bids[b]);
                VP_EQ(ok, in || pfree > 0, "pool-hint", "hint() result");
                if (ok && !in) { --pfree; P.insert(b); vp::count("pool_hints"); } else if (!ok) vp::count("pool_hints_refused");
                break; }
            case 5: case 6: case 7: { // read
                settle_bid(b);
                blk* x; if (held.empty() || r.chance(1, 3)) { if (w > 1) { x = pp->steal(); --w; } else x = new blk; } else { x = held.back(); held.pop_back(); }
                for (size_t i = 0; i < blk::size; ++i) x->elem[i] = 0xDEADDEADDEADull;
                bool in = P.count(b) != 0;
                request_ptr q = pp->read(x, bids[b]);
                if (in) { P.erase(b); ++pfree; vp::count("pool_prefetched_reads"); }
                VP_CHECK(x && q.valid(), "pool-read", "no block or no request");
                Out z = { x, q, b, ver[b] }; outs.push_back(z);
                vp::count("pool_reads");
                if (r.chance(1, 2)) settle(outs.size() - 1);
                break; }
            case 8: { bool in = P.count(b) != 0; VP_EQ(pp->invalidate(bids[b]), in, "pool-invalidate", "invalidate() result"); if (in) { P.erase(b); ++pfree; vp::count("pool_invalidations"); } break; }
            case 9: { size_t n = r.range(1, 6); pp->resize_write(n); w = n; break; }
            case 10: { size_t n = r(6); pp->resize_prefetch(n); if (n > pfree + P.size()) pfree = n - P.size(); else { size_t d = pfree + P.size() - n; pfree -= std::min(d, pfree); } break; }
            case 11: if (!held.empty()) { blk* x = held.back(); held.pop_back(); if (r.chance(1, 2)) { pp->add(x); ++w; } else { pp->add_prefetch(x); ++pfree; } VP_CHECK(x == NULL, "pool-add-owner", "added block not taken over"); } break;
            case 12: if (pfree && r.chance(1, 2)) { held.push_back(pp->steal_prefetch()); --pfree; } else if (w > 1) { held.push_back(pp->steal()); --w; } break;
            case 14: { // a burst of writes that keeps the disk busy, then read one of those blocks at once
                size_t n = r.range(1, std::min<size_t>(w, NB)); int first = (int)r(NB); std::vector<blk*> xs; std::vector<request_ptr> qs;
                for (size_t k = 0; k < n; ++k) { int c = (int)((first + k) % NB); settle_bid(c); xs.push_back(pp->steal()); --w; fill(xs.back(), ++nextver); ver[c] = nextver; }
                blk* x; if (held.empty()) x = new blk; else { x = held.back(); held.pop_back(); }
                for (size_t k = 0; k < n; ++k) { request_ptr q = pp->write(xs[k], bids[(first + k) % NB]); ++w; }
                int c = (int)((first + (r.chance(1, 2) ? n - 1 : r(n))) % NB);
                bool in = P.count(c) != 0; request_ptr q = pp->read(x, bids[c]); if (in) { P.erase(c); ++pfree; }
                VP_CHECK(x && q.valid(), "pool-read", "no block or no request");
                Out z = { x, q, c, ver[c] }; outs.push_back(z); vp::count("pool_burst_reads");
                break; }
            case 13: { if (!outs.empty()) settle(r(outs.size())); bool in = P.count(b) != 0; VP_EQ((bool)pp->find_hint(bids[b]).valid(), in, "pool-find-hint", "find_hint"); if (!in) VP_CHECK(!pp->poll_hint(bids[b]), "pool-poll-hint", "poll_hint true without hint");
                if (r.chance(1, 3)) { std::swap(*pp, other); pp = (pp == &pool) ? pp : pp; // contents swapped, so swap back
                    VP_EQ((size_t)other.size_write(), w, "pool-swap", "size after swap"); std::swap(*pp, other); }
                break; }
            }
            VP_EQ((size_t)pp->size_write(), w, "pool-write-size", "size_write after '" << (char)('a' + op) << "' of " << tr);
            VP_EQ((size_t)pp->size_prefetch(), pfree + P.size(), "pool-prefetch-size", "size_prefetch after '" << (char)('a' + op) << "' of " << tr);
            VP_EQ((size_t)pp->free_size_prefetch(), pfree, "pool-prefetch-free", "free_size_prefetch");
            VP_EQ((size_t)pp->busy_size_prefetch(), P.size(), "pool-prefetch-busy", "busy_size_prefetch");
        }
        while (!outs.empty()) settle(r(outs.size()));
        VP_EQ((size_t)other.size_write(), ow, "pool-other", "other pool size"); VP_EQ((size_t)other.size_prefetch(), op_, "pool-other", "other pool size");
    }
    { std::sort(held.begin(), held.end()); VP_CHECK(std::unique(held.begin(), held.end()) == held.end(), "pool-aliased-block", "the pool handed out one block twice"); }
    for (size_t i = 0; i < held.size(); ++i) delete held[i];
    blk* x = new blk;
    for (int b = 0; b < NB; ++b) if (ver[b]) { x->read(bids[b])->wait(); try { verify(x, ver[b], "disk content after pool destruction", b); } catch (vp::Failure& f) { vp::fail("pool-final-content", std::string(f.what()) + " ops " + tr); } }
    delete x;
    bm->delete_blocks(bids.begin(), bids.end());
    vp::nontrivial(ctx.h);
    if (r.chance(1, 50)) vp::sample("pool ops " + tr);
}

struct E12 { uint32_t a, b, c; bool operator == (const E12& o) const { return a == o.a && b == o.b && c == o.c; } };
static inline void mk(uint32_t& e, uint64_t v) { e = (uint32_t)vp::mix(v); }
static inline void mk(uint64_t& e, uint64_t v) { e = vp::mix(v); }
static inline void mk(E12& e, uint64_t v) { e.a = (uint32_t)v; e.b = (uint32_t)vp::mix(v); e.c = ~e.b; }

template <class T, unsigned RAW>
static void streams(vp::Ctx& ctx) {
    typedef typed_block<RAW, T> B; typedef typename B::bid_type BID; typedef typename std::vector<BID>::iterator BI;
    vp::Rng& r = ctx.rng;
    const unsigned N = B::size; size_t L = r.chance(1, 3) ? r.range(1, 3) : r.range(1, 40);
    std::vector<BID> bids(L);
    block_manager* bm = block_manager::get_instance();
    if (r.chance(1, 2)) bm->new_blocks(striping(), bids.begin(), bids.end()); else bm->new_blocks(RC(), bids.begin(), bids.end());
    uint64_t base = r.next() >> 1; std::vector<uint64_t> cont(L * N);
    std::vector<char> def(L * N, 1);
    for (size_t i = 0; i < L * N; ++i) cont[i] = base + i;
    unsigned nbuf = (unsigned)r(13);
    ctx.note(L * 16 + nbuf);
    { // writer
        buf_ostream<B, BI> os(bids.begin(), nbuf);
        unsigned mode = (unsigned)r(4);
        for (size_t i = 0; i < L * N; ) {
            T e; mk(e, cont[i]);
            if (mode == 1 || (mode == 3 && r.chance(1, 2))) { if (r.chance(1, 2)) *os = e; else os.current() = e; ++os; ++i; }
            else if (mode == 2 && r.chance(1, N)) { // fill the rest of the block
                size_t end = (i / N + 1) * N; if (i % N == 0) { os << e; ++i; if (i == end) continue; }
                T f; mk(f, cont[i]); for (size_t j = i; j < end; ++j) cont[j] = cont[i]; os.fill(f); i = end; vp::count("stream_fills"); }
            else if (mode == 3 && r.chance(1, 2 * N) && i % N) { size_t end = (i / N + 1) * N; for (size_t j = i; j < end; ++j) def[j] = 0; os.flush(); i = end; vp::count("stream_flushes"); }
            else { os << e; ++i; }
        }
    }
    for (int pass = 0; pass < 3; ++pass) {
        size_t a = r(L), b = r.range(a + 1, L); if (pass == 0) a = 0, b = L;
        unsigned nb = (unsigned)r.range(1, 13), mode = (unsigned)r(3);
        size_t stop = r.chance(1, 3) ? r((b - a) * N + 1) : (b - a) * N; // partially consumed streams
        if (pass != 1) {
            buf_istream<B, BI> is(bids.begin() + a, bids.begin() + b, nb);
            for (size_t i = 0; i < stop; ) {
                T e, x; mk(e, cont[a * N + i]);
                if (mode == 2 && i % N == 0 && stop - i >= N && r.chance(1, 2)) { const B& bl = is.block(); for (size_t j = 0; j < N; ++j) { mk(e, cont[a * N + i + j]); VP_CHECK(!def[a * N + i + j] || bl[j] == e, "istream-content", "block() element " << i + j); } is.next_block(); i += N; vp::count("stream_blocks_skipped"); continue; }
                if (mode == 1) { x = r.chance(1, 2) ? *is : is.current(); ++is; } else is >> x;
                VP_CHECK(!def[a * N + i] || x == e, "istream-content", "element " << i << " of blocks [" << a << "," << b << ") with " << nb << " buffers"); ++i;
            }
        } else {
            buf_istream_reverse<B, BI> is(bids.begin() + a, bids.begin() + b, nb);
            for (size_t i = 0; i < stop; ++i) {
                size_t p = b * N - 1 - i; T e, x; mk(e, cont[p]);
                if (mode == 1) { x = r.chance(1, 2) ? *is : is.current(); ++is; } else is >> x;
                VP_CHECK(!def[p] || x == e, "istream-reverse-content", "element " << p << " of blocks [" << a << "," << b << ") with " << nb << " buffers");
            }
        }
        vp::count("stream_elements", stop);
    }
    { // the blocks themselves
        B* x = new B; for (size_t k = 0; k < L; ++k) { x->read(bids[k])->wait(); for (size_t j = 0; j < N; ++j) { T e; mk(e, cont[k * N + j]); VP_CHECK(!def[k * N + j] || x->elem[j] == e, "ostream-content", "block " << k << " element " << j << " after a stream with " << nbuf << " buffers"); } } delete x; }
    bm->delete_blocks(bids.begin(), bids.end());
    vp::count("stream_runs"); vp::nontrivial(ctx.h);
}
#define STREAMS(n, q, t, ...) VP_SCENARIO_T(streams, n, q, t, __VA_ARGS__)
STREAMS(streams_u32_4k, 800, 20000, uint32_t, 4096);
STREAMS(streams_u64_8k, 800, 20000, uint64_t, 8192);
STREAMS(streams_e12_4k, 800, 20000, E12, 4096);

struct Cnt { std::atomic<int>* n; void operator () (request*) { n->fetch_add(1); } };

VP_SCENARIO(prefetch_orders, 2500, 60000) {
    vp::Rng& r = ctx.rng; size_t L = r.range(1, 50);
    std::vector<bid_t> bids(L); block_manager* bm = block_manager::get_instance();
    bm->new_blocks(RC(), bids.begin(), bids.end());
    { // buffered_writer in random block order, random batch size
        unsigned nw = (unsigned)r.range(2, 8), batch = (unsigned)r.range(1, nw - 1);
        buffered_writer<blk> wr(nw, batch);
        std::vector<size_t> order(L); for (size_t i = 0; i < L; ++i) order[i] = i;
        for (size_t i = L; i > 1; --i) std::swap(order[i - 1], order[r(i)]);
        blk* x = wr.get_free_block();
        for (size_t i = 0; i < L; ++i) {
            fill(x, order[i] + 1); x = wr.write(x, bids[order[i]]); VP_CHECK(x, "writer-block", "no free block returned");
            if (r.chance(1, 25)) { wr.flush(); x = wr.get_free_block(); size_t q = r(i + 1); blk* y = new blk; y->read(bids[order[q]])->wait(); verify(y, order[q] + 1, "after flush", (int)order[q]); delete y; vp::count("writer_flushes"); }
        }
        ctx.note(nw * 16 + batch);
    }
    // consumption order of blocks is 0..L-1; a fetch order is valid when block k is fetched before position nbuf + k
    size_t nbuf = r.range(1, 10); std::vector<int_type> seq(L);
    unsigned kind = (unsigned)r(3);
    if (kind == 0) for (size_t i = 0; i < L; ++i) seq[i] = (int_type)i;
    else if (kind == 1) compute_prefetch_schedule(bids.begin(), bids.end(), seq.data(), (int_type)nbuf, (int_type)config::get_instance()->get_max_device_id());
    else { // random valid order: at position p pick any unfetched block, but the oldest unfetched must not be overdue
        std::set<size_t> un; for (size_t i = 0; i < L; ++i) un.insert(i);
        for (size_t p = 0; p < L; ++p) {
            // every unfetched block k needs position < nbuf + k; feasible iff after the pick, block with rank j (from 0) satisfies p+1+j < nbuf + k
            std::vector<size_t> u(un.begin(), un.end()); std::vector<size_t> okp;
            for (size_t c = 0; c < u.size() && c < 2 * nbuf; ++c) { bool ok = p < nbuf + u[c]; for (size_t j = 0; ok && j < c; ++j) ok = p + 1 + j < nbuf + u[j]; if (ok) okp.push_back(u[c]); }
            VP_CHECK(!okp.empty(), "harness", "no feasible order"); size_t k = r.pick(okp); seq[p] = (int_type)k; un.erase(k);
        }
    }
    if (kind == 1) { std::vector<int_type> s(seq); std::sort(s.begin(), s.end()); for (size_t i = 0; i < L; ++i) VP_EQ((size_t)s[i], i, "schedule-permutation", "schedule is not a permutation, sorted position"); for (size_t p = 0; p < L; ++p) VP_CHECK(p < nbuf + (size_t)seq[p], "schedule-valid", "block " << seq[p] << " is fetched at position " << p << " with only " << nbuf << " buffers"); }
    std::atomic<int> fetched(0); size_t cons = r.chance(1, 4) ? r(L + 1) : L; Cnt c = { &fetched };
    {
        block_prefetcher<blk, std::vector<bid_t>::iterator> pf(bids.begin(), bids.end(), seq.data(), (int_type)nbuf, c);
        blk* x = NULL;
        for (size_t k = 0; k < cons; ++k) {
            VP_EQ(pf.empty(), false, "prefetcher-empty", "empty() before block " << k); VP_EQ((size_t)pf.pos(), k, "prefetcher-pos", "pos()");
            if (k == 0) x = pf.pull_block(); else { bool more = pf.block_consumed(x); VP_CHECK(more, "prefetcher-end", "no more blocks at " << k << " of " << L); }
            verify(x, k + 1, "prefetcher", (int)k);
        }
        if (cons == L) { VP_CHECK(pf.empty(), "prefetcher-empty", "not empty() at the end"); if (L) { bool more = pf.block_consumed(x); VP_CHECK(!more, "prefetcher-end", "more blocks than there are"); } }
        ctx.note(cons); 
    }
    size_t expect = cons == 0 ? std::min(nbuf, L) : std::min(L, std::min(nbuf, L) + cons - (cons == L ? 0 : 1));
    VP_EQ((size_t)fetched.load(), expect, "prefetcher-handler", "completion handler calls (L=" << L << " buffers=" << nbuf << " consumed=" << cons << ")");
    bm->delete_blocks(bids.begin(), bids.end());
    vp::count("prefetch_runs"); vp::nontrivial(ctx.h);
}

VP_SCENARIO(schedules, 20000, 600000) {
    vp::Rng& r = ctx.rng; int_type D = (int_type)r.range(1, 9), L = (int_type)(r.chance(1, 4) ? r(12) : r(200)), m = (int_type)(r.chance(1, 2) ? r.range(1, 4) : r.range(1, 3 * D));
    std::vector<int_type> disks(L), out(L + 1, -77);
    unsigned kind = (unsigned)r(4); int_type hot = (int_type)r(D);
    for (int_type i = 0; i < L; ++i) {
        if (kind == 0) disks[i] = i % D; else if (kind == 1) disks[i] = (int_type)r(D); else if (kind == 2) disks[i] = r.chance(3, 4) ? hot : (int_type)r(D); else disks[i] = r.chance(1, 4) ? (int_type)file::DEFAULT_DEVICE_ID : (i / 5) % D;
    }
    compute_prefetch_schedule(disks.data(), disks.data() + L, out.data(), m, D);
    std::vector<char> seen(L, 0);
    for (int_type p = 0; p < L; ++p) {
        VP_CHECK(out[p] >= 0 && out[p] < L, "schedule-range", "entry " << out[p] << " of a schedule for " << L << " blocks");
        VP_CHECK(!seen[out[p]], "schedule-permutation", "block " << out[p] << " scheduled twice (L=" << L << " m=" << m << " D=" << D << ")"); seen[out[p]] = 1;
        VP_CHECK(p < m + out[p], "schedule-valid", "block " << out[p] << " fetched at position " << p << " with " << m << " buffers (L=" << L << " D=" << D << ")");
    }
    VP_EQ(out[L], (int_type)-77, "schedule-overrun", "entry after the schedule");
    vp::count("schedules"); ctx.note(vp::hash_combine(L * 100 + m, D * 8 + kind)); if (L > D) vp::nontrivial(ctx.h);
}
