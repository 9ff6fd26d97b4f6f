// C05: external block allocation against an interval model.
#include "vp.h"
#include "vp_monitor.h"
#include <stxxl/mng>
#include <stxxl/io>
#include <stxxl/bits/mng/disk_allocator.h>
#include <stxxl/bits/mng/block_alloc_interleaved.h>
#include <map>
#include <set>
#include <thread>
#include <mutex>
using namespace stxxl;

// ---- a single disk -------------------------------------------------------
struct Model {
    std::map<int64, int64> used; // offset -> size
    int64 total, usedb;
    Model() : total(0), usedb(0) { }
    void alloc(int64 o, int64 s, int64 disk_total) {
        VP_CHECK(o >= 0 && o + s <= disk_total, "alloc-out-of-disk", "region " << o << "+" << s << " outside of disk of " << disk_total);
        std::map<int64, int64>::iterator it = used.lower_bound(o);
        if (it != used.end()) VP_CHECK(it->first >= o + s, "alloc-overlap", "region " << o << "+" << s << " overlaps " << it->first << "+" << it->second);
        if (it != used.begin()) { --it; VP_CHECK(it->first + it->second <= o, "alloc-overlap", "region " << o << "+" << s << " overlaps " << it->first << "+" << it->second); }
        used[o] = s; usedb += s;
    }
    void free(int64 o) { std::map<int64, int64>::iterator it = used.find(o); usedb -= it->second; used.erase(it); }
    int64 largest_gap(int64 total) const {
        int64 pos = 0, g = 0;
        for (std::map<int64, int64>::const_iterator it = used.begin(); it != used.end(); ++it) { g = std::max(g, it->first - pos); pos = it->first + it->second; }
        return std::max(g, total - pos);
    }
    int64 first_gap(int64 sz, int64 total) const { // first fit
        int64 pos = 0;
        for (std::map<int64, int64>::const_iterator it = used.begin(); it != used.end(); ++it) { if (it->first - pos >= sz) return pos; pos = it->first + it->second; }
        return total - pos >= sz ? pos : -1;
    }
};

template <unsigned S>
static bool do_alloc(disk_allocator& a, Model& m, unsigned n, bool autogrow, std::vector<std::pair<int64, unsigned> >& held)
{
    BIDArray<S> b(n);
    int64 before_total = a.get_total_bytes(), before_free = a.get_free_bytes();
    bool should_throw = !autogrow && before_free < (int64)S * n;
    bool threw = false;
    try { a.new_blocks(b); } catch (const bad_ext_alloc&) { threw = true; }
    if (threw) {
        VP_CHECK(!autogrow, "oom-on-growing-disk", "bad_ext_alloc on a disk that may grow");
        VP_CHECK(should_throw, "spurious-oom", "out of space although " << before_free << " bytes are free and " << S * n << " were requested");
        VP_EQ(a.get_free_bytes(), before_free, "oom-changed-free", "free bytes after a refused allocation");
        VP_EQ(a.get_total_bytes(), before_total, "oom-changed-total", "total bytes after a refused allocation");
        vp::count("refused_allocations");
        return false;
    }
    VP_CHECK(!should_throw, "missing-oom", n << " blocks of " << S << " granted with only " << before_free << " bytes free on a fixed disk");
    for (unsigned i = 0; i < n; ++i) { m.alloc(b[i].offset, S, a.get_total_bytes()); held.push_back(std::make_pair(b[i].offset, S)); }
    VP_CHECK(a.get_total_bytes() >= before_total, "disk-shrank", "disk shrank");
    return true;
}
template <unsigned S>
static void do_free1(disk_allocator& a, int64 o) { BID<S> b; b.storage = NULL; b.offset = o; a.delete_block(b); }
static void do_free(disk_allocator& a, int64 o, unsigned s) {
    switch (s) { case 4096: do_free1<4096>(a, o); break; case 8192: do_free1<8192>(a, o); break; case 12288: do_free1<12288>(a, o); break; default: do_free1<65536>(a, o); }
}
static void check_counts(disk_allocator& a, Model& m) {
    VP_EQ(a.get_free_bytes() + m.usedb, a.get_total_bytes(), "conservation", "free + allocated bytes vs. disk size");
    VP_EQ(a.get_used_bytes(), m.usedb, "used-bytes", "used bytes");
}

VP_SCENARIO(single_disk_alloc, 200, 3000)
{
    vp::Rng& r = ctx.rng;
    bool mixed = r.chance(1, 2);
    bool autogrow = r.chance(1, 2);
    unsigned blocks = (unsigned)r.range(mixed ? 0 : 1, 60);
    if (!autogrow && blocks < 4) blocks = 4;
    disk_config cfg("", (uint64)blocks * 4096, "memory"); cfg.autogrow = autogrow;
    mem_file f;
    {
        disk_allocator a(&f, cfg);
        VP_EQ(a.get_total_bytes(), (int64)blocks * 4096, "initial-size", "initial size");
        VP_EQ((int64)f.size(), (int64)blocks * 4096, "initial-file-size", "initial file size");
        Model m; std::vector<std::pair<int64, unsigned> > held;
        unsigned ops = (unsigned)r.range(20, 250);
        unsigned bias = (unsigned)r.range(30, 70);
        unsigned grows = 0, fragmented = 0, maxheld = 0;
        for (unsigned i = 0; i < ops; ++i) {
            if (r(100) < 3) bias = (unsigned)r.range(25, 75);
            if (held.empty() || r(100) < bias) {
                unsigned n = r.chance(1, 2) ? 1 : (unsigned)r.range(1, 9);
                int64 t0 = a.get_total_bytes();
                unsigned sz = 4096;
                if (mixed) switch (r(4)) { case 0: sz = 8192; break; case 1: sz = 12288; break; case 2: if (r.chance(1, 4)) sz = 65536; break; }
                // on a disk that may not grow, allocations only split by fragmentation are left out unless blocks have one size
                if (mixed && !autogrow && m.largest_gap(t0) < (int64)sz * n && a.get_free_bytes() >= (int64)sz * n) continue;
                if (m.largest_gap(t0) < (int64)sz * n) ++fragmented;
                bool ok = false;
                switch (sz) {
                case 4096: ok = do_alloc<4096>(a, m, n, autogrow, held); break;
                case 8192: ok = do_alloc<8192>(a, m, n, autogrow, held); break;
                case 12288: ok = do_alloc<12288>(a, m, n, autogrow, held); break;
                default: ok = do_alloc<65536>(a, m, n, autogrow, held);
                }
                if (ok && a.get_total_bytes() > t0) ++grows;
                if (!autogrow) VP_EQ(a.get_total_bytes(), (int64)blocks * 4096, "fixed-disk-grew", "size of a disk that may not grow");
                VP_CHECK((int64)f.size() >= a.get_total_bytes(), "file-smaller-than-disk", "file size " << f.size() << " < " << a.get_total_bytes());
                vp::count("allocations", ok ? n : 0);
            }
            else {
                size_t k = r(held.size());
                if (r.chance(1, 4)) k = held.size() - 1;
                do_free(a, held[k].first, held[k].second); m.free(held[k].first);
                // a second release of the same block has to be refused
                if (r.chance(1, 12)) {
                    int64 fb = a.get_free_bytes(); bool threw = false;
                    vp::monitor_lenient(true);
                    try { do_free(a, held[k].first, held[k].second); } catch (const bad_ext_alloc&) { threw = true; }
                    vp::monitor_lenient(false);
                    VP_CHECK(threw, "double-free-accepted", "second release of region " << held[k].first << "+" << held[k].second << " was accepted");
                    VP_EQ(a.get_free_bytes(), fb, "double-free-changed-free", "free bytes after a refused release");
                    vp::count("refused_double_frees");
                }
                held[k] = held.back(); held.pop_back();
                vp::count("releases");
            }
            check_counts(a, m);
            if (held.size() > maxheld) maxheld = (unsigned)held.size();
            ctx.note(held.size() * 7919 + a.get_free_bytes());
        }
        // give everything back in random order: one piece must remain
        while (!held.empty()) { size_t k = r(held.size()); do_free(a, held[k].first, held[k].second); m.free(held[k].first); held[k] = held.back(); held.pop_back(); check_counts(a, m); }
        int64 total = a.get_total_bytes(), nb = total / 4096;
        VP_EQ(a.get_free_bytes(), total, "not-all-free", "free bytes after releasing everything");
        if (nb) {
            BIDArray<4096> all(nb);
            a.new_blocks(all);
            VP_EQ(a.get_total_bytes(), total, "no-reuse", "disk size after reallocating the whole free disk");
            std::set<int64> offs;
            for (int64 i = 0; i < nb; ++i) {
                offs.insert(all[i].offset);
                if (i) VP_EQ(all[i].offset, all[i - 1].offset + 4096, "not-coalesced", "free space was not merged: offset of block " << i);
            }
            VP_EQ((int64)offs.size(), nb, "reuse-overlap", "distinct blocks");
            VP_EQ(a.get_free_bytes(), (int64)0, "free-after-full", "free bytes of a full disk");
            for (int64 i = 0; i < nb; ++i) do_free1<4096>(a, all[i].offset);
        }
        if (grows) vp::count("grown_disks");
        if (fragmented) vp::count("fragmented_allocations", fragmented);
        vp::cov("autogrow/mixed", std::string(autogrow ? "grow" : "fixed") + (mixed ? "/mixed" : "/uniform"));
        vp::nontrivial(ctx.h);
        if (ctx.rng.chance(1, 20)) { std::ostringstream os; os << "single_disk blocks=" << blocks << " autogrow=" << autogrow << " mixed=" << mixed << " ops=" << ops << " maxheld=" << maxheld << " grows=" << grows << " fragmented=" << fragmented; vp::sample(os.str()); }
    }
    VP_EQ((int64)f.size(), (int64)blocks * 4096, "size-not-restored", "file size after the disk was closed");
}

// fragmentation on a fixed disk: grouped requests are split over the holes
VP_SCENARIO(fragmented_group, 40, 600)
{
    vp::Rng& r = ctx.rng;
    unsigned blocks = (unsigned)r.range(8, 80);
    disk_config cfg("", (uint64)blocks * 4096, "memory"); cfg.autogrow = false;
    mem_file f; disk_allocator a(&f, cfg); Model m; std::vector<std::pair<int64, unsigned> > held;
    do_alloc<4096>(a, m, blocks, false, held);
    VP_EQ(a.get_free_bytes(), (int64)0, "free-after-full", "free bytes of a full disk");
    std::vector<std::pair<int64, unsigned> > keep; unsigned freed = 0;
    for (size_t i = 0; i < held.size(); ++i)
        if (r.chance(1, 2)) { do_free(a, held[i].first, 4096); m.free(held[i].first); ++freed; } else keep.push_back(held[i]);
    check_counts(a, m);
    held = keep;
    if (freed) {
        unsigned want = (unsigned)r.range(1, freed);
        VP_CHECK(do_alloc<4096>(a, m, want, false, held), "spurious-oom", "grouped request refused although enough space is free");
        check_counts(a, m);
        VP_EQ(a.get_total_bytes(), (int64)blocks * 4096, "fixed-disk-grew", "size of a fixed disk");
        do_alloc<4096>(a, m, freed - want + 1, false, held); // one too many
        check_counts(a, m);
        vp::nontrivial(ctx.h); vp::count("fragmented_group_requests");
    }
    while (!held.empty()) { do_free(a, held.back().first, held.back().second); m.free(held.back().first); held.pop_back(); }
    check_counts(a, m);
}

// ---- the block manager over the configured disks -------------------------
struct Held { std::vector<BID<4096> > a; std::vector<BID<16384> > b; };
struct Global {
    std::map<file*, std::map<int64, int64> > used;
    uint64 bytes;
    Global() : bytes(0) { }
    void add(file* f, int64 o, int64 s) {
        std::map<int64, int64>& u = used[f];
        std::map<int64, int64>::iterator it = u.lower_bound(o);
        if (it != u.end()) VP_CHECK(it->first >= o + s, "bm-overlap", "blocks overlap");
        if (it != u.begin()) { --it; VP_CHECK(it->first + it->second <= o, "bm-overlap", "blocks overlap"); }
        VP_CHECK(o >= 0 && (uint64)(o + s) <= f->size(), "bm-out-of-file", "block " << o << "+" << s << " outside of file of " << f->size());
        u[o] = s; bytes += s;
    }
    void del(file* f, int64 o) { std::map<int64, int64>& u = used[f]; bytes -= u[o]; u.erase(o); }
};
template <class Strategy>
static void strategy_run(vp::Ctx& ctx, const Strategy& st, unsigned lo, unsigned hi, bool balanced, const char* name)
{
    vp::Rng& r = ctx.rng;
    block_manager* bm = block_manager::get_instance();
    Global g; Held h;
    uint64 base_cur = bm->get_current_allocation(), base_tot = bm->get_total_allocation();
    uint64 base_used = bm->get_total_bytes() - bm->get_free_bytes();
    uint64 asked = 0, peak = base_cur;
    unsigned ops = (unsigned)r.range(10, 60);
    std::map<file*, int> perdisk; unsigned offset = 0;
    for (unsigned i = 0; i < ops; ++i) {
        unsigned what = (unsigned)r(5);
        if (what <= 1) {
            unsigned n = (unsigned)r.range(1, 20);
            std::vector<BID<4096> > v(n);
            unsigned mode = (unsigned)r(3);
            if (mode == 0) bm->new_blocks(st, v.begin(), v.end(), offset);
            else if (mode == 1) { n = 1; v.resize(1); bm->new_block(st, v[0], offset); }
            else { std::vector<BID<4096> > w; bm->new_blocks<typed_block<4096, int> >(n, st, std::back_inserter(w), offset); v.swap(w); VP_EQ(v.size(), (size_t)n, "bm-count", "number of blocks"); }
            for (unsigned k = 0; k < v.size(); ++k) {
                VP_CHECK(v[k].valid() && v[k].is_managed(), "bm-invalid", "invalid block identifier");
                int id = v[k].storage->get_allocator_id();
                VP_CHECK(id >= (int)lo && id < (int)hi, "strategy-range", name << " placed a block on disk " << id << " outside of [" << lo << "," << hi << ")");
                g.add(v[k].storage, v[k].offset, 4096); h.a.push_back(v[k]); perdisk[v[k].storage]++; asked += 4096;
            }
            if (balanced && v.size() >= (hi - lo)) {
                std::map<file*, int> c; for (unsigned k = 0; k < v.size(); ++k) c[v[k].storage]++;
                VP_EQ(c.size(), (size_t)(hi - lo), "strategy-balance", name << ": number of disks used by " << v.size() << " consecutive blocks");
                int mn = 1 << 30, mx = 0; for (std::map<file*, int>::iterator it = c.begin(); it != c.end(); ++it) { mn = std::min(mn, it->second); mx = std::max(mx, it->second); }
                VP_CHECK(mx - mn <= 1, "strategy-balance", name << ": unbalanced placement of consecutive blocks");
            }
            offset += (unsigned)v.size();
        }
        else if (what == 2) {
            unsigned n = (unsigned)r.range(1, 5); std::vector<BID<16384> > v(n);
            bm->new_blocks(st, v.begin(), v.end());
            for (unsigned k = 0; k < n; ++k) { g.add(v[k].storage, v[k].offset, 16384); h.b.push_back(v[k]); asked += 16384; }
        }
        else if (what == 3 && h.a.size()) {
            size_t n = r.range(1, h.a.size()); std::vector<BID<4096> > v;
            for (size_t k = 0; k < n; ++k) { size_t x = r(h.a.size()); v.push_back(h.a[x]); g.del(h.a[x].storage, h.a[x].offset); h.a[x] = h.a.back(); h.a.pop_back(); }
            bm->delete_blocks(v.begin(), v.end());
        }
        else if (h.b.size()) { size_t x = r(h.b.size()); bm->delete_block(h.b[x]); g.del(h.b[x].storage, h.b[x].offset); h.b[x] = h.b.back(); h.b.pop_back(); }
        peak = std::max(peak, base_cur + g.bytes);
        VP_EQ(bm->get_current_allocation() - base_cur, g.bytes, "bm-current", "current allocation");
        VP_EQ(bm->get_total_allocation() - base_tot, asked, "bm-total", "total requested allocation");
        VP_CHECK(bm->get_maximum_allocation() >= peak, "bm-maximum", "maximum allocation " << bm->get_maximum_allocation() << " below peak " << peak);
        VP_EQ(bm->get_total_bytes() - bm->get_free_bytes() - base_used, g.bytes, "bm-conservation", "used bytes over all disks");
        ctx.note(g.bytes);
    }
    // an invalid identifier is ignored
    { BID<4096> none; bm->delete_block(none); VP_EQ(bm->get_current_allocation() - base_cur, g.bytes, "bm-current", "current allocation after ignoring an invalid block"); }
    bm->delete_blocks(h.a.begin(), h.a.end()); bm->delete_blocks(h.b.begin(), h.b.end());
    VP_EQ(bm->get_current_allocation(), base_cur, "bm-leak", "current allocation after releasing everything");
    VP_EQ(bm->get_total_bytes() - bm->get_free_bytes(), base_used, "bm-leak", "used bytes after releasing everything");
    vp::cov("strategy", name); vp::cov("disks", std::to_string(config::get_instance()->disks_number()));
    vp::count("block_manager_ops", ops); vp::nontrivial(ctx.h);
}
VP_SCENARIO(manager_strategies, 100, 1500)
{
    if (ctx.cfg == 9) return;
    vp::Rng& r = ctx.rng;
    unsigned nd = (unsigned)config::get_instance()->disks_number();
    block_manager::get_instance();
    unsigned b = (unsigned)r(nd), e = (unsigned)r.range(b + 1, nd);
    switch (r(12)) {
    case 0: strategy_run(ctx, striping(), 0, nd, true, "striping"); break;
    case 1: strategy_run(ctx, striping(b, e), b, e, true, "striping(range)"); break;
    case 2: strategy_run(ctx, FR(), 0, nd, false, "FR"); break;
    case 3: strategy_run(ctx, FR(b, e), b, e, false, "FR(range)"); break;
    case 4: strategy_run(ctx, SR(), 0, nd, true, "SR"); break;
    case 5: strategy_run(ctx, SR(b, e), b, e, true, "SR(range)"); break;
    case 6: strategy_run(ctx, RC(), 0, nd, true, "RC"); break;
    case 7: strategy_run(ctx, RC(b, e), b, e, true, "RC(range)"); break;
    case 8: { std::pair<unsigned, unsigned> d = config::get_instance()->regular_disk_range(); VP_CHECK(d.first == 0 && d.second >= 1 && d.second <= nd, "regular-range", "regular disks [" << d.first << "," << d.second << ")"); strategy_run(ctx, RC_disk(), d.first, d.second, true, "RC_disk"); break; }
    case 9: { std::pair<unsigned, unsigned> d = config::get_instance()->flash_range(); if (d.second > d.first) strategy_run(ctx, RC_flash(), d.first, d.second, true, "RC_flash"); break; }
    case 10: strategy_run(ctx, single_disk(b), b, b + 1, true, "single_disk"); break;
    case 11: { unsigned o = (unsigned)r(10); strategy_run(ctx, offset_allocator<striping>(o, striping(b, e)), b, e, true, "offset_allocator"); break; }
    }
}
template <class S>
static void il_run(vp::Rng& r, const S& s, unsigned nruns, unsigned lo, unsigned hi, bool percol, const char* name)
{
    typedef typename interleaved_alloc_traits<S>::strategy il;
    il f(nruns, s);
    std::vector<std::vector<unsigned> > cols(nruns);
    for (unsigned i = 0; i < nruns * (hi - lo) * 2; ++i) {
        unsigned d = (unsigned)f(i);
        VP_CHECK(d >= lo && d < hi, "interleaved-range", name << " names disk " << d << " outside of [" << lo << "," << hi << ")");
        cols[i % nruns].push_back(d);
    }
    if (percol) // the blocks of one run use all disks before any repeats
        for (unsigned c = 0; c < nruns; ++c) {
            std::set<unsigned> st(cols[c].begin(), cols[c].begin() + (hi - lo));
            VP_EQ(st.size(), (size_t)(hi - lo), "interleaved-balance", name << " run " << c << " of " << nruns << ": distinct disks in one cycle");
        }
    vp::cov("strategy", name); vp::count("interleaved_checks");
    (void)r;
}
VP_SCENARIO(interleaved_strategies, 40, 200)
{
    vp::Rng& r = ctx.rng;
    unsigned lo = (unsigned)r(4), hi = lo + (unsigned)r.range(1, 6), n = (unsigned)r.range(1, 9);
    il_run(r, striping(lo, hi), n, lo, hi, true, "interleaved striping");
    il_run(r, FR(lo, hi), n, lo, hi, false, "interleaved FR");
    il_run(r, SR(lo, hi), n, lo, hi, true, "interleaved SR");
    il_run(r, RC(lo, hi), n, lo, hi, true, "interleaved RC");
    il_run(r, RC_disk(lo, hi), n, lo, hi, true, "interleaved RC_disk");
    il_run(r, RC_flash(lo, hi), n, lo, hi, true, "interleaved RC_flash");
    il_run(r, single_disk(lo), n, lo, lo + 1, true, "interleaved single_disk");
    ctx.note(lo * 100 + hi * 10 + n); vp::nontrivial(ctx.h);
}

// ---- concurrent use: blocks carry their owner's content ------------------
VP_SCENARIO(concurrent_alloc, 12, 150)
{
    if (ctx.cfg == 9) return;
    vp::Rng& r = ctx.rng;
    block_manager* bm = block_manager::get_instance();
    uint64 base_cur = bm->get_current_allocation(), base_used = bm->get_total_bytes() - bm->get_free_bytes(), base_tot = bm->get_total_allocation();
    const unsigned T = (unsigned)r.range(2, 6), ops = 60;
    std::mutex mt; std::set<std::pair<file*, int64> > live; uint64 asked = 0;
    std::vector<std::thread> th; std::vector<uint64_t> seeds;
    for (unsigned t = 0; t < T; ++t) seeds.push_back(r.next());
    for (unsigned t = 0; t < T; ++t) th.push_back(std::thread([&, t] {
        vp::Rng q(seeds[t]); std::vector<BID<4096> > mine; uint64 my = 0;
        try {
            for (unsigned i = 0; i < ops; ++i) {
                if (mine.empty() || q.chance(1, 2)) {
                    std::vector<BID<4096> > v(q.range(1, 6));
                    bm->new_blocks(RC(), v.begin(), v.end()); my += v.size() * 4096;
                    std::unique_lock<std::mutex> l(mt);
                    for (size_t k = 0; k < v.size(); ++k)
                        if (!live.insert(std::make_pair(v[k].storage, v[k].offset)).second) vp::fail_async("concurrent-overlap", "two threads hold the same block");
                    mine.insert(mine.end(), v.begin(), v.end());
                }
                else {
                    size_t k = q(mine.size());
                    { std::unique_lock<std::mutex> l(mt); live.erase(std::make_pair(mine[k].storage, mine[k].offset)); }
                    bm->delete_block(mine[k]); mine[k] = mine.back(); mine.pop_back();
                }
            }
            { std::unique_lock<std::mutex> l(mt); for (size_t k = 0; k < mine.size(); ++k) live.erase(std::make_pair(mine[k].storage, mine[k].offset)); asked += my; }
            bm->delete_blocks(mine.begin(), mine.end());
        } catch (std::exception& e) { vp::fail_async("concurrent-exception", e.what()); }
    }));
    for (unsigned t = 0; t < T; ++t) th[t].join();
    VP_EQ(bm->get_total_bytes() - bm->get_free_bytes(), base_used, "concurrent-leak", "used bytes after concurrent use");
    VP_EQ(bm->get_current_allocation(), base_cur, "concurrent-current", "current allocation after concurrent use");
    VP_EQ(bm->get_total_allocation() - base_tot, asked, "concurrent-total", "total allocation after concurrent use");
    vp::count("concurrent_runs"); vp::nontrivial(ctx.h); vp::cov("threads", std::to_string(T));
}

// ---- fixed disks: refused requests leave everything as it was ------------
VP_SCENARIO(manager_out_of_space, 80, 800)
{
    if (ctx.cfg != 9) return;
    vp::Rng& r = ctx.rng;
    block_manager* bm = block_manager::get_instance();
    unsigned nd = (unsigned)config::get_instance()->disks_number();
    uint64 total = bm->get_total_bytes();
    VP_EQ(bm->get_free_bytes(), total, "bm-leak", "free bytes before the run");
    std::vector<BID<4096> > held; unsigned refused = 0;
    for (unsigned i = 0; i < 60; ++i) {
        if (r.chance(3, 5)) {
            std::vector<BID<4096> > v(r.range(1, 200));
            uint64 f0 = bm->get_free_bytes(), c0 = bm->get_current_allocation();
            bool threw = false; unsigned b = (unsigned)r(nd), e = (unsigned)r.range(b + 1, nd);
            try { if (r.chance(1, 2)) bm->new_blocks(striping(), v.begin(), v.end()); else bm->new_blocks(RC(b, e), v.begin(), v.end()); }
            catch (const bad_ext_alloc&) { threw = true; }
            if (threw) {
                ++refused;
                VP_EQ(bm->get_free_bytes(), f0, "oom-leak", "free bytes after a refused request over several disks");
                VP_EQ(bm->get_current_allocation(), c0, "oom-leak", "current allocation after a refused request");
            }
            else {
                VP_EQ(bm->get_free_bytes(), f0 - v.size() * 4096, "bm-conservation", "free bytes after a granted request");
                held.insert(held.end(), v.begin(), v.end());
            }
        }
        else if (held.size()) {
            size_t n = r.range(1, held.size());
            for (size_t k = 0; k < n; ++k) { size_t x = r(held.size()); bm->delete_block(held[x]); held[x] = held.back(); held.pop_back(); }
        }
        VP_EQ(bm->get_total_bytes(), total, "fixed-disk-grew", "total size of fixed disks");
        VP_EQ(bm->get_free_bytes() + held.size() * 4096, total, "bm-conservation", "free + held bytes");
        ctx.note(held.size());
    }
    bm->delete_blocks(held.begin(), held.end());
    VP_EQ(bm->get_free_bytes(), total, "bm-leak", "free bytes after releasing everything");
    if (refused) { vp::count("manager_refusals", refused); vp::nontrivial(ctx.h); }
}
