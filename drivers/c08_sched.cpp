// C08: swappable blocks against a content model, under every paging algorithm.
#include "vp.h"
#include "vp_monitor.h"
#include <stxxl/mng>
#include <stxxl/bits/mng/block_scheduler.h>
#include <map>
#include <set>
#include <algorithm>
using namespace stxxl;

static const unsigned N = 512;
static const uint64_t DEF = 0x5151515151515151ull;
struct SB : public swappable_block<uint64_t, N> {
    void fill_default() { for (unsigned i = 0; i < N; ++i) (*internal_data)[i] = DEF; }
};
typedef block_scheduler<SB> sched;
typedef sched::internal_block_type iblk;
typedef sched::external_block_type bid_t;
typedef sched::swappable_block_identifier_type sid;
static inline uint64_t val(uint64_t ver, unsigned i) { return ver == 0 ? DEF : vp::mix(ver * 1021 + i / 32) ^ i; }
static void fill(iblk& b, uint64_t v) { for (unsigned i = 0; i < N; ++i) b[i] = val(v, i); }

enum Kind { ACQ, ACQ_U, REL, DEINIT, INIT, EXTRACT, STEP, FREE, ALLOC };
struct Op { Kind k; int b; bool dirty; bool write; uint64_t ver; bool check; uint64_t expect; };

struct M { bool alloc, init, known; int refs; bool was_dirty; uint64_t ver; bool must; M() : alloc(false), init(false), known(true), refs(0), was_dirty(false), ver(0), must(false) { } };

struct Gen {
    vp::Rng& r; std::vector<M> m; int maxheld; std::vector<Op> ops; uint64_t& nextver; bool deinit, ext, uninit, recount; std::string tr;
    Gen(vp::Rng& r_, int K, int mh, uint64_t& nv) : r(r_), m(K), maxheld(mh), nextver(nv), deinit(true), ext(true), uninit(true), recount(true) { for (int i = 0; i < K; ++i) m[i].alloc = true; }
    int held() const { int h = 0; for (size_t i = 0; i < m.size(); ++i) h += m[i].refs > 0; return h; }
    void emit(Kind k, int b, char c, bool dirty = false, bool write = false, uint64_t ver = 0, bool check = false, uint64_t expect = 0) { Op o = { k, b, dirty, write, ver, check, expect }; ops.push_back(o); tr += c; tr += (char)('0' + b); }
    void release(int b) {
        M& x = m[b]; bool write = x.must || r.chance(2, 5);
        bool wasinit = x.init; (void)wasinit;
        if (write) x.ver = ++nextver;
        bool dirty = write || r.chance(1, 6);
        if (!x.init && !dirty && !x.was_dirty && x.refs > 1 && false) dirty = true;
        emit(REL, b, dirty ? 'R' : 'r', dirty, write, x.ver, !write && !x.must, x.ver);
        x.must = false; if (dirty) { x.init = true; }
        --x.refs;
        if (x.refs == 0 && !x.init) x.ver = 0;
    }
    void run(unsigned n) {
        for (unsigned o = 0; o < n; ++o) {
            int b = r.chance(1, 2) ? (int)r(std::min<size_t>(m.size(), 3)) : (int)r(m.size()); M& x = m[b];
            unsigned w = (unsigned)r(20);
            if (!x.alloc) { if (r.chance(1, 2)) { // only the smallest free identifier is handed out
                    for (size_t i = 0; i < m.size(); ++i) if (!m[i].alloc) { m[i] = M(); m[i].alloc = true; emit(ALLOC, (int)i, 'n'); break; } } continue; }
            if (w < 8) {
                if (x.refs ? (recount && x.refs < 3) : held() < maxheld) {
                    bool u = uninit && x.refs == 0 && r.chance(1, 5);
                    if (u) { x.must = true; emit(ACQ_U, b, 'u'); } else emit(ACQ, b, 'a', false, false, 0, !x.must, x.init || x.refs ? x.ver : 0);
                    ++x.refs;
                }
            } else if (w < 15) { if (x.refs) release(b); }
            else if (w == 15) { if (deinit && !x.refs) { x.init = false; x.ver = 0; emit(DEINIT, b, 'd'); } }
            else if (w == 16) { if (ext && !x.refs && !x.init) { x.init = true; x.ver = ++nextver; emit(INIT, b, 'i', false, false, x.ver); } }
            else if (w == 17) { if (ext && !x.refs && x.init) { emit(EXTRACT, b, 'x', false, false, x.ver); x.init = false; x.ver = 0; } }
            else if (w == 18) emit(STEP, b, 't');
            else if (w == 19) { if (deinit && !x.refs && r.chance(1, 2)) { emit(FREE, b, 'f'); x = M(); } }
        }
    }
    void close() { for (size_t b = 0; b < m.size(); ++b) while (m[b].refs) release((int)b); }
};

struct Exec {
    sched& bs; vp::Ctx& ctx; std::set<const iblk*> addrs; std::string what; size_t at = 0; bool simulated;
    Exec(sched& b, vp::Ctx& c) : bs(b), ctx(c), simulated(false) { }
    void check(const iblk& b, uint64_t ver, int id, const char* when) {
        for (unsigned i = 0; i < N; ++i) if (b[i] != val(ver, i)) vp::fail("swap-content", std::string(when) + ": operation " + std::to_string(at) + ", block " + std::to_string(id) + " does not hold version " + std::to_string(ver) + " at element " + std::to_string(i) + " [" + what + "]");
        vp::count("contents_checked");
    }
    void run(const std::vector<Op>& ops) {
        block_manager* bm = block_manager::get_instance(); iblk* tmp = new iblk; struct D { iblk* p; ~D() { delete p; } } d = { tmp };
        std::map<int, int> refs; std::map<int, bool> init; std::map<int, iblk*> ref;
        for (size_t i = 0; i < ops.size(); ++i) {
            at = i; const Op& o = ops[i]; bool sim = bs.is_simulating();
            switch (o.k) {
            case ACQ: case ACQ_U: { iblk& b = bs.acquire(o.b, o.k == ACQ_U); if (!sim) { addrs.insert(&b); if (refs[o.b]) VP_CHECK(ref[o.b] == &b, "swap-moved", "an acquired block moved in memory [" << what << "]"); VP_CHECK(&bs.get_internal_block(o.b) == &b, "swap-internal", "get_internal_block differs"); for (auto& z : ref) if (z.first != o.b && refs[z.first]) VP_CHECK(z.second != &b, "swap-aliased", "two acquired blocks share memory [" << what << "]"); if (o.check) check(b, o.expect, o.b, "acquire"); } refs[o.b]++; ref[o.b] = &b; break; }
            case REL: if (!sim) { iblk& b = *ref[o.b]; if (o.check) check(b, o.expect, o.b, "before release"); if (o.write) fill(b, o.ver); } bs.release(o.b, o.dirty); refs[o.b]--; break;
            case DEINIT: bs.deinitialize(o.b); VP_CHECK(!bs.is_initialized(o.b), "swap-init", "initialised after deinitialize [" << what << "]"); break;
            case INIT: if (sim) bs.initialize(o.b, bid_t()); else { bid_t e; bm->new_block(striping(), e, (unsigned)i); fill(*tmp, o.ver); tmp->write(e)->wait(); bs.initialize(o.b, e); vp::count("initialised_from_external"); } VP_CHECK(bs.is_initialized(o.b), "swap-init", "not initialised after initialize [" << what << "]"); break;
            case EXTRACT: { bid_t e = bs.extract_external_block(o.b); if (!sim) { VP_CHECK(e.valid(), "swap-extract", "extracted block is not valid [" << what << "]"); tmp->read(e)->wait(); check(*tmp, o.ver, o.b, "extracted block"); bm->delete_block(e); vp::count("extracted"); } VP_CHECK(!bs.is_initialized(o.b), "swap-init", "initialised after extract [" << what << "]"); break; }
            case STEP: bs.explicit_timestep(); break;
            case FREE: bs.free_swappable_block(o.b); break;
            case ALLOC: { sid s = bs.allocate_swappable_block(); VP_EQ((uint64_t)s, (uint64_t)o.b, "swap-alloc", "identifier handed out"); VP_CHECK(!bs.is_initialized(s), "swap-init", "new block is initialised"); break; }
            }
            vp::count("sched_ops");
        }
    }
};

static void sched_run(vp::Ctx& ctx, int algo) {
    vp::Rng& r = ctx.rng; int K = (int)r.range(2, 9), Mi = (int)r.range(1, 6); uint64_t nv = r(1u << 30) * 64;
    vp::MonStat s0 = vp::monitor_stat();
    {
        sched bs((int_type)(Mi * sizeof(iblk)));
        Exec ex(bs, ctx); std::vector<M> st; uint64_t live0;
        for (int i = 0; i < K; ++i) { sid s = bs.allocate_swappable_block(); VP_EQ((uint64_t)s, (uint64_t)i, "swap-alloc", "identifier"); }
        unsigned phases = (unsigned)r.range(1, 3);
        Gen base(r, K, Mi, nv); st = base.m;
        std::set<int> algos;
        for (unsigned p = 0; p < phases; ++p) {
            { // a stretch of online operation
                Gen g(r, K, Mi, nv); g.m = st; g.run((unsigned)r(p ? 20 : 40)); g.close(); ex.what = "online " + g.tr; ex.run(g.ops); st = g.m; ctx.note(vp::mix(g.ops.size()));
            }
            if (r.chance(1, 4)) bs.flush(), vp::count("flushes");
            if (algo == 0) continue;
            Gen g(r, K, Mi, nv); g.m = st;
            
            g.run((unsigned)r.range(5, 80)); g.close();
            if (g.ops.empty()) continue;
            vp::MonStat b = vp::monitor_stat();
            // frees in the sequence change the list of free identifiers, which simulation shares: put it back as it was
            block_scheduler_algorithm_simulation<SB>* sim = new block_scheduler_algorithm_simulation<SB>(bs);
            delete bs.switch_algorithm_to(sim);
            VP_CHECK(bs.is_simulating(), "swap-sim", "not simulating"); ex.what = "simulation " + g.tr; 
            std::vector<Op> simops(g.ops); std::vector<char> al(K, 1), a0(K); for (int i = 0; i < K; ++i) a0[i] = al[i] = st[i].alloc; 
            for (const Op& o : g.ops) { if (o.k == FREE) al[o.b] = 0; if (o.k == ALLOC) al[o.b] = 1; }
            if (al != a0) { // skip sequences that end with other identifiers free than they started with
                std::vector<Op> keep; for (const Op& o : g.ops) keep.push_back(o); // make them equal
                // final allocations / frees
                bool ok = true; for (int i = 0; i < K; ++i) if (!al[i] && a0[i]) { } else if (al[i] && !a0[i]) { Op o = { FREE, i, false, false, 0, false, 0 }; keep.push_back(o); g.m[i] = M(); }
                for (int i = 0; i < K; ++i) if (!al[i] && a0[i]) { Op o = { ALLOC, i, false, false, 0, false, 0 }; (void)ok; // smallest first, but ids free at the start come first
                        bool smaller = false; for (int j = 0; j < i; ++j) smaller = smaller || !a0[j]; if (smaller) ok = false; keep.push_back(o); g.m[i] = M(); g.m[i].alloc = true; }
                if (!ok) { delete bs.switch_algorithm_to(new block_scheduler_algorithm_online_lru<SB>(bs)); continue; }
                g.ops.swap(keep);
            }
            ex.run(g.ops);
            vp::MonStat a = vp::monitor_stat();
            VP_CHECK(a.reads == b.reads && a.writes == b.writes && a.live_bytes == b.live_bytes, "swap-sim-io", "simulation did I/O or allocated external blocks");
            if (algo == 1) delete bs.switch_algorithm_to(new block_scheduler_algorithm_offline_lfd<SB>(bs)); else delete bs.switch_algorithm_to(new block_scheduler_algorithm_offline_lru_prefetching<SB>(bs));
            VP_CHECK(!bs.is_simulating(), "swap-sim", "still simulating");
            ex.what = (algo == 1 ? "lfd " : "prefetching ") + g.tr; ex.run(g.ops); st = g.m; vp::count(algo == 1 ? "lfd_replays" : "prefetching_replays");
            if (algo == 1 && r.chance(1, 4)) { // beyond the prediction: falls back to online paging
                Gen e(r, K, Mi, nv); e.m = st; e.run((unsigned)r(20)); e.close(); ex.what += " then " + e.tr; ex.run(e.ops); st = e.m; vp::count("beyond_prediction"); }
            for (const Op& o : g.ops) ctx.note(o.k * 16 + o.b);
            delete bs.switch_algorithm_to(new block_scheduler_algorithm_online_lru<SB>(bs));
        }
        (void)live0;
        ex.what += " final";
        // everything is still there
        for (int i = 0; i < K; ++i) if (st[i].alloc) { VP_EQ(bs.is_initialized(i), st[i].init, "swap-init", "initialised at the end"); iblk& b = bs.acquire(i); ex.check(b, st[i].init ? st[i].ver : 0, i, "at the end"); bs.release(i, false); }
        VP_CHECK(ex.addrs.size() <= (size_t)Mi, "swap-memory", ex.addrs.size() << " internal blocks used, " << Mi << " allowed");
        for (int i = 0; i < K; ++i) if (st[i].alloc) bs.free_swappable_block(i);
        if (vp::monitor_stat().writes > s0.writes) vp::count("runs_with_swapping");
    }
    VP_EQ(vp::monitor_stat().live_bytes, s0.live_bytes, "swap-leak", "external bytes held after the scheduler was destroyed");
    ctx.note(K * 8 + Mi); vp::nontrivial(ctx.h);
}
VP_SCENARIO(online, 6000, 120000) { sched_run(ctx, 0); }
VP_SCENARIO(lfd, 6000, 120000) { sched_run(ctx, 1); }
VP_SCENARIO(prefetching, 6000, 120000) { sched_run(ctx, 2); }
