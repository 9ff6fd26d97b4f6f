#include "c23_merge.h"
using namespace c23;
VP_SCENARIO(native_unstable, 500, 10000) { merge_case<N64, PtrStore<N64>, false, false>(ctx); }
VP_SCENARIO(native_stable, 500, 10000) { merge_case<N64, PtrStore<N64>, true, false>(ctx); }
VP_SCENARIO(native_sentinels, 500, 10000) { merge_case<N64, PtrStore<N64>, false, true>(ctx); }
VP_SCENARIO(native_stable_sentinels, 500, 10000) { merge_case<N64, PtrStore<N64>, true, true>(ctx); }
VP_SCENARIO(partition_native, 120, 3000) { partition_case<N64>(ctx); }
VP_SCENARIO(tree_copy, 300, 6000) { if (ctx.rng.chance(1, 2)) guarded_tree<N64, sp::LoserTreeCopy<true, N64, Cmp<N64> > >(ctx, true); else guarded_tree<R, sp::LoserTreeCopy<false, R, Cmp<R> > >(ctx, false); }
VP_SCENARIO(tree_copy_unguarded, 300, 6000) { if (ctx.rng.chance(1, 2)) unguarded_tree<N64, sp::LoserTreeCopyUnguarded<true, N64, Cmp<N64> > >(ctx, true); else unguarded_tree<R, sp::LoserTreeCopyUnguarded<false, R, Cmp<R> > >(ctx, false); }
#if STXXL_PARALLEL
VP_SCENARIO(mwms_native, 300, 5000) { if (ctx.rng.chance(1, 2)) mwms_case<N64, true>(ctx); else mwms_case<N64, false>(ctx); }
#endif
VP_SCENARIO(split_equally, 400, 4000) {
    vp::Rng& r = ctx.rng; int p = (int)r.range(1, 40); long n = (long)r(r.chance(1, 2) ? 60 : 100000); std::vector<long> s(p + 1, -1);
    VP_CHECK(sp::equally_split(n, p, s.begin()) == s.end(), "split-end", "returned iterator");
    VP_EQ(s[0], 0l, "split-first", "first"); VP_EQ(s[p], n, "split-last", "last");
    for (int i = 0; i < p; ++i) { long d = s[i + 1] - s[i]; VP_CHECK(d == n / p || d == n / p + (n % p != 0), "split-even", "piece " << i << " of " << p << " of " << n << " elements has " << d); }
    ctx.note((uint64_t)p); ctx.note((uint64_t)n); vp::count("splits"); vp::nontrivial(ctx.h);
}
namespace {
struct Players { std::vector<uint64_t> v; bool operator () (size_t a, size_t b) const { if (a >= v.size() || b >= v.size()) vp::fail_async("winner-index", "player that does not exist was compared"); return v.at(a) < v.at(b); } };
void winner(vp::Ctx& ctx) {
    vp::Rng& r = ctx.rng; Players pl; pl.v.resize(4096); unsigned n = (unsigned)r.range(1, 20); for (auto& x : pl.v) x = r(30);
    stxxl::winner_tree<Players> t(n, pl); std::set<size_t> act; unsigned ops = (unsigned)r.range(20, 200); size_t lim = n;
    auto check = [&](const char* op) {
        VP_EQ(t.empty(), act.empty(), "winner-empty", "empty() after " << op); if (act.empty()) return;
        size_t w = t.top(); VP_CHECK(act.count(w), "winner-active", "winner " << w << " is not active after " << op); uint64_t mn = ~0ull; for (size_t a : act) mn = std::min(mn, pl.v[a]);
        VP_EQ(pl.v[w], mn, "winner-min", "value of the winner after " << op << ", " << act.size() << " active players in " << t.num_slots() << " slots"); vp::count("winner_checks");
    };
    auto some = [&]() { auto i = act.begin(); std::advance(i, r(act.size())); return *i; };
    for (unsigned o = 0; o < ops; ++o) {
        unsigned op = (unsigned)r(12); ctx.note(op);
        if (op < 3) { size_t i = r(lim); if (r.chance(1, 15)) { i = lim + r(40); lim = i + 1; vp::count("winner_slots_doubled"); } pl.v[i] = r(30); t.activate_player(i); act.insert(i); check("activate_player"); }
        else if (op < 5 && act.size()) { size_t i = t.top(); pl.v[i] += r(10); t.replay_on_pop(); check("replay_on_pop"); }
        else if (op < 7 && act.size()) { size_t i = some(); pl.v[i] = r(30); t.notify_change(i); check("notify_change"); }
        else if (op == 7 && act.size()) { size_t i = some(); act.erase(i); t.deactivate_player(i); check("deactivate_player"); }
        else if (op == 8 && act.size()) { std::vector<size_t> x; unsigned c = (unsigned)r.range(1, 4); while (c-- && act.size()) { size_t i = some(); act.erase(i); x.push_back(i); } for (size_t i : x) t.deactivate_player_step(i); for (size_t i : x) t.replay_on_deactivations(i); check("deactivate_player_step"); vp::count("winner_batches"); }
        else if (op == 9 && r.chance(1, 3)) { unsigned c = (unsigned)r.range(1, 4); while (c--) { if (act.size() && r.chance(1, 2)) { size_t i = some(); act.erase(i); t.deactivate_without_replay(i); } else { size_t i = r(lim); act.insert(i); t.activate_without_replay(i); } } for (size_t a : act) if (r.chance(1, 5)) pl.v[a] = r(30); t.rebuild(); check("rebuild"); }
        else if (op == 10 && r.chance(1, 4)) { if (r.chance(1, 2)) { t.clear(); act.clear(); check("clear"); } else { lim = 1 + r(60); t.resize_and_clear(lim); act.clear(); check("resize_and_clear"); } }
        else if (op == 11 && r.chance(1, 3)) { lim = 1 + r(60); t.resize_and_rebuild(lim); act.clear(); for (size_t i = 0; i < lim; ++i) act.insert(i); check("resize_and_rebuild"); }
    }
    vp::nontrivial(ctx.h);
}
}
VP_SCENARIO(winner_tree, 600, 10000) { winner(ctx); }
