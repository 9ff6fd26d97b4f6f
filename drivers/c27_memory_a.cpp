#include "c27_memory.h"
// sorting, streams and scans
using namespace stxxl; using namespace mem;
namespace {
struct R64 { typedef u64 key_type; u64 k; char pad[56]; u64 key() const { return k; } };
struct R16 { typedef u64 key_type; u64 k, l; u64 key() const { return k; } };
inline bool operator == (const R16& a, const R16& b) { return a.k == b.k; } inline bool operator == (const R64& a, const R64& b) { return a.k == b.k; }
inline std::ostream& operator << (std::ostream& o, const R16& r) { return o << r.k; } inline std::ostream& operator << (std::ostream& o, const R64& r) { return o << r.k; }
template <class R> R make(u64 k) { R r = R(); r.k = k; return r; }
template <class R> struct Less { bool operator () (const R& a, const R& b) const { return a.k < b.k; } R min_value() const { return make<R>(0); } R max_value() const { return make<R>(~0ull); } };
template <class R> struct Key { typedef u64 key_type; u64 operator () (const R& r) const { return r.k; } R min_value() const { return make<R>(0); } R max_value() const { return make<R>(~0ull); } };
template <class R> struct Gen { typedef R value_type; vp::Rng q; u64 n; R cur; Gen(u64 n_, u64 s) : q(s), n(n_) { cur = make<R>(q.next() | 1); } const R& operator * () const { return cur; } const R* operator -> () const { return &cur; } Gen& operator ++ () { --n; cur = make<R>(q.next() | 1); return *this; } bool empty() const { return n == 0; } };
template <class V> void fill(V& v, u64 seed) { vp::Rng q(seed); typename V::bufwriter_type w(v); for (u64 i = 0; i < v.size(); ++i) w << make<typename V::value_type>(q.next() | 1); w.finish(); }
template <class V> void ordered(const V& v) { u64 last = 0, i = 0; for (typename V::bufreader_type r(v); !r.empty(); ++r, ++i) { VP_CHECK((*r).k >= last, "not sorted", "element " << i); last = (*r).k; } }

template <class R, unsigned B> void sort_vector(vp::Ctx& ctx)
{
    warm(); typedef stxxl::vector<R, 2, lru_pager<2>, B> V; const u64 per = B / sizeof(R);
    u64 mb = ctx.rng.range(20, 64), M = mb * B + ctx.rng(B), blocks = mb * ctx.rng.range(2, 6) + ctx.rng(5), n = blocks * per - ctx.rng(per); int kind = (int)ctx.rng(3); if (kind == 2) { // every bucket has to fit: it does not recurse
        const u64 nd = config::get_instance()->disks_number(); u64 nb = 1, most; while (mb > 4 * nd && nb * 2 <= mb - 4 * nd) nb *= 2; most = nb * ((mb - 2 * nd) / 2 - 1) * 3 / 4; if (nb < 4 || most < mb) kind = 0; else blocks = std::min(blocks, most), n = std::min(n, blocks * per);
    }
     ctx.note(mb * 1000 + blocks * 4 + (u64)kind);
    V v(n); fill(v, ctx.rng.next()); v.flush();
    // sort() counts the workspace of the parallel mergesort; ksort() sorts keys in buckets, of which one may outgrow its average
    const char* what = kind == 0 ? "sort" : kind == 1 ? "ksort" : "stable_ksort";
    // stable_ksort() does not count its arrays of keys, two for a bucket
    // two buffers for each disk to read ahead and to write behind are the least, whatever M is
    const long long least = 4 * ((long long)config::get_instance()->disks_number() - 1) * B;
    const long long budget = (long long)M + least + (kind == 2 ? (long long)(M / sizeof(R) * 16) : 0);
    try {
        Meter m; if (kind == 0) stxxl::sort(v.begin(), v.end(), Less<R>(), M); else if (kind == 1) stxxl::ksort(v.begin(), v.end(), Key<R>(), M); else stxxl::stable_ksort(v.begin(), v.end(), M);
        within(what, "whole", m, budget, (long long)blocks, PER_BLOCK + 2 * (long long)sizeof(R), SLACK + 4 * B); left(what, "afterwards", m, 0, 0, PER_BLOCK, SLACK + 4 * B);
    } catch (std::exception& e) { if (kind == 2 && !dynamic_cast<vp::Failure*>(&e)) { vp::count("stable_ksort_refused"); return; } throw; }
    ordered(v); vp::nontrivial(ctx.h); vp::count("vector_sorts");
}
template <class R, unsigned B> void sorter_phases(vp::Ctx& ctx)
{
    warm(); typedef stxxl::sorter<R, Less<R>, B> S; const u64 per = B / sizeof(R); u64 mb = ctx.rng.range(20, 64), mg = ctx.rng.range(20, 64), M1 = mb * B + ctx.rng(B), M2 = mg * B + ctx.rng(B); int rounds = (int)ctx.rng.range(1, 3);
    Meter m; S s(Less<R>(), M1, M2);
    for (int i = 0; i < rounds; ++i) {
        u64 blocks = mb * ctx.rng.range(2, 6) + ctx.rng(5), n = blocks * per - ctx.rng(per); Gen<R> g(n, ctx.rng.next()); const long long pb = PER_BLOCK + 2 * (long long)sizeof(R), bl = (long long)blocks; ctx.note(mb * 10000 + mg * 100 + blocks);
        m.restart(); for (; !g.empty(); ++g) s.push(*g); within("sorter", "pushing", m, (long long)M1, bl, pb, SLACK + 4 * B);
        m.restart(); s.sort(); within("sorter", "turning", m, (long long)std::max(M1, M2), bl, pb, SLACK + 4 * B);
        u64 want = ctx.rng.chance(1, 3) ? ctx.rng(n) : n, last = 0; m.restart(); for (u64 j = 0; j < want; ++j, ++s) { VP_CHECK((*s).k >= last, "not sorted", "element " << j); last = (*s).k; } within("sorter", "reading", m, (long long)M2, bl, pb, SLACK + 4 * B);
        if (want == n && ctx.rng.chance(1, 2)) { m.restart(); s.rewind(); for (u64 j = 0; j < per; ++j) ++s; within("sorter", "reading again", m, (long long)M2, bl, pb, SLACK + 4 * B); }
        s.clear(); left("sorter", "cleared", m, (long long)M1, 0, PER_BLOCK, SLACK + 4 * B);
        if (ctx.rng.chance(1, 3)) { s.finish_clear(); left("sorter", "finish_clear", m, 0, 0, PER_BLOCK, SLACK + 4 * B); s.clear(); left("sorter", "cleared again", m, (long long)M1, 0, PER_BLOCK, SLACK + 4 * B); }
    }
    s.finish_clear(); vp::nontrivial(ctx.h); vp::count("sorters");
}
template <class R, unsigned B> void sort_streams(vp::Ctx& ctx)
{
    warm(); const u64 per = B / sizeof(R); u64 mb = ctx.rng.range(20, 64), mg = ctx.rng.range(20, 64), M1 = mb * B, M2 = mg * B, blocks = mb * ctx.rng.range(2, 6), n = blocks * per - ctx.rng(per); int kind = (int)ctx.rng(3); ctx.note(mb * 100000 + mg * 1000 + blocks * 4 + (u64)kind);
    const long long pb = PER_BLOCK + 2 * (long long)sizeof(R), bl = (long long)blocks; Gen<R> g(n, ctx.rng.next()); u64 want = ctx.rng.chance(1, 3) ? ctx.rng(n) : n, last = 0;
    Meter m;
    if (kind == 0) {
        typedef stream::runs_creator<Gen<R>, Less<R>, B> C; typedef stream::runs_merger<typename C::sorted_runs_type, Less<R> > G;
        typename C::sorted_runs_type runs; { C c(g, Less<R>(), M1); runs = c.result(); } within("runs_creator", "whole", m, (long long)M1, bl, pb, SLACK + 4 * B); left("runs_creator", "afterwards", m, 0, bl, pb, SLACK + 4 * B);
        m.restart(); { G r(runs, Less<R>(), M2); for (u64 j = 0; j < want; ++j, ++r) { VP_CHECK((*r).k >= last, "not sorted", "element " << j); last = (*r).k; } } within("runs_merger", "whole", m, (long long)M2, bl, pb, SLACK + 4 * B);
    } else if (kind == 1) {
        typedef stream::runs_creator<stream::use_push<R>, Less<R>, B> C; typedef stream::runs_merger<typename C::sorted_runs_type, Less<R> > G;
        typename C::sorted_runs_type runs; { C c(Less<R>(), M1); for (; !g.empty(); ++g) c.push(*g); runs = c.result(); } within("runs_creator (push)", "whole", m, (long long)M1, bl, pb, SLACK + 4 * B); left("runs_creator (push)", "afterwards", m, 0, bl, pb, SLACK + 4 * B);
        m.restart(); { G r(runs, Less<R>(), M2); for (u64 j = 0; j < want; ++j, ++r) { VP_CHECK((*r).k >= last, "not sorted", "element " << j); last = (*r).k; } } within("runs_merger", "whole", m, (long long)M2, bl, pb, SLACK + 4 * B);
    } else {
        typedef stream::sort<Gen<R>, Less<R>, B> S; S s(g, Less<R>(), M1, M2); within("stream::sort", "forming runs", m, (long long)std::max(M1, M2), bl, pb, SLACK + 4 * B);
        m.restart(); for (u64 j = 0; j < want; ++j, ++s) { VP_CHECK((*s).k >= last, "not sorted", "element " << j); last = (*s).k; } within("stream::sort", "reading", m, (long long)M2, bl, pb, SLACK + 4 * B);
    }
    left("sorting streams", "afterwards", m, 0, 0, PER_BLOCK, SLACK + 4 * B); vp::nontrivial(ctx.h); vp::count("sort_streams");
}
template <class R, unsigned B> void scans(vp::Ctx& ctx)
{
    warm(); typedef stxxl::vector<R, 1, lru_pager<4>, B> V; const u64 per = B / sizeof(R); u64 blocks = ctx.rng.range(60, 200), n = blocks * per - ctx.rng(per); unsigned nb = (unsigned)ctx.rng.range(2, 12); long long buf = (long long)std::max<u64>(nb, 4 * config::get_instance()->disks_number()) * B, bl = (long long)blocks; ctx.note(blocks * 100 + nb);
    V v(n); fill(v, ctx.rng.next()); v.flush(); u64 x = 0;
    { Meter m; stxxl::for_each(v.begin(), v.end(), [&x](const R& r) { x += r.k; }, nb); within("for_each", "whole", m, buf, bl, PER_BLOCK, SLACK + 4 * B); left("for_each", "afterwards", m, 0, 0, PER_BLOCK, SLACK + 4 * B); }
    { Meter m; stxxl::for_each_m(v.begin(), v.end(), [](R& r) { r.k ^= 5; }, nb); within("for_each_m", "whole", m, buf + 2 * (long long)B, bl, PER_BLOCK, SLACK + 4 * B); left("for_each_m", "afterwards", m, 0, 0, PER_BLOCK, SLACK + 4 * B); }
    { Meter m; VP_CHECK(stxxl::find(v.begin(), v.end(), make<R>(2), (int_type)nb) == v.end(), "found what is not there", ""); within("find", "whole", m, buf, bl, PER_BLOCK, SLACK + 4 * B); left("find", "afterwards", m, 0, 0, PER_BLOCK, SLACK + 4 * B); }
    { Meter m; { auto s = stream::streamify(v.begin(), v.end(), nb); V w(n); m.restart(); stream::materialize(s, w.begin(), w.end(), nb); within("streamify and materialize", "whole", m, 2 * buf + 4 * (long long)B, 3 * bl, PER_BLOCK, SLACK + 4 * B); } left("streamify and materialize", "afterwards", m, 0, 0, PER_BLOCK, SLACK + 4 * B); }
    { Meter m; { typename V::bufreader_type r(v.begin(), v.end(), nb); for (u64 i = 0; i < n; ++i, ++r) x += (*r).k; within("bufreader", "whole", m, buf, bl, PER_BLOCK, SLACK + 4 * B); } left("bufreader", "afterwards", m, 0, 0, PER_BLOCK, SLACK + 4 * B); }
    { Meter m; { typename V::bufwriter_type w(v.begin(), nb); for (u64 i = 0; i < n; ++i) w << make<R>(i); w.finish(); within("bufwriter", "whole", m, buf, bl, PER_BLOCK, SLACK + 4 * B); } left("bufwriter", "afterwards", m, 0, 0, PER_BLOCK, SLACK + 4 * B); }
    VP_EQ((u64)v[n - 1].k, n - 1, "wrong content", "last element"); vp::nontrivial(ctx.h); vp::count("scans");
}
// the buckets' streams hold a block each (in the count of M), the input and the output two buffers each, and a level of recursion a vector of 4 pages
template <class R, unsigned B, unsigned P> void shuffle(vp::Ctx& ctx, bool deep = false)
{
    warm(); typedef stxxl::vector<R, P, lru_pager<4>, B> V; const u64 per = B / sizeof(R); u64 mb = ctx.rng.range(10, 40), blocks = mb * ctx.rng.range(1, 9); if (deep) mb = ctx.rng.range(54, 62), blocks = mb / 3 * ((mb - mb / 3 - P) * 18 / 10); u64 n = blocks * per - ctx.rng(per); ctx.note(mb * 1000 + blocks);
    V v(n); fill(v, ctx.rng.next()); v.flush(); int levels = 0; for (u64 size = blocks, M = mb; size > M - M / 3 - P; ++levels) { size = size / (M / 3) + 1; M = std::max<u64>(6 + P, M - M / 3); }
    { Meter m; random_number32 rnd; stxxl::random_shuffle(v.begin(), v.end(), rnd, mb * B); within("random_shuffle", "whole", m, (long long)mb * (B + ALIGN) + levels * (long long)(4 * P + 10) * (B + ALIGN), (long long)blocks * (deep ? 1 : 2)); left("random_shuffle", "afterwards", m, 0, 0, PER_BLOCK, SLACK + 4 * B); }
    vp::nontrivial(ctx.h); vp::count("shuffles");
}
}
VP_SCENARIO_T(sort_vector, sort_small, 9, 120, R16, 16384);
VP_SCENARIO_T(sort_vector, sort_large, 12, 120, R64, 32768);
VP_SCENARIO_T(sorter_phases, sorter_small, 9, 90, R16, 16384);
VP_SCENARIO_T(sorter_phases, sorter_large, 9, 90, R64, 32768);
VP_SCENARIO_T(sort_streams, streams_small, 12, 120, R16, 16384);
VP_SCENARIO_T(sort_streams, streams_large, 12, 120, R64, 32768);
VP_SCENARIO_T(scans, scans_small, 9, 90, R16, 16384);
VP_SCENARIO_T(scans, scans_large, 9, 90, R64, 32768);
namespace { void shuffle_a(vp::Ctx& c) { shuffle<R16, 16384, 1>(c); } void shuffle_b(vp::Ctx& c) { shuffle<R64, 32768, 2>(c); } }
VP_SCENARIO(shuffle_small, 9, 90) { shuffle_a(ctx); }
VP_SCENARIO(shuffle_deep, 4, 40) { shuffle<R64, 16384, 2>(ctx, true); }
VP_SCENARIO(shuffle_large, 9, 90) { shuffle_b(ctx); }
