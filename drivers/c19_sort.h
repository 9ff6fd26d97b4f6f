// C19: external sorting of vector ranges against a sorted copy.
#include "vp.h"
#include <unistd.h>
#include "vp_monitor.h"
#include <stxxl/vector>
#include <stxxl/sort>
#include <stxxl/ksort>
#include <stxxl/stable_ksort>
#include <stxxl/io>
#include <algorithm>
#include <limits>
#include "records.h"
using namespace stxxl;

template <class V>
struct SortTest {
    typedef typename V::value_type T; typedef typename T::key_type K; typedef typename V::block_type block_type;
    vp::Ctx& ctx; vp::Rng& r; const size_t N;
    SortTest(vp::Ctx& c) : ctx(c), r(c.rng), N(block_type::size) { }
    struct ByKeyId { K off; bool desc; K x; bool operator () (const T& a, const T& b) const { K p = (K)((a.key() ^ x) - off), q = (K)((b.key() ^ x) - off); if (p != q) return desc ? p > q : p < q; return a.ident() < b.ident(); } };
    void run(int kind, size_t maxblocks, bool onfile, size_t bigM) {
        vp::MonStat before = vp::monitor_stat();
        std::string fname = ctx.tmp + "/sortfile"; syscall_file* f = NULL;
        size_t total, lo, hi; 
        {
            if (onfile) { ::unlink(fname.c_str()); f = new syscall_file(fname, file::RDWR | file::CREAT, (int)r(3)); }
            V* vp_ = f ? new V(f) : (r.chance(1, 3) ? new V((typename V::size_type)0, (unsigned_type)r.range(1, 4)) : new V()); V& v = *vp_;
            total = bigM ? (size_t)r.range(bigM, bigM + 8 * N) : r.boundary(N, maxblocks); if (onfile && total == 0) total = 1;
            uint64_t p = r.next(); unsigned d = (unsigned)r(DIST_COUNT); std::vector<T> m; m.reserve(total);
            // the range: whole, aligned or anywhere
            if (r.chance(1, 3) || bigM) { lo = 0; hi = total; } else { lo = r(total + 1); hi = r.range(lo, total); if (r.chance(1, 2)) { lo = lo / N * N; } if (r.chance(1, 2)) { hi = hi / N * N; } if (hi < lo) hi = lo; }
            size_t len = hi - lo; unsigned nd = (unsigned)config::get_instance()->disks_number();
            unsigned_type M; 
            if (kind >= 4) { // stable key sorting: blocks for buffers of every disk, at least 2 buckets; keys spread over the buckets
                size_t m_ = 4 * nd + 2 + r(40); if (bigM) m_ += 80;
                size_t nb = (size_t)1 << ilog2_floor(m_ - 4 * nd); size_t maxbl = (m_ - 2 * nd) / 2; if (len > nb * maxbl * N / 3) { len = nb * maxbl * N / 3; hi = lo + len; }
                if (d == FEW || d == EQUAL || d == SAW || d == CLUSTER || d == HIGHBITS || d == ONEOFF || d == NEARLY) d = r.chance(1, 2) ? UNIFORM : DIST_COUNT; // DIST_COUNT: many equal keys, still spread
                M = m_ * block_type::raw_size + r(block_type::raw_size);
            }
            else M = bigM ? (bigM * sizeof(T) / block_type::raw_size / 2 + r(8)) * block_type::raw_size : r.range(2, r.chance(1, 2) ? 6 : 30) * block_type::raw_size * (kind < 3 ? sort_memory_usage_factor() : 1) + (r.chance(1, 2) ? r(block_type::raw_size) : 0);
            uint64_t distinct = 1 + r(300);
            for (size_t i = 0; i < total; ++i) {
                bool in = i >= lo && i < hi; K k;
                if (kind >= 4 && in) k = d == DIST_COUNT ? (K)(((K)(vp::mix(r(distinct * 16) + p))) | 1) : d == UNIFORM ? (K)r.next() : dist_key<K>(r, d, i - lo, len, p);
                else k = dist_key<K>(r, d < DIST_COUNT ? d : (unsigned)UNIFORM, i, total, p);
                if (in && kind < 4) { if (k == 0) k = 1; }
                m.push_back(T(k, (uint32_t)i));
            }
            if (kind >= 4) { // no bucket may exceed half of the memory (a documented limit)
                size_t m_ = M / block_type::raw_size, lg = ilog2_floor(m_ - 4 * nd); std::vector<size_t> c((size_t)1 << lg, 0); for (size_t i = lo; i < hi; ++i) c[(size_t)(m[i].key() >> (sizeof(K) * 8 - lg))]++;
                for (size_t i = 0; i < c.size(); ++i) if (c[i] > (m_ - 2 * nd) / 2 * N) { vp::count("uneven_stable_inputs"); hi = lo; len = 0; break; }
            }
            v.resize(total); if (r.chance(1, 2)) { typename V::bufwriter_type w(v.begin()); for (size_t i = 0; i < total; ++i) w << m[i]; w.finish(); } else { size_t i = 0; for (typename V::iterator it = v.begin(); it != v.end(); ++it, ++i) *it = m[i]; }
            for (size_t q = r(6); q > 0 && total > 0; --q) { size_t i = r(total); if (kind < 4) { K k = dist_key<K>(r, UNIFORM, i, total, p); m[i] = T(k, (uint32_t)(total + q)); } v[i] = m[i]; } // some pages of the cache are dirty
            ByKeyId order = { 0, false, 0 }; K off = 0, x = 0;
            if (kind == 2) { off = (K)r.next(); order.off = off; for (size_t i = lo; i < hi; ++i) if (m[i].key() == off || m[i].key() == (K)(off - 1)) { m[i] = T((K)(off + 1), (uint32_t)(2 * total + i)); v[i] = m[i]; } }
            if (kind == 1) order.desc = true;
            if (kind == 3 && r.chance(1, 3)) { x = (K)r.next(); order.x = x; for (size_t i = lo; i < hi; ++i) { K kk = (K)(m[i].key() ^ x); if (kk == 0 || kk == std::numeric_limits<K>::max()) { m[i] = T((K)(x ^ 1), (uint32_t)(2 * total + i)); v[i] = m[i]; } } }
            bool external = len * sizeof(T) * (kind < 3 ? sort_memory_usage_factor() : 1) >= M; size_t blocks_before = (size_t)vp::monitor_stat().live_blocks;
            typename V::iterator a = v.begin() + lo, b = v.begin() + hi; ctx.note(kind); ctx.note(total); ctx.note(lo); ctx.note(hi); ctx.note(M); ctx.note(d); ctx.note(p);
            bool refused = false;
            if (kind < 3 && r.chance(1, 25)) { unsigned_type small = r(2 * block_type::raw_size * sort_memory_usage_factor()); try { sort(a, b, Less<T>(), small); VP_CHECK(len * sizeof(T) * sort_memory_usage_factor() < small, "sort-too-little-memory", "sort() accepts " << small << " bytes"); if (kind != 0) { refused = true; order = ByKeyId(); order.off = 0; order.desc = false; order.x = 0; } refused = true; } catch (bad_parameter&) { vp::count("refused_memory"); VP_EQ((size_t)vp::monitor_stat().live_blocks, blocks_before, "sort-leak", "blocks after a refused sort"); } }
            if (!refused) switch (kind) {
                case 0: sort(a, b, Less<T>(), M); break;
                case 1: sort(a, b, Greater<T>(), M); break;
                case 2: sort(a, b, Rot<T>(off), M); break;
                case 3: if (x == 0 && r.chance(1, 2)) ksort(a, b, M); else ksort(a, b, KeyX<T>(x), M); break;
                default: stable_ksort(a, b, M);
            }
            std::vector<T> e(m); if (kind >= 4) std::stable_sort(e.begin() + lo, e.begin() + hi, Less<T>()); else std::sort(e.begin() + lo, e.begin() + hi, order);
            if (external) { vp::count("external_sorts"); if (lo % N) vp::count("unaligned_first"); if (hi % N) vp::count("unaligned_last"); } else vp::count("internal_sorts");
            if (kind == 3) vp::count("key_sorts"); else if (kind >= 4) vp::count(external ? "stable_sorts" : "stable_sorts"); else vp::count("comparison_sorts");
            std::ostringstream w; w << " (kind " << kind << ", " << total << " elements, range [" << lo << "," << hi << "), " << N << " per block, M " << M << ", distribution " << d << (onfile ? ", on a file)" : ")");
            check(v, e, m, lo, hi, kind, w.str());
            VP_EQ((size_t)vp::monitor_stat().live_blocks, blocks_before, "sort-leak", "external blocks held after sorting" << w.str());
            vp::count("elements_sorted", len);
            if (f) { // the file has to hold the result when the vector is gone
                delete vp_; VP_EQ((uint64_t)vp::monitor_stat().live_bytes, before.live_bytes, "sort-leak", "external bytes held after a sorted vector on a file was destroyed" << w.str());
                V* again = new V(f, (typename V::size_type)total); check(*again, e, m, lo, hi, kind, w.str() + " read again from the file"); delete again; delete f; ::unlink(fname.c_str()); vp::count("sorts_on_files"); }
            else {
                if (r.chance(1, 4) && total) { size_t i = r(total); v[i] = m[i]; v.push_back(m[i]); e[i] = m[i]; e.push_back(m[i]); v.flush(); for (size_t q = 0; q < e.size(); ++q) VP_CHECK(v[q].ident() == e[q].ident() || (q >= lo && q < hi && kind < 4 && v[q].key() == e[q].key()), "sort-later-use", "element " << q << " after later changes" << w.str()); }
                delete vp_; }
            vp::nontrivial(ctx.h); if (r.chance(1, 200)) vp::sample("sort" + w.str());
        }
        VP_EQ((uint64_t)vp::monitor_stat().live_bytes, before.live_bytes, "sort-leak", "external bytes held after everything was destroyed");
    }
    void check(V& v, const std::vector<T>& e, const std::vector<T>& m, size_t lo, size_t hi, int kind, const std::string& w) {
        VP_EQ((size_t)v.size(), e.size(), "sort-size", "size of the vector" << w);
        std::vector<T> got; got.reserve(e.size()); const V& cv = v; { typename V::bufreader_type br(v); for ( ; !br.empty(); ++br) got.push_back(*br); } VP_EQ(got.size(), e.size(), "sort-size", "elements read" << w);
        for (size_t q = r(10); q > 0 && !e.empty(); --q) { size_t i = r(e.size()); VP_CHECK(cv[i] == got[i], "sort-content", "element " << i << " differs between two ways to read it" << w); }
        for (size_t i = 0; i < e.size(); ++i) {
            VP_CHECK(got[i].intact(), "sort-content", "element " << i << " is damaged" << w);
            if (i < lo || i >= hi) { VP_CHECK(got[i] == m[i], "sort-outside", "element " << i << " outside of the range changed" << w); }
            else VP_CHECK(got[i].key() == e[i].key(), "sort-order", "element " << i << " has key " << (uint64_t)got[i].key() << ", expected " << (uint64_t)e[i].key() << w);
        }
        if (kind >= 4) { for (size_t i = lo; i < hi; ++i) VP_CHECK(got[i].ident() == e[i].ident(), "sort-stability", "element " << i << " of key " << (uint64_t)e[i].key() << " is number " << got[i].ident() << ", expected number " << e[i].ident() << w); }
        else { std::vector<uint64_t> x, y; for (size_t i = lo; i < hi; ++i) { x.push_back(vp::mix(got[i].ident()) ^ vp::mix(got[i].key() + 1)); y.push_back(vp::mix(e[i].ident()) ^ vp::mix(e[i].key() + 1)); } std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); VP_CHECK(x == y, "sort-permutation", "the range is not a permutation of its former content" << w); }
    }
};
template <class V> static void sort_scn(vp::Ctx& ctx) { vp::Rng& r = ctx.rng; SortTest<V> t(ctx); t.run((int)r(3), r.chance(1, 20) ? 100 : 24, false, 0); }
template <class V> static void ksort_scn(vp::Ctx& ctx) { vp::Rng& r = ctx.rng; SortTest<V> t(ctx); t.run(3, r.chance(1, 20) ? 100 : 24, false, 0); }
template <class V> static void stable_scn(vp::Ctx& ctx) { vp::Rng& r = ctx.rng; SortTest<V> t(ctx); t.run(4, r.chance(1, 8) ? 150 : 40, false, 0); }
template <class V> static void file_scn(vp::Ctx& ctx) { vp::Rng& r = ctx.rng; SortTest<V> t(ctx); t.run((int)r(5), 24, true, 0); }
template <class V> static void big_scn(vp::Ctx& ctx) { vp::Rng& r = ctx.rng; SortTest<V> t(ctx); static const size_t n[4] = { 250000, 150000, 300000, 400000 }; t.run(r.chance(2, 3) ? 3 : (int)r(5), 0, false, n[r(4)]); }
template <class T, unsigned PS, class A, size_t BS> struct Vec { typedef vector<T, PS, lru_pager<2>, BS, A> type; };
