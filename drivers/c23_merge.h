// C23: in-memory merging, splitting, parallel mergesort and tournament trees against reference implementations.
#pragma once
#include "vp.h"
#include "records.h"
#include <stxxl/bits/config.h>
#include <stxxl/bits/parallel.h>
#include <stxxl/bits/parallel/multiway_mergesort.h>
#include <stxxl/bits/common/winner_tree.h>
#include <algorithm>
#include <atomic>
#include <deque>
#include <memory>
#include <set>
#include <string>
#if STXXL_PARALLEL
#include <omp.h>
#endif
#ifndef STXXL_PARALLEL
#define STXXL_PARALLEL 0
#endif
namespace c23 {
namespace sp = stxxl::parallel;
typedef uint64_t N64; // native elements: the upper bits are the key, the lower bits identify the element
inline uint64_t key_of(const N64& v) { return v >> 24; }
inline uint64_t id_of(const N64& v) { return v & 0xffffff; }
inline bool intact_of(const N64&) { return true; }
inline void make_elem(N64& v, uint64_t k, uint32_t id) { v = (k & 0xfffffffffull) << 24 | id; }
typedef Rec<uint64_t, 12> R;
inline uint64_t key_of(const R& v) { return v.k; }
inline uint64_t id_of(const R& v) { return v.id; }
inline bool intact_of(const R& v) { return v.intact(); }
inline void make_elem(R& v, uint64_t k, uint32_t id) { v = R(k & 0xfffffffffull, id); }
struct Live { static std::atomic<long>& n() { static std::atomic<long> x(0); return x; } };
struct Own { // owns memory, counts its instances
    std::string* s; uint64_t k; uint32_t id;
    Own() : s(new std::string("d")), k(0), id(0) { ++Live::n(); }
    Own(const Own& o) : s(new std::string(*o.s)), k(o.k), id(o.id) { ++Live::n(); }
    Own& operator = (const Own& o) { *s = *o.s; k = o.k; id = o.id; return *this; }
    ~Own() { delete s; s = NULL; --Live::n(); }
};
inline uint64_t key_of(const Own& v) { return v.k; }
inline uint64_t id_of(const Own& v) { return v.id; }
inline bool intact_of(const Own& v) { return *v.s == std::to_string(v.id); }
inline void make_elem(Own& v, uint64_t k, uint32_t id) { v.k = k & 0xfffffffffull; v.id = id; *v.s = std::to_string(id); }
static const uint64_t MAXKEY = 0xfffffffffull;

inline std::atomic<uint64_t>& ncomp() { static std::atomic<uint64_t> x(0); return x; }
// a comparison with state, checking what it is given
template <class T> struct Cmp {
    uint64_t flip; bool any; // any: sentinels and other elements of ours, too
    explicit Cmp(uint64_t f = 0) : flip(f), any(false) { }
    bool operator () (const T& a, const T& b) const {
        if (!intact_of(a) || !intact_of(b)) vp::fail_async("merge-garbage", "an element that is not of the input was compared");
        return (key_of(a) ^ flip) < (key_of(b) ^ flip);
    }
};
template <class T> bool same(const T& a, const T& b) { return key_of(a) == key_of(b) && id_of(a) == id_of(b); }
inline uint64_t pick_key(vp::Rng& r, unsigned mode, uint64_t base) {
    switch (mode) { case 0: return 1 + base % 1000; case 1: return 1 + r(3); case 2: return 1 + r(40); case 3: return 1 + r(MAXKEY - 2); default: return r.chance(1, 3) ? 1 + base % 1000 : 1 + r(2000); }
}
struct SettingsGuard {
    typedef sp::SETTINGS S; int nt; unsigned mo, so; bool fp, fs; uint64_t mn; int mk; S::MultiwayMergeAlgorithm a; S::Splitting s, ss;
    SettingsGuard() : nt(S::num_threads), mo(S::merge_oversampling), so(S::sort_mwms_oversampling), fp(S::force_parallel), fs(S::force_sequential), mn(S::multiway_merge_minimal_n), mk(S::multiway_merge_minimal_k), a(S::multiway_merge_algorithm), s(S::multiway_merge_splitting), ss(S::sort_splitting) { }
    ~SettingsGuard() { S::num_threads = nt; S::merge_oversampling = mo; S::sort_mwms_oversampling = so; S::force_parallel = fp; S::force_sequential = fs; S::multiway_merge_minimal_n = mn; S::multiway_merge_minimal_k = mk; S::multiway_merge_algorithm = a; S::multiway_merge_splitting = s; S::sort_splitting = ss; }
    void randomize(vp::Rng& r) {
        S::num_threads = (int)r.range(1, 8); S::merge_oversampling = (unsigned)r.range(1, 12); S::sort_mwms_oversampling = (unsigned)r.range(1, 12); S::force_parallel = r.chance(1, 6); S::force_sequential = r.chance(1, 8);
        S::multiway_merge_minimal_n = r.chance(1, 2) ? 0 : r(300); S::multiway_merge_minimal_k = (int)r(4); S::multiway_merge_algorithm = (S::MultiwayMergeAlgorithm)r(4);
        S::multiway_merge_splitting = r.chance(1, 2) ? S::EXACT : S::SAMPLING; S::sort_splitting = r.chance(1, 2) ? S::EXACT : S::SAMPLING;
    }
};
inline unsigned pick_k(vp::Rng& r) { static const unsigned b[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 64, 65 }; return r.chance(1, 60) ? 0 : r.chance(1, 200) ? 1000 + (unsigned)r(60) : b[r(r.chance(1, 2) ? 9 : 20)]; }

template <class T> struct PtrStore { // arrays of the exact size
    typedef T* iterator; std::vector<std::unique_ptr<T[]> > a; std::vector<size_t> n;
    iterator add(const std::vector<T>& v) { a.emplace_back(new T[v.size()]); std::copy(v.begin(), v.end(), a.back().get()); n.push_back(v.size()); return a.back().get(); }
};
template <class T> struct DequeStore { typedef typename std::deque<T>::iterator iterator; std::vector<std::unique_ptr<std::deque<T> > > a; iterator add(const std::vector<T>& v) { a.emplace_back(new std::deque<T>(v.begin(), v.end())); return a.back()->begin(); } };

template <class T, class Store, bool Stable, bool Sent>
void merge_case(vp::Ctx& ctx) {
    typedef typename Store::iterator It; typedef std::pair<It, It> P; vp::Rng& r = ctx.rng;
    SettingsGuard sg; sg.randomize(r);
    unsigned k = pick_k(r); Cmp<T> cmp(r.chance(1, 2) && !Sent ? MAXKEY : 0); Store st;
    std::vector<std::vector<T> > in(k); std::vector<P> seq(k); unsigned mode = (unsigned)r(5); uint64_t base = r.next(); uint32_t id = 0; size_t total = 0;
    size_t mx = k > 500 ? 6 : r.chance(1, 12) ? 0 : r.pick(std::vector<size_t>{ 1, 3, 20, 100, 400 }); unsigned shape = (unsigned)r(4);
    for (unsigned i = 0; i < k; ++i) {
        size_t n = shape == 0 ? mx : shape == 1 ? r(mx + 1) : shape == 2 ? (r.chance(1, 3) ? 0 : 1 + r(mx + 1)) : (i == base % k ? mx * 3 : r(4));
        if (mx == 0) n = 0;
        std::vector<uint64_t> ks(n); for (auto& x : ks) x = pick_key(r, mode, base);
        if (shape == 3 && r.chance(1, 2)) for (auto& x : ks) x = 1 + (x + i * 1000) % (MAXKEY - 1);
        std::sort(ks.begin(), ks.end(), [&](uint64_t a, uint64_t b) { return (a ^ cmp.flip) < (b ^ cmp.flip); });
        for (uint64_t x : ks) { T e; make_elem(e, x, id++); in[i].push_back(e); }
        std::vector<T> v = in[i]; if (Sent) { T e; make_elem(e, MAXKEY, 0xfffff0 + i % 16); v.push_back(e); }
        It b = st.add(v); seq[i] = P(b, b + n); total += n;
    }
    vp::cov("ways", k > 500 ? ">1000" : std::to_string(k)); vp::cov("algorithm", std::to_string((int)sp::SETTINGS::multiway_merge_algorithm)); vp::cov("splitting", std::to_string((int)sp::SETTINGS::multiway_merge_splitting)); vp::cov("threads", std::to_string((int)sp::SETTINGS::num_threads));
    ctx.note(k); ctx.note(total); ctx.note(mode);
    std::vector<P> orig = seq; std::vector<size_t> pos(k, 0); size_t left = total; unsigned rounds = 0; bool zero = r.chance(1, 6);
    while (left || zero) {
        size_t len = !left || (zero && r.chance(1, 2)) ? 0 : rounds > 6 || r.chance(1, 2) ? left : r.chance(1, 4) ? 1 : 1 + r(left); zero = false; ++rounds;
        unsigned front = (unsigned)r(STXXL_PARALLEL ? 4 : 2); bool nested = STXXL_PARALLEL && r.chance(1, 10);
        std::unique_ptr<T[]> out(new T[len]); T* e = NULL; typedef typename std::iterator_traits<It>::difference_type D; D dlen = (D)len;
        auto go = [&]() {
            switch (front) {
            case 0:
                e = Stable ? (Sent ? stxxl::potentially_parallel::multiway_merge_stable_sentinels(seq.begin(), seq.end(), out.get(), dlen, cmp) : stxxl::potentially_parallel::multiway_merge_stable(seq.begin(), seq.end(), out.get(), dlen, cmp))
                    : (Sent ? stxxl::potentially_parallel::multiway_merge_sentinels(seq.begin(), seq.end(), out.get(), dlen, cmp) : stxxl::potentially_parallel::multiway_merge(seq.begin(), seq.end(), out.get(), dlen, cmp));
                break;
            case 1: e = sp::sequential_multiway_merge<Stable, Sent>(seq.begin(), seq.end(), out.get(), dlen, cmp); break;
#if STXXL_PARALLEL
            default: e = sp::parallel_multiway_merge<Stable>(seq.begin(), seq.end(), out.get(), dlen, cmp); break;
#endif
            }
        };
        if (nested) { // as called by one thread of a parallel region, where no further threads are available
#if STXXL_PARALLEL
#pragma omp parallel num_threads(2)
            {
#pragma omp master
                go();
            }
#endif
            vp::count("nested_merges");
        }
        else go();
        std::string what = std::string(Stable ? "stable " : "") + (Sent ? "sentinels " : "") + (front == 0 ? "front end" : front == 1 ? "sequential" : "parallel") + (nested ? " nested" : "") + ", " + std::to_string(k) + " sequences with " + std::to_string(left) + " elements, length " + std::to_string(len) + ", algorithm " + std::to_string((int)sp::SETTINGS::multiway_merge_algorithm) + ", splitting " + std::to_string((int)sp::SETTINGS::multiway_merge_splitting) + ", " + std::to_string((int)sp::SETTINGS::num_threads) + " threads: ";
        VP_CHECK(k == 0 || e == out.get() + len, "merge-end", what << "returned iterator is off by " << (e - (out.get() + len)));
        size_t adv = 0; std::vector<T> ref;
        for (unsigned i = 0; i < k; ++i) {
            D a = seq[i].first - orig[i].first;
            VP_CHECK(a >= (D)pos[i] && a <= (D)in[i].size(), "merge-advance", what << "begin of sequence " << i << " moved from " << pos[i] << " to " << a << " of " << in[i].size());
            VP_CHECK(seq[i].second == orig[i].second, "merge-ends", what << "end of sequence " << i << " moved");
            for (size_t j = 0; j < in[i].size(); ++j) VP_CHECK(same(orig[i].first[j], in[i][j]), "merge-input", what << "input was modified");
            if (Sent) VP_CHECK(key_of(*orig[i].second) == MAXKEY, "merge-sentinel", what << "sentinel was modified");
            adv += (size_t)a - pos[i];
        }
        for (size_t j = 0; j < len; ++j) VP_CHECK(intact_of(out[j]), "merge-damaged", what << "damaged element at " << j);
        for (size_t j = 1; j < len; ++j) VP_CHECK(!cmp(out[j], out[j - 1]), "merge-order", what << "output is not sorted at " << j);
        if (Stable) {
            ref.clear(); for (unsigned i = 0; i < k; ++i) ref.insert(ref.end(), in[i].begin() + pos[i], in[i].end());
            std::stable_sort(ref.begin(), ref.end(), cmp);
            for (size_t j = 0; j < len; ++j) VP_CHECK(same(out[j], ref[j]), "merge-stable", what << "element " << j << " is (" << key_of(out[j]) << "," << id_of(out[j]) << "), expected (" << key_of(ref[j]) << "," << id_of(ref[j]) << ")");
        }
        VP_EQ(adv, len, "merge-consumed", what << "elements taken from the sequences");
        { // exactly the elements taken from the sequences, and all of those left are not smaller
            std::vector<uint64_t> x, y; const T* mxo = len ? &out[len - 1] : NULL;
            for (size_t j = 0; j < len; ++j) x.push_back(id_of(out[j]));
            for (unsigned i = 0; i < k; ++i) { size_t a = (size_t)(seq[i].first - orig[i].first); for (size_t j = pos[i]; j < a; ++j) y.push_back(id_of(in[i][j])); if (mxo && a < in[i].size()) VP_CHECK(!cmp(in[i][a], *mxo), "merge-smallest", what << "a smaller element stays in sequence " << i); pos[i] = a; }
            std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
            VP_CHECK(x == y, "merge-content", what << "output is not what was taken from the sequences");
        }
        left -= len; vp::count("merges"); vp::count("merged_elements", len); if (len && left) vp::count("partial_merges");
    }
    vp::nontrivial(ctx.h);
}

template <class T>
void partition_case(vp::Ctx& ctx) {
    vp::Rng& r = ctx.rng; typedef typename std::vector<T>::iterator It; unsigned m = (unsigned)(1 + r(r.chance(1, 2) ? 4 : 20)); Cmp<T> cmp(r.chance(1, 2) ? MAXKEY : 0);
    std::vector<std::vector<T> > s(m); std::vector<std::pair<It, It> > q; unsigned mode = (unsigned)r(5); uint64_t base = r.next(); uint32_t id = 0; std::vector<T> all; size_t mx = r.pick(std::vector<size_t>{ 1, 4, 30, 130 });
    for (unsigned i = 0; i < m; ++i) { size_t n = 1 + (r.chance(1, 2) ? mx - 1 : r(mx)); for (size_t j = 0; j < n; ++j) { T e; make_elem(e, pick_key(r, mode, base), id++); s[i].push_back(e); } std::stable_sort(s[i].begin(), s[i].end(), cmp); all.insert(all.end(), s[i].begin(), s[i].end()); }
    for (auto& v : s) q.push_back(std::make_pair(v.begin(), v.end()));
    std::stable_sort(all.begin(), all.end(), cmp); size_t N = all.size(); ctx.note(m); ctx.note(N); ctx.note(mode);
    std::vector<size_t> prev(m, 0); size_t step = N > 200 ? 1 + N / 200 : 1;
    for (size_t rank = 0; rank <= N; rank += (rank + step > N && rank != N) ? N - rank : step) {
        std::vector<It> o(m); sp::multiseq_partition(q.begin(), q.end(), (ptrdiff_t)rank, o.begin(), cmp);
        // the elements in front of the splitting points are the first ones of the stable order
        std::vector<uint64_t> x, y; for (size_t j = 0; j < rank; ++j) y.push_back(id_of(all[j]));
        for (unsigned i = 0; i < m; ++i) {
            VP_CHECK(o[i] >= s[i].begin() && o[i] <= s[i].end(), "part-range", "splitting point outside of the sequence");
            size_t p = (size_t)(o[i] - s[i].begin()); for (size_t j = 0; j < p; ++j) x.push_back(id_of(s[i][j]));
            VP_CHECK(p >= prev[i], "part-monotone", "splitting points are not monotone: rank " << rank << " of " << N << " in " << m << " sequences"); prev[i] = p;
        }
        VP_EQ(x.size(), rank, "part-rank", "elements in front of the splitting points");
        std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); VP_CHECK(x == y, "part-smallest", "the splitting points of rank " << rank << " of " << N << " in " << m << " sequences do not enclose the smallest elements, equal ones from the first sequences");
        vp::count("partitions");
        if (rank < N) {
            ptrdiff_t off = -1; T v = sp::multiseq_selection<T>(q.begin(), q.end(), (ptrdiff_t)rank, off, cmp);
            size_t lb = std::lower_bound(all.begin(), all.end(), all[rank], cmp) - all.begin();
            VP_CHECK(!cmp(v, all[rank]) && !cmp(all[rank], v), "sel-value", "selected element of rank " << rank << " of " << N << " has the key " << key_of(v) << ", expected " << key_of(all[rank]));
            VP_EQ((size_t)off, rank - lb, "sel-offset", "offset within the elements equal to the selected one");
            vp::count("selections");
        }
        if (rank == N) break;
    }
    vp::nontrivial(ctx.h);
}

// tournament trees, used directly
template <class T, class Tree>
void guarded_tree(vp::Ctx& ctx, bool stable) {
    vp::Rng& r = ctx.rng; unsigned k = std::max(1u, pick_k(r)); Cmp<T> cmp(r.chance(1, 2) ? MAXKEY : 0);
    std::vector<std::vector<T> > s(k); uint32_t id = 0; unsigned mode = (unsigned)r(5); uint64_t base = r.next(); std::vector<T> all; T dummy; make_elem(dummy, 5, 77);
    for (unsigned i = 0; i < k; ++i) { size_t n = r(8); for (size_t j = 0; j < n; ++j) { T e; make_elem(e, pick_key(r, mode, base), id++); s[i].push_back(e); } std::stable_sort(s[i].begin(), s[i].end(), cmp); all.insert(all.end(), s[i].begin(), s[i].end()); }
    std::stable_sort(all.begin(), all.end(), cmp); ctx.note(k); ctx.note(all.size());
    Tree t(k, cmp); std::vector<size_t> p(k, 0); std::vector<unsigned> order(k); for (unsigned i = 0; i < k; ++i) order[i] = i; std::random_shuffle(order.begin(), order.end(), [&](long n) { return (long)r((uint64_t)n); });
    for (unsigned i : order) t.insert_start(s[i].empty() ? dummy : s[i][0], i, s[i].empty());
    t.init(); std::set<uint64_t> seen;
    for (size_t j = 0; j < all.size(); ++j) {
        int w = t.get_min_source(); VP_CHECK(w >= 0 && (unsigned)w < k && p[w] < s[w].size(), "tree-source", "winner " << w << " of " << k << " has no element left");
        T& e = s[w][p[w]]; ++p[w];
        VP_EQ(key_of(e), key_of(all[j]), "tree-order", k << " players: key of element " << j); if (stable) VP_EQ(id_of(e), id_of(all[j]), "tree-stable", k << " players: element " << j << " with key " << key_of(e));
        VP_CHECK(seen.insert(id_of(e)).second, "tree-twice", "element twice");
        if (p[w] < s[w].size()) t.delete_min_insert(s[w][p[w]], false); else t.delete_min_insert(dummy, true);
    }
    vp::count("tree_elements", all.size()); vp::nontrivial(ctx.h);
}
template <class T, class Tree>
void unguarded_tree(vp::Ctx& ctx, bool stable) {
    vp::Rng& r = ctx.rng; unsigned k = std::max(1u, pick_k(r)); Cmp<T> cmp; // sentinels are greater than every element
    std::vector<std::vector<T> > s(k); uint32_t id = 0; unsigned mode = (unsigned)r(5); uint64_t base = r.next(); std::vector<T> all; T sent; make_elem(sent, MAXKEY, 0xffffff);
    for (unsigned i = 0; i < k; ++i) { size_t n = r(8); for (size_t j = 0; j < n; ++j) { T e; make_elem(e, pick_key(r, mode, base), id++); s[i].push_back(e); } std::stable_sort(s[i].begin(), s[i].end(), cmp); all.insert(all.end(), s[i].begin(), s[i].end()); s[i].push_back(sent); }
    std::stable_sort(all.begin(), all.end(), cmp); ctx.note(k); ctx.note(all.size());
    Tree t(k, sent, cmp); std::vector<size_t> p(k, 0); for (unsigned i = 0; i < k; ++i) t.insert_start(s[i][0], i);
    t.init();
    for (size_t j = 0; j < all.size(); ++j) {
        int w = t.get_min_source(); VP_CHECK(w >= 0 && (unsigned)w < k && p[w] + 1 < s[w].size(), "tree-source", "winner " << w << " of " << k << " has no element left");
        T& e = s[w][p[w]]; ++p[w];
        VP_EQ(key_of(e), key_of(all[j]), "tree-order", k << " players, unguarded: key of element " << j); if (stable) VP_EQ(id_of(e), id_of(all[j]), "tree-stable", k << " players, unguarded: element " << j);
        t.delete_min_insert(s[w][p[w]]);
    }
    vp::count("tree_elements", all.size()); vp::nontrivial(ctx.h);
}
#if STXXL_PARALLEL
template <class T, bool Stable>
void mwms_case(vp::Ctx& ctx) {
    vp::Rng& r = ctx.rng; SettingsGuard sg; sg.randomize(r); size_t n = r.pick(std::vector<size_t>{ 0, 1, 2, 5, 17, 60, 300, 1500, 4000 }); n = n > 17 ? 1 + r(n) : n; int th = (int)r.range(1, 9); Cmp<T> cmp(r.chance(1, 2) ? MAXKEY : 0);
    unsigned mode = (unsigned)r(5); uint64_t base = r.next(); long live0 = Live::n(); bool nested = r.chance(1, 10); ctx.note(n); ctx.note(mode); ctx.note((uint64_t)th);
    vp::cov("sort_threads", std::to_string(th)); vp::cov("sort_splitting", std::to_string((int)sp::SETTINGS::sort_splitting)); vp::cov("sort_merge_algorithm", std::to_string((int)sp::SETTINGS::multiway_merge_algorithm));
    {
        std::unique_ptr<T[]> a(new T[n]); std::vector<T> ref(n);
        for (size_t i = 0; i < n; ++i) { make_elem(a[i], pick_key(r, mode, base), (uint32_t)i); ref[i] = a[i]; }
        std::stable_sort(ref.begin(), ref.end(), cmp);
        if (nested) {
#pragma omp parallel num_threads(2)
            {
#pragma omp master
                sp::parallel_sort_mwms<Stable>(a.get(), a.get() + n, cmp, th);
            }
            vp::count("nested_sorts");
        }
        else sp::parallel_sort_mwms<Stable>(a.get(), a.get() + n, cmp, th);
        std::vector<bool> seen(n, false); std::string what = std::to_string(n) + " elements, " + std::to_string(th) + " threads, splitting " + std::to_string((int)sp::SETTINGS::sort_splitting) + (nested ? " nested" : "") + ": ";
        for (size_t i = 0; i < n; ++i) {
            VP_CHECK(intact_of(a[i]), "mwms-damaged", what << "damaged element at " << i);
            VP_EQ(key_of(a[i]), key_of(ref[i]), "mwms-order", what << "key at " << i); if (Stable) VP_EQ(id_of(a[i]), id_of(ref[i]), "mwms-stable", what << "element at " << i);
            VP_CHECK(id_of(a[i]) < n && !seen[id_of(a[i])], "mwms-content", what << "element twice at " << i); seen[id_of(a[i])] = true;
        }
    }
    VP_EQ((long)Live::n(), live0, "mwms-instances", "objects constructed and not destroyed by sorting " << n << " elements");
    vp::count("sorts"); vp::count("sorted_elements", n); vp::nontrivial(ctx.h);
}
#endif
}
