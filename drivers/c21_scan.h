// C21: scanning, generating, searching and shuffling ranges of vectors against a std::vector.
#include "vp.h"
#include <unistd.h>
#include "vp_monitor.h"
#include <stxxl/vector>
#include <stxxl/scan>
#include <stxxl/random_shuffle>
#include <stxxl/io>
#include <algorithm>
#include <map>
#include "records.h"
using namespace stxxl;

template <class T> struct Log { const std::vector<T>* m; size_t at, end, calls; bool wrong; size_t where; };
// a functor with state of its own, which has to come back from the algorithm
template <class T> struct Reader { Log<T>* l; size_t own; uint64_t sum; bool spoil;
    void operator () (T& t) { if (l->at >= l->end || !(t == (*l->m)[l->at])) { if (!l->wrong) l->where = l->at; l->wrong = true; } l->at++; l->calls++; own++; sum += t.ident() * own; if (spoil) t = T((typename T::key_type)12345, 999999u); } };
template <class T> struct Changer { Log<T>* l; size_t own; uint64_t sum; std::vector<T>* to; size_t stride;
    void operator () (T& t) { if (l->at >= l->end || !(t == (*l->m)[l->at])) { if (!l->wrong) l->where = l->at; l->wrong = true; } if (l->at < l->end && own % stride == 0) t = (*to)[l->at]; l->at++; l->calls++; own++; sum += t.ident() * own; } };
template <class T> struct Setter { Log<T>* l; size_t own; std::vector<T>* to; void operator () (T& t) { if (l->at < l->end) t = (*to)[l->at]; else l->wrong = true; l->at++; l->calls++; own++; } };
template <class T> struct Maker { Log<T>* l; std::vector<T>* to; T operator () () { l->calls++; if (l->at >= l->end) { l->wrong = true; return T((typename T::key_type)1, 0); } return (*to)[l->at++]; } };
struct Rand { vp::Rng r; uint64_t calls; unsigned bad; explicit Rand(uint64_t s) : r(s), calls(0), bad(0) { } uint64_t operator () (uint64_t n) { calls++; if (n == 0) bad++; return r(n); } };

template <class V>
struct ScanTest {
    typedef typename V::value_type T; typedef typename T::key_type K; typedef typename V::block_type block_type; typedef typename V::iterator It; typedef typename V::const_iterator CIt;
    vp::Ctx& ctx; vp::Rng& r; const size_t N; uint32_t serial; std::vector<T> m; std::vector<char> known; V* v; std::ostringstream hist;
    ScanTest(vp::Ctx& c) : ctx(c), r(c.rng), N(block_type::size), serial(1), v(NULL) { }
    T fresh() { ++serial; return T((K)(vp::mix(serial * 77u + ctx.h) | 1), serial); }
    std::string where(size_t lo, size_t hi) { std::ostringstream o; o << " (range [" << lo << "," << hi << ") of " << m.size() << ", " << N << " per block, " << V::page_size << " blocks per page; history" << hist.str() << ")"; return o.str(); }
    void set(size_t i, const T& t) { (*v)[i] = t; m[i] = t; known[i] = 1; }
    void compare(size_t lo, size_t hi, const char* what) {
        const V& cv = *v; VP_EQ((size_t)v->size(), m.size(), "scan-size", "size after " << what << where(lo, hi));
        std::vector<T> got; got.reserve(m.size()); bool all = r.chance(1, 3);
        if (all) { typename V::bufreader_type b(*v); for ( ; !b.empty(); ++b) got.push_back(*b); }
        else { for (size_t i = 0; i < m.size(); ++i) got.push_back(cv[i]); }
        for (size_t i = 0; i < m.size(); ++i) if (known[i]) { VP_CHECK(got[i] == m[i] && got[i].intact(), i >= lo && i < hi ? "scan-content" : "scan-outside", "element " << i << (i >= lo && i < hi ? "" : " outside of the range") << " is " << got[i] << ", expected " << m[i] << " after " << what << where(lo, hi)); }
        vp::count("scan_elements_compared", m.size());
    }
    // the range may only be partly defined; then only algorithms which do not look at it are used
    bool defined(size_t lo, size_t hi) { for (size_t i = lo; i < hi; ++i) if (!known[i]) return false; return true; }
    void range(size_t& lo, size_t& hi) {
        size_t n = m.size();
        switch (r(6)) {
        case 0: lo = 0; hi = n; break;
        case 1: lo = r(n + 1); hi = std::min(n, lo + (size_t)r(2 * N)); break;                              // within one or two blocks
        case 2: lo = r(n + 1) / N * N; hi = std::min(n, lo + (size_t)r.boundary(N, 4)); break;
        case 3: hi = r(n + 1) / N * N; lo = r(hi + 1); break;
        case 4: lo = r(n + 1); hi = lo; break;
        default: lo = r(n + 1); hi = r.range(lo, n);
        }
    }
    void op_for_each(size_t lo, size_t hi) {
        int_type nb = r.chance(1, 4) ? 0 : (int_type)r.range(1, 9); Log<T> l = { &m, lo, hi, 0, false, 0 }; Reader<T> f = { &l, 0, 0, r.chance(1, 2) }, g;
        g = r.chance(1, 2) ? stxxl::for_each(v->begin() + lo, v->begin() + hi, f, nb) : stxxl::for_each(v->cbegin() + lo, v->cbegin() + hi, f, nb);
        VP_CHECK(!l.wrong, "for-each-order", "for_each() passed a wrong element at " << l.where << ", buffers " << nb << where(lo, hi)); VP_EQ(l.calls, hi - lo, "for-each-calls", "calls of the function by for_each(), buffers " << nb << where(lo, hi));
        uint64_t e = 0; if (!f.spoil) for (size_t i = lo; i < hi; ++i) e += m[i].ident() * (i - lo + 1); VP_CHECK(g.own == hi - lo && (f.spoil || g.sum == e), "for-each-functor", "the function object returned by for_each() counted " << g.own << " calls" << where(lo, hi));
        vp::count("for_each_calls", hi - lo); compare(lo, hi, "for_each()");
    }
    void op_for_each_m(size_t lo, size_t hi) {
        int_type nb = r.chance(1, 4) ? 0 : (int_type)r.range(2, 11); Log<T> l = { &m, lo, hi, 0, false, 0 }; std::vector<T> to(m); for (size_t i = lo; i < hi; ++i) to[i] = fresh();
        size_t own;
        if (defined(lo, hi)) {
            Changer<T> f = { &l, 0, 0, &to, (size_t)r.range(1, 3) }; Changer<T> g = stxxl::for_each_m(v->begin() + lo, v->begin() + hi, f, nb); own = g.own; uint64_t e = 0; for (size_t i = lo; i < hi; ++i) { if ((i - lo) % f.stride == 0) { m[i] = to[i]; } e += m[i].ident() * (i - lo + 1); }
            VP_CHECK(g.sum == e, "for-each-m-functor", "the function object returned by for_each_m() has wrong state" << where(lo, hi));
        }
        else { Setter<T> f = { &l, 0, &to }; own = stxxl::for_each_m(v->begin() + lo, v->begin() + hi, f, nb).own; for (size_t i = lo; i < hi; ++i) { m[i] = to[i]; known[i] = 1; } vp::count("for_each_m_on_fresh_pages"); }
        VP_CHECK(!l.wrong, "for-each-m-order", "for_each_m() passed a wrong element at " << l.where << ", buffers " << nb << where(lo, hi)); VP_EQ(l.calls, hi - lo, "for-each-m-calls", "calls of the function by for_each_m(), buffers " << nb << where(lo, hi)); VP_EQ(own, hi - lo, "for-each-m-functor", "calls counted by the returned function object" << where(lo, hi));
        vp::count("for_each_m_calls", hi - lo); compare(lo, hi, "for_each_m()");
    }
    void op_generate(size_t lo, size_t hi) {
        int_type nb = r.chance(1, 4) ? 0 : (int_type)r.range(1, 9); std::vector<T> to(m); for (size_t i = lo; i < hi; ++i) to[i] = fresh(); Log<T> l = { &m, lo, hi, 0, false, 0 }; Maker<T> f = { &l, &to };
        stxxl::generate(v->begin() + lo, v->begin() + hi, f, nb); VP_CHECK(!l.wrong && l.calls == hi - lo, "generate-calls", "generate() called the generator " << l.calls << " times, buffers " << nb << where(lo, hi));
        for (size_t i = lo; i < hi; ++i) { m[i] = to[i]; known[i] = 1; } vp::count("generated", hi - lo); compare(lo, hi, "generate()");
    }
    void op_find(size_t lo, size_t hi) {
        int_type nb = r.chance(1, 4) ? 0 : (int_type)r.range(1, 9); T x = fresh();
        // copies of the element inside, before and behind the range
        if (hi > lo) for (size_t q = r(4); q > 0; --q) set(lo + r(hi - lo), x);
        if (lo > 0 && r.chance(1, 2)) set(lo - 1, x); if (hi < m.size() && r.chance(1, 2)) set(hi, x); if (hi > lo && r.chance(1, 8)) set(hi - 1, x); if (hi > lo && r.chance(1, 8)) set(lo, x);
        if (!defined(lo, hi)) return;
        size_t e = (size_t)(std::find(m.begin() + lo, m.begin() + hi, x) - m.begin()), got;
        if (r.chance(1, 2)) { It a = stxxl::find(v->begin() + lo, v->begin() + hi, x, nb); got = (size_t)(a - v->begin()); if (got < hi) VP_CHECK(*a == x, "find-result", "the element found is another one" << where(lo, hi)); } else { CIt a = stxxl::find(v->cbegin() + lo, v->cbegin() + hi, x, nb); got = (size_t)(a - v->cbegin()); }
        VP_EQ(got, e, "find-result", "position found, buffers " << nb << where(lo, hi)); vp::count(e < hi ? "found" : "not_found");
        if (r.chance(1, 4)) compare(lo, hi, "find()");
    }
    void op_shuffle(size_t lo, size_t hi) {
        size_t M = r.chance(1, 3) ? (size_t)r(8 * block_type::raw_size) : (size_t)r.range(6 + V::page_size, 6 + V::page_size + r(40)) * block_type::raw_size + (r.chance(1, 2) ? r(block_type::raw_size) : 0);
        size_t lb = (size_t)vp::monitor_stat().live_blocks; Rand rnd(r.next());
        if (r.chance(1, 8)) { stxxl::set_seed((unsigned)r.next()); stxxl::random_shuffle(v->begin() + lo, v->begin() + hi, M); } else { stxxl::random_shuffle(v->begin() + lo, v->begin() + hi, rnd, M); VP_EQ(rnd.bad, 0u, "shuffle-random", "random numbers below 0 asked for"); }
        VP_EQ((size_t)vp::monitor_stat().live_blocks, lb, "shuffle-leak", "blocks held after random_shuffle()" << where(lo, hi));
        const V& cv = *v; std::vector<T> got; std::map<uint64_t, size_t> left; size_t moved = 0;
        for (size_t i = lo; i < hi; ++i) left[m[i].ident() * 31 + m[i].key()]++;
        for (size_t i = lo; i < hi; ++i) { T t = cv[i]; VP_CHECK(t.intact(), "shuffle-permutation", "element " << i << " is damaged" << where(lo, hi)); std::map<uint64_t, size_t>::iterator p = left.find(t.ident() * 31 + t.key()); VP_CHECK(p != left.end() && p->second > 0, "shuffle-permutation", "element " << i << " after random_shuffle() with " << M << " bytes, " << t << ", is none of the range, or one too many" << where(lo, hi)); p->second--; if (!(t == m[i])) moved++; m[i] = t; }
        if (hi - lo > 40) VP_CHECK(moved > 0, "shuffle-nothing", "random_shuffle() moved nothing of " << hi - lo << " elements" << where(lo, hi));
        vp::count("shuffled", hi - lo); if ((hi - lo) * sizeof(T) > (6 + V::page_size) * block_type::raw_size) vp::count("large_shuffles"); compare(lo, hi, "random_shuffle()");
    }
    void run(bool onfile, size_t maxblocks) {
        vp::MonStat before = vp::monitor_stat(); std::string fname = ctx.tmp + "/scanfile"; syscall_file* f = NULL; 
        if (onfile) { ::unlink(fname.c_str()); f = new syscall_file(fname, file::RDWR | file::CREAT, (int)r(3)); }
        size_t total = r.boundary(N, maxblocks); if (total == 0) total = 1;
        if (f) { v = new V(f); v->resize(total); } else v = r.chance(1, 2) ? new V((typename V::size_type)total) : new V((typename V::size_type)total, (unsigned_type)r.range(1, 4));
        m.assign(total, T((K)0, 0)); known.assign(total, 0);
        switch (r(4)) { // how the vector is filled
        case 0: break;                                                               // not at all: pages never written
        case 1: for (size_t i = 0; i < total; ++i) set(i, fresh()); break;
        case 2: { typename V::bufwriter_type w(v->begin()); for (size_t i = 0; i < total; ++i) { m[i] = fresh(); known[i] = 1; w << m[i]; } w.finish(); break; }
        default: { size_t a = r(total + 1), b = r.range(a, total); for (size_t i = a; i < b; ++i) set(i, fresh()); } // a part
        }
        size_t blocks = (size_t)vp::monitor_stat().live_blocks; uint64_t shape = 0;
        for (size_t ops = r.range(2, 10); ops > 0; --ops) {
            size_t lo, hi; range(lo, hi); unsigned k = (unsigned)r(12); bool def = defined(lo, hi);
            for (size_t q = r(4); q > 0; --q) { size_t i = r(total); set(i, fresh()); } // dirty pages in the cache
            if (r.chance(1, 3)) { const V& cv = *v; for (size_t q = r(4); q > 0; --q) { size_t i = r(total); if (known[i]) VP_CHECK(cv[i] == m[i], "scan-content", "element " << i << where(0, 0)); } }
            if (!def && k < 8) k = r.chance(1, 2) ? 4 : 8;
            hist << ' ' << k << ':' << lo << '-' << hi; ctx.note(k); ctx.note(lo); ctx.note(hi); shape = vp::hash_combine(shape, k);
            if (k < 3) op_for_each(lo, hi); else if (k < 6) op_for_each_m(lo, hi); else if (k < 8) op_shuffle(lo, hi); else if (k < 10) op_generate(lo, hi); else op_find(lo, hi);
            if (lo == hi) vp::count("empty_ranges"); if (lo % N) vp::count("unaligned_begin"); if (hi % N && hi > lo) vp::count("unaligned_end");
            VP_EQ((size_t)vp::monitor_stat().live_blocks, blocks, "scan-leak", "external blocks held" << where(lo, hi));
        }
        vp::cov("sequences", vp::mix(shape) % 16 < 16 ? std::string("k") + std::to_string(shape % 64) : "");
        // everything reaches the disk
        v->flush(); compare(0, m.size(), "flush()");
        if (f) { delete v; std::vector<char> raw(((m.size() + N - 1) / N) * block_type::raw_size); { V again(f, (typename V::size_type)m.size()); v = &again; compare(0, m.size(), "opening the file again"); } v = NULL; delete f; ::unlink(fname.c_str()); vp::count("file_runs"); }
        else delete v;
        VP_EQ((uint64_t)vp::monitor_stat().live_bytes, before.live_bytes, "scan-leak", "external bytes held at the end");
        vp::nontrivial(ctx.h); if (r.chance(1, 100)) vp::sample(where(0, 0));
    }
};
template <class V> static void scan_scn(vp::Ctx& ctx) { ScanTest<V> t(ctx); t.run(false, ctx.rng.chance(1, 10) ? 60 : 12); }
template <class V> static void scan_file_scn(vp::Ctx& ctx) { ScanTest<V> t(ctx); t.run(true, 12); }
// every permutation of few elements occurs, and every element of many reaches every part of the range
template <class V> static void perm_scn(vp::Ctx& ctx) {
    typedef typename V::value_type T; typedef typename T::key_type K; vp::Rng& r = ctx.rng; const size_t N = V::block_type::size;
    { size_t off = r.chance(1, 2) ? 0 : r(2 * N); V v(off + 4 + N); for (size_t i = 0; i < off + 4 + N; ++i) v[i] = T((K)(i + 1), (uint32_t)i);
      std::map<uint64_t, size_t> seen; Rand rnd(r.next()); const unsigned_type M4 = (unsigned_type)(r.chance(1, 3) ? 24 * 4096 : (6 + V::page_size + r(3)) * V::block_type::raw_size); const int Q = 1600;
      for (int q = 0; q < Q; ++q) { // from the same order each time: every order is equally likely
          for (size_t i = 0; i < 4; ++i) v[off + i] = T((K)(off + i + 1), (uint32_t)(off + i));
          stxxl::random_shuffle(v.begin() + off, v.begin() + off + 4, rnd, M4); const V& c = v; uint64_t p = 0; for (size_t i = 0; i < 4; ++i) p = p * 256 + (c[off + i].ident() - off) % 256; seen[p]++; }
      VP_EQ(seen.size(), (size_t)24, "shuffle-permutations", "permutations of 4 elements seen in " << Q << " shuffles (offset " << off << ")");
      double chi = 0; for (auto& x : seen) { double e = Q / 24.0, d = x.second - e; chi += d * d / e; }
      VP_CHECK(chi < 130, "shuffle-bias", "the permutations of 4 elements are not equally likely: chi-square " << chi << " with 23 degrees of freedom after " << Q << " shuffles with " << M4 << " bytes"); vp::count("permutation_runs"); }
    { size_t n = 8 * N + r(N), rounds = 40; V v(n); std::vector<std::vector<int> > seen(8, std::vector<int>(8, 0)); Rand rnd(r.next()); unsigned_type M = (unsigned_type)(6 + V::page_size + r(8)) * V::block_type::raw_size;
      for (size_t q = 0; q < rounds; ++q) { for (size_t i = 0; i < n; ++i) v[i] = T((K)(i + 1), (uint32_t)i); stxxl::random_shuffle(v.begin(), v.end(), rnd, M); const V& c = v; size_t fixed = 0, follow = 0; for (size_t i = 0; i < n; ++i) { size_t id = (size_t)c[i].ident(); seen[id * 8 / n][i * 8 / n]++; if (id == i) fixed++; if (i && c[i].ident() == c[i - 1].ident() + 1) follow++; }
        VP_CHECK(fixed < 30 && follow < 30, "shuffle-permutations", "a shuffle of " << n << " elements left " << fixed << " in place and " << follow << " behind their predecessors"); }
      for (int a = 0; a < 8; ++a) for (int b = 0; b < 8; ++b) VP_CHECK(seen[a][b] > 0, "shuffle-permutations", "no element of part " << a << " ever reached part " << b << " in " << rounds << " shuffles of " << n << " elements"); }
    ctx.note(r.next()); vp::nontrivial(ctx.h);
}
template <class T, unsigned PS, class A, size_t BS, unsigned P> struct Vec { typedef vector<T, PS, lru_pager<P>, BS, A> type; };
template <class T, unsigned PS, class A, size_t BS, unsigned P> struct RVec { typedef vector<T, PS, random_pager<P>, BS, A> type; };
