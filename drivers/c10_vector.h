// C10: external vector against std::vector, over page/cache/block/pager configurations.
#include "vp.h"
#include "vp_monitor.h"
#include <stxxl/vector>
#include <deque>
#include <algorithm>

struct Rec12 { uint32_t a, b, c; Rec12() { } explicit Rec12(uint64_t v) : a((uint32_t)v), b((uint32_t)(v * 3)), c((uint32_t)(v >> 7)) { } bool operator == (const Rec12& o) const { return a == o.a && b == o.b && c == o.c; } bool operator < (const Rec12& o) const { return a < o.a; } };
struct Rec100 { uint64_t a; char pad[84]; uint64_t z; Rec100() { } explicit Rec100(uint64_t v) : a(v), z(~v) { memset(pad, (int)(v * 31), sizeof pad); } bool operator == (const Rec100& o) const { return a == o.a && z == o.z && memcmp(pad, o.pad, sizeof pad) == 0; } bool operator < (const Rec100& o) const { return a < o.a; } };
template <class T> inline uint64_t id_of(const T& t) { return (uint64_t)t; }
template <> inline uint64_t id_of(const Rec12& t) { return t.a; }
template <> inline uint64_t id_of(const Rec100& t) { return t.a; }

template <class T>
struct VModel {
    std::vector<T> v; std::vector<char> def;
    void resize(size_t n) { v.resize(n); def.resize(n, 0); }
    void set(size_t i, const T& x) { v[i] = x; def[i] = 1; }
    void push(const T& x) { v.push_back(x); def.push_back(1); }
    size_t size() const { return v.size(); }
};

template <class V>
struct VTest {
    typedef typename V::value_type T;
    typedef typename V::block_type block_type;
    typedef typename V::iterator iter;
    typedef typename V::const_iterator citer;
    vp::Ctx& ctx; vp::Rng& r; uint64_t next_id; unsigned unit, maxsz; unsigned pagesz;
    VTest(vp::Ctx& c) : ctx(c), r(c.rng), next_id(1 + c.rng(1000)), unit(block_type::size), maxsz(block_type::size * V::page_size * 5), pagesz(V::page_size) { if (maxsz > 20000) maxsz = std::max(20000u, (unsigned)(block_type::size * 6)); }
    T fresh() { return T(next_id++); }
    void eq(const T& got, VModel<T>& m, size_t i, const char* how) {
        if (m.def[i]) VP_CHECK(got == m.v[i], "vector-content", how << ": element " << i << " of " << m.size() << " is " << id_of(got) << ", expected " << id_of(m.v[i]));
    }
    void full_check(V& v, VModel<T>& m) {
        VP_EQ((size_t)v.size(), m.size(), "vector-size", "size");
        VP_EQ(v.empty(), m.size() == 0, "vector-empty", "empty()");
        VP_CHECK(v.capacity() >= v.size(), "vector-capacity", "capacity " << v.capacity() << " < size " << v.size());
        const V& cv = v;
        unsigned how = (unsigned)r(7); size_t i = 0;
        if (how == 0) { for (citer it = cv.begin(); it != cv.end(); ++it, ++i) eq(*it, m, i, "const_iterator"); VP_EQ(i, m.size(), "vector-iter", "elements iterated"); }
        else if (how == 1) { for (i = 0; i < m.size(); ++i) eq(cv[i], m, i, "const operator[]"); }
        else if (how == 2) { typename V::bufreader_type br(v, (unsigned)r(5)); for ( ; !br.empty(); ++i) { VP_EQ((size_t)br.size(), m.size() - i, "bufreader-size", "bufreader size"); T x; br >> x; VP_CHECK(i < m.size(), "bufreader-overrun", "too many elements"); eq(x, m, i, "bufreader"); } VP_EQ(i, m.size(), "bufreader-count", "elements read"); }
        else if (how == 3) { typename V::bufreader_reverse_type br(v, (unsigned)r(5)); i = m.size(); for ( ; !br.empty(); ++br) { VP_CHECK(i > 0, "bufreader-overrun", "too many elements"); --i; eq(*br, m, i, "bufreader_reverse"); } VP_EQ(i, (size_t)0, "bufreader-count", "elements left"); }
        else if (how == 4) { i = m.size(); for (typename V::const_reverse_iterator it = cv.rbegin(); it != cv.rend(); ++it) { --i; eq(*it, m, i, "reverse_iterator"); } VP_EQ(i, (size_t)0, "vector-iter", "reverse iteration"); }
        else if (how == 5) { for (i = m.size(); i > 0; ) { --i; eq(cv.at(i), m, i, "const at()"); } }
        else { for (iter it = v.begin(); it != v.end(); it++, ++i) eq(*it, m, i, "iterator"); }
        vp::count("vector_full_checks"); vp::count("vector_elements_compared", m.size());
    }
    size_t anysize() { size_t n = r.boundary(r.chance(1, 2) ? unit : unit * pagesz, 5); return std::min<size_t>(n, maxsz); }
    std::string trace;
    void run() {
        typedef VModel<T> M;
        std::deque<M> ms; std::deque<V*> vs;
        struct Cleaner { std::deque<V*>& v; ~Cleaner() { for (size_t i = 0; i < v.size(); ++i) delete v[i]; } } cleaner = { vs };
        unsigned nv = (unsigned)r.range(1, 3);
        for (unsigned k = 0; k < nv; ++k) {
            ms.push_back(M());
            if (r.chance(1, 2)) vs.push_back(new V());
            else { size_t n = anysize(); if (r.chance(1, 2)) vs.push_back(new V(n)); else vs.push_back(new V(n, (unsigned)r.range(1, 6))); ms[k].resize(n); }
        }
        unsigned ops = (unsigned)r.range(15, 60);
        for (unsigned o = 0; o < ops; ++o) {
            size_t k = r(nv); V& v = *vs[k]; M& m = ms[k]; const V& cv = v;
            size_t n = m.size();
            unsigned op = (unsigned)r(26);
            ctx.note(op); trace += (char)('a' + op);
            switch (op) {
            case 0: case 1: { size_t c = r.range(1, 60); for (size_t j = 0; j < c && m.size() < maxsz; ++j) { T x = fresh(); v.push_back(x); m.push(x); } break; }
            case 2: { size_t c = std::min(n, (size_t)r.range(1, 60)); for (size_t j = 0; j < c; ++j) { if (m.def.back()) { if (r.chance(1, 2)) eq(cv.back(), m, m.size() - 1, "back()"); else eq(v.back(), m, m.size() - 1, "back()"); } v.pop_back(); m.resize(m.size() - 1); } break; }
            case 3: case 4: if (n) { for (unsigned j = 0; j < 80; ++j) { size_t i = r(n); T x = fresh(); if (j & 1) v[i] = x; else v.at(i) = x; m.set(i, x); } } break;
            case 5: case 6: if (n) { for (unsigned j = 0; j < 120; ++j) { size_t i = r(n); if (j % 3 == 0) eq(v[i], m, i, "operator[]"); else eq(cv[i], m, i, "const operator[]"); } } break;
            case 7: { size_t s = anysize(); v.resize(s); m.resize(s); break; }
            case 8: { size_t s = anysize(); bool sh = r.chance(3, 4); v.resize(s, sh); m.resize(s); break; }
            case 9: { size_t s = r.boundary(unit, 6); v.reserve(s); VP_CHECK(v.capacity() >= s, "vector-reserve", "capacity " << v.capacity() << " after reserve(" << s << ")"); break; }
            case 10: if (r.chance(1, 3)) { v.clear(); m.resize(0); VP_CHECK(v.empty() && v.size() == 0, "vector-clear", "not empty after clear"); } break;
            case 11: v.flush(); break;
            case 12: if (nv > 1) { size_t q = r(nv); if (q != k) { if (r.chance(1, 2)) v.swap(*vs[q]); else std::swap(v, *vs[q]); std::swap(ms[k], ms[q]); } } break;
            case 13: { V* c = new V(v); M mc = m; struct D { V* p; ~D() { delete p; } } d = { c };
                full_check(*c, mc);
                for (unsigned j = 0; j < 5 && mc.size(); ++j) { size_t i = r(mc.size()); T x = fresh(); (*c)[i] = x; mc.set(i, x); }
                full_check(v, m); full_check(*c, mc); break; }
            case 14: if (nv > 1) { size_t q = r(nv); v = *vs[q]; m = M(ms[q]); } break;
            case 15: if (n) { // iterator arithmetic walk
                size_t p = r(n); iter it = v.begin() + p; citer ci = cv.begin() + p;
                for (unsigned j = 0; j < 60; ++j) {
                    unsigned w = (unsigned)r(6); size_t d = r(n);
                    if (w == 0 && p + d < n) { it += d; ci += d; p += d; }
                    else if (w == 1 && d <= p) { it -= d; ci -= d; p -= d; }
                    else if (w == 2 && p + 1 < n) { if (d & 1) { ++it; ++ci; } else { it++; ci++; } ++p; }
                    else if (w == 3 && p > 0) { if (d & 1) { --it; --ci; } else { it--; ci--; } --p; }
                    else if (w == 4) { iter e = v.begin() + d; VP_EQ((int64_t)(it - e), (int64_t)p - (int64_t)d, "iterator-distance", "iterator difference"); VP_EQ(it < e, p < d, "iterator-less", "iterator <"); VP_EQ(it == e, p == d, "iterator-equal", "iterator =="); VP_EQ(ci >= e, p >= d, "iterator-ge", "const_iterator >= iterator"); }
                    else if (w == 5 && p + d < n) { eq(ci[d], m, p + d, "const_iterator[]"); eq(*(ci + d), m, p + d, "*(const_iterator+)"); }
                    if (j & 1) eq(*ci, m, p, "*const_iterator"); else { T x = fresh(); *it = x; m.set(p, x); }
                }
                VP_EQ((size_t)(v.end() - v.begin()), n, "iterator-distance", "end()-begin()"); }
                break;
            case 16: if (n) { size_t a = r(n), b = r.range(a, n); std::fill(v.begin() + a, v.begin() + b, T(7)); for (size_t i = a; i < b; ++i) m.set(i, T(7)); } break;
            case 17: if (n) { size_t a = r(n), b = r.range(a, n); size_t c = r(n - (b - a) + 1); if (c <= a || c >= b) { std::vector<T> tmp(m.v.begin() + a, m.v.begin() + b); std::vector<char> td(m.def.begin() + a, m.def.begin() + b); citer s = cv.begin() + a, e = cv.begin() + b; { iter dst = v.begin() + c; for ( ; s != e; ++s, ++dst) { T x = *s; *dst = x; } } std::copy(tmp.begin(), tmp.end(), m.v.begin() + c); std::copy(td.begin(), td.end(), m.def.begin() + c); } } break;
            case 18: { // buffered writer over existing or appended elements
                size_t a = r.chance(1, 4) ? n : r.boundary(unit, 5); if (a > n) a = n ? r(n + 1) : 0;
                size_t len = r.chance(1, 3) ? r(5) : r.boundary(unit, 4);
                if (a + len > maxsz) len = maxsz > a ? maxsz - a : 0;
                { typename V::bufwriter_type bw(v.begin() + a, (unsigned)r(5));
                  for (size_t i = 0; i < len; ++i) { T x = fresh(); bw << x; if (a + i < m.size()) m.set(a + i, x); else m.push(x); }
                  if (r.chance(1, 2)) bw.finish(); }
                vp::count("bufwriter_runs"); break; }
            case 19: if (n) { // buffered reader over a range, with rewind
                size_t a = std::min(n, (size_t)r.boundary(unit, 4)), b = r.range(a, n);
                typename V::bufreader_type br(v.begin() + a, v.begin() + b, (unsigned)r(5)); size_t i = a;
                size_t stop = r.range(a, b); bool rew = r.chance(1, 2);
                while (!br.empty()) { if (rew && i == stop) { br.rewind(); i = a; rew = false; continue; } VP_EQ((size_t)br.size(), b - i, "bufreader-size", "bufreader size"); eq(*br, m, i, "bufreader range"); ++br; ++i; }
                VP_EQ(i, b, "bufreader-count", "range end"); vp::count("bufreader_runs"); }
                break;
            case 20: if (n) { size_t a = std::min(n, (size_t)r.boundary(unit, 4)), b = r.range(a, n);
                typename V::bufreader_reverse_type br(v.begin() + a, v.begin() + b, (unsigned)r(5)); size_t i = b; size_t stop = r.range(a, b); bool rew = r.chance(1, 2);
                while (!br.empty()) { if (rew && i == stop) { br.rewind(); i = b; rew = false; continue; } --i; eq(*br, m, i, "bufreader_reverse range"); ++br; }
                VP_EQ(i, a, "bufreader-count", "reverse range begin"); }
                break;
            case 21: if (n) { size_t i = r(n); bool c0 = cv.is_element_cached(i); (void)c0; eq(cv[i], m, i, "const operator[]"); VP_CHECK(cv.is_element_cached(i), "vector-cached", "element not cached right after access"); } break;
            case 22: v.deallocate_page_cache(); v.allocate_page_cache(); break;
            case 23: if (n) { if (m.def[0]) { eq(v.front(), m, 0, "front()"); eq(cv.front(), m, 0, "const front()"); } } break;
            case 24: if (nv > 1) { V& w = *vs[(k + 1) % nv]; M& mw = ms[(k + 1) % nv]; bool alldef = true; for (size_t i = 0; i < n; ++i) alldef = alldef && m.def[i]; for (size_t i = 0; i < mw.size(); ++i) alldef = alldef && mw.def[i];
                if (alldef) { VP_EQ(v == w, m.v == mw.v, "vector-equal", "operator=="); VP_EQ(v < w, m.v < mw.v, "vector-less", "operator<"); VP_EQ(v != w, m.v != mw.v, "vector-equal", "operator!="); VP_EQ(v >= w, !(m.v < mw.v), "vector-less", "operator>="); vp::count("vector_comparisons"); } } break;
            case 25: full_check(v, m); break;
            }
            VP_EQ((size_t)v.size(), m.size(), "vector-size", "size after operation " << (char)('a' + op));
            vp::count("vector_ops");
        }
        for (unsigned k = 0; k < nv; ++k) full_check(*vs[k], ms[k]);
        vp::nontrivial(ctx.h);
    }
};

template <class V>
void vector_scn(vp::Ctx& ctx) {
    uint64_t live = vp::monitor_stat().live_bytes;
    VTest<V> t(ctx);
    try { t.run(); } catch (vp::Failure& f) { vp::fail(f.key, std::string(f.what()) + " [ops " + t.trace + "]"); }
    if (getenv("VP_LEAKS")) VP_EQ(vp::monitor_stat().live_bytes, live, "vector-leaks-blocks", "external bytes held after all vectors were destroyed [ops " << t.trace << "]");
    std::ostringstream os; os << "elem=" << sizeof(typename V::value_type) << " blk=" << V::block_type::raw_size << " page=" << V::page_size; vp::cov("config", os.str());
    if (ctx.rng.chance(1, 10)) vp::sample(os.str() + " ops " + t.trace);
}
#define VEC_SCN(name, q, t, ...) typedef stxxl::vector<__VA_ARGS__> name ## _t; VP_SCENARIO_T(vector_scn, name, q, t, name ## _t)
