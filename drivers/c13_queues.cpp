// C13: external queue, sequence and deque against std::deque.
#include "vp.h"
#include "vp_monitor.h"
#include <stxxl/queue>
#include <stxxl/sequence>
#include <stxxl/deque>
#include <stxxl/vector>
#include <deque>
#include <memory>
#include <algorithm>
using namespace stxxl;
struct R12 { uint32_t a, b, c; R12() { } explicit R12(uint64_t v) : a((uint32_t)v), b((uint32_t)vp::mix(v)), c(~a) { } bool operator == (const R12& o) const { return a == o.a && b == o.b && c == o.c; } };
std::ostream& operator << (std::ostream& o, const R12& r) { return o << r.a; }
template <unsigned SZ> struct Big { uint64_t a; char pad[SZ - 16]; uint64_t z; Big() { } explicit Big(uint64_t v) : a(v), z(~v) { memset(pad, (int)v, sizeof pad); } bool operator == (const Big& o) const { return a == o.a && z == o.z && !memcmp(pad, o.pad, sizeof pad); } bool operator < (const Big& o) const { return a < o.a; } };
template <unsigned SZ> std::ostream& operator << (std::ostream& o, const Big<SZ>& r) { return o << r.a; }

template <class Q> struct Pools { typedef read_write_pool<typename Q::block_type> pool; std::vector<std::unique_ptr<pool>> v; };
template <class Q> static Q* mkq(vp::Rng& r, Pools<Q>& ps) {
    typedef typename Pools<Q>::pool pool;
    switch (r(4)) {
    case 0: return r.chance(1, 2) ? new Q() : new Q((int_type)r.range(1, 5));
    case 1: return new Q((unsigned_type)r.range(4, 7), (unsigned_type)r(6), (int)r(6) - 1);
    default: if (ps.v.empty() || r.chance(1, 2)) ps.v.push_back(std::unique_ptr<pool>(new pool(r(5), r.range(7, 10)))); pool& p = *ps.v[r(ps.v.size())]; if (p.size_write() < 5) p.resize_write(5); return new Q(p, (int)r(5) - 1);
    }
}
static const char* bad(const std::string& tr) { static thread_local std::string s; s = " ops " + tr; return s.c_str(); }

template <class Q>
static void queue_scn(vp::Ctx& ctx) {
    typedef typename Q::value_type T; vp::Rng& r = ctx.rng; const size_t N = Q::block_type::size;
    uint64_t live = vp::monitor_stat().live_bytes; std::string tr;
    {
        Pools<Q> ps; std::unique_ptr<Q> qs[2]; std::deque<T> ms[2]; unsigned nq = (unsigned)r.range(1, 2); uint64_t id = r(1000000);
        for (unsigned k = 0; k < nq; ++k) qs[k].reset(mkq(r, ps));
        unsigned ops = (unsigned)r.range(10, 60);
        for (unsigned o = 0; o < ops; ++o) {
            unsigned k = (unsigned)r(nq), op = (unsigned)r(9); Q& q = *qs[k]; const Q& cq = q; std::deque<T>& m = ms[k]; ctx.note(op); tr += (char)('a' + op);
            size_t c = r.chance(1, 2) ? r.range(1, 20) : r.boundary(N, 4);
            switch (op) {
            case 0: case 1: for (size_t i = 0; i < c && m.size() < 12 * N; ++i) { T x = T(++id); q.push(x); m.push_back(x); } break;
            case 2: case 3: for (size_t i = 0; i < c && !m.empty(); ++i) { VP_CHECK(cq.front() == m.front(), "queue-content", "front is " << cq.front() << " expected " << m.front() << " at size " << m.size() << bad(tr)); q.pop(); m.pop_front(); vp::count("queue_pops"); } break;
            case 4: if (!m.empty()) { VP_CHECK(q.back() == m.back() && cq.back() == m.back(), "queue-back", "back is " << q.back() << " expected " << m.back() << bad(tr)); T x = T(++id); if (r.chance(1, 2)) { q.back() = x; m.back() = x; } else { q.front() = x; m.front() = x; } vp::count("queue_modified"); } break;
            case 5: for (size_t i = 0; i < std::min<size_t>(c, 3 * N) && !m.empty(); ++i) { // rotate
                    if (r.chance(1, 8)) { T y = m.back(); q.push(q.back()); m.push_back(y); q.pop(); m.pop_front(); continue; }
                    VP_CHECK(q.front() == m.front(), "queue-content", "front while rotating" << bad(tr)); T y = m.front(); q.push(q.front()); m.push_back(y); q.pop(); m.pop_front(); vp::count("queue_rotations"); } break;
            case 6: if (nq > 1) { qs[0]->swap(*qs[1]); ms[0].swap(ms[1]); vp::count("queue_swaps"); } break;
            case 7: { int n = (int)r(7) - 1; q.set_prefetch_aggr(n); if (n >= 0) VP_EQ((int)q.get_prefetch_aggr(), n, "queue-prefetch", "get_prefetch_aggr"); break; }
            case 8: { // keep the size, move through blocks
                for (size_t i = 0; i < std::min<size_t>(c, 3 * N) && !m.empty(); ++i) { T x = T(++id); q.push(x); m.push_back(x); VP_CHECK(q.front() == m.front(), "queue-content", "front while sliding" << bad(tr)); q.pop(); m.pop_front(); } break; }
            }
            for (unsigned z = 0; z < nq; ++z) { VP_EQ((size_t)qs[z]->size(), ms[z].size(), "queue-size", "size" << bad(tr)); VP_EQ(qs[z]->empty(), ms[z].empty(), "queue-empty", "empty()"); if (!ms[z].empty()) { VP_CHECK(qs[z]->front() == ms[z].front(), "queue-content", "front" << bad(tr)); VP_CHECK(qs[z]->back() == ms[z].back(), "queue-back", "back" << bad(tr)); } }
            vp::count("queue_ops");
        }
        for (unsigned k = 0; k < nq; ++k) if (r.chance(3, 4)) while (!ms[k].empty()) { VP_CHECK(qs[k]->front() == ms[k].front(), "queue-content", "front at the end, size " << ms[k].size() << bad(tr)); qs[k]->pop(); ms[k].pop_front(); }
        qs[0].reset(); qs[1].reset();
    }
    VP_EQ(vp::monitor_stat().live_bytes, live, "queue-leak", "external bytes held after the queues were destroyed" << bad(tr));
    vp::nontrivial(ctx.h);
    if (r.chance(1, 60)) vp::sample("queue ops " + tr);
}

template <class Q>
static void seq_scn(vp::Ctx& ctx) {
    typedef typename Q::value_type T; vp::Rng& r = ctx.rng; const size_t N = Q::block_type::size;
    uint64_t live = vp::monitor_stat().live_bytes; std::string tr;
    {
        Pools<Q> ps; std::unique_ptr<Q> qs[2]; std::deque<T> ms[2]; unsigned nq = (unsigned)r.range(1, 2); uint64_t id = r(1000000);
        for (unsigned k = 0; k < nq; ++k) qs[k].reset(mkq(r, ps));
        unsigned ops = (unsigned)r.range(10, 70);
        for (unsigned o = 0; o < ops; ++o) {
            unsigned k = (unsigned)r(nq), op = (unsigned)r(14); Q& q = *qs[k]; const Q& cq = q; std::deque<T>& m = ms[k]; ctx.note(op); tr += (char)('a' + op);
            size_t c = r.chance(1, 2) ? r.range(1, 20) : r.boundary(N, 4);
            switch (op) {
            case 0: case 1: for (size_t i = 0; i < c && m.size() < 12 * N; ++i) { T x = T(++id); q.push_back(x); m.push_back(x); } break;
            case 2: case 3: for (size_t i = 0; i < c && m.size() < 12 * N; ++i) { T x = T(++id); q.push_front(x); m.push_front(x); } break;
            case 4: case 5: for (size_t i = 0; i < c && !m.empty(); ++i) { VP_CHECK(cq.front() == m.front(), "sequence-content", "front is " << cq.front() << " expected " << m.front() << " at size " << m.size() << bad(tr)); q.pop_front(); m.pop_front(); vp::count("sequence_pops"); } break;
            case 6: case 7: for (size_t i = 0; i < c && !m.empty(); ++i) { VP_CHECK(cq.back() == m.back(), "sequence-content", "back is " << cq.back() << " expected " << m.back() << " at size " << m.size() << bad(tr)); q.pop_back(); m.pop_back(); vp::count("sequence_pops"); } break;
            case 8: if (!m.empty()) { T x = T(++id); if (r.chance(1, 2)) { q.back() = x; m.back() = x; } else { q.front() = x; m.front() = x; } } break;
            case 9: { // forward stream, possibly abandoned
                size_t stop = r.chance(1, 3) ? r(m.size() + 1) : m.size(); typename Q::stream st(q); size_t i = 0;
                for ( ; i < stop; ++i, ++st) { VP_CHECK(!st.empty(), "sequence-stream", "stream ends at " << i << " of " << m.size() << bad(tr)); VP_EQ((size_t)st.size(), m.size() - i, "sequence-stream", "stream size"); VP_CHECK(*st == m[i], "sequence-stream", "element " << i << " is " << *st << " expected " << m[i] << bad(tr)); }
                if (stop == m.size()) VP_CHECK(st.empty(), "sequence-stream", "stream not empty at the end" << bad(tr)); vp::count("sequence_streams"); break; }
            case 10: { size_t stop = r.chance(1, 3) ? r(m.size() + 1) : m.size(); typename Q::reverse_stream st(q); size_t i = 0;
                for ( ; i < stop; ++i, ++st) { VP_CHECK(!st.empty(), "sequence-stream", "reverse stream ends at " << i << " of " << m.size() << bad(tr)); VP_CHECK(*st == m[m.size() - 1 - i], "sequence-reverse-stream", "element " << i << " from the end is " << *st << " expected " << m[m.size() - 1 - i] << bad(tr)); }
                if (stop == m.size()) VP_CHECK(st.empty(), "sequence-stream", "reverse stream not empty at the end" << bad(tr)); vp::count("sequence_reverse_streams"); break; }
            case 11: if (nq > 1) { qs[0]->swap(*qs[1]); ms[0].swap(ms[1]); } break;
            case 12: q.set_prefetch_aggr((int)r(7) - 1); break;
            case 13: for (size_t i = 0; i < std::min<size_t>(c, 3 * N) && !m.empty(); ++i) { // rotate either way
                    if (r.chance(1, 2) || (op & 1 && i < c / 2)) { T y = m.front(); q.push_back(q.front()); m.push_back(y); q.pop_front(); m.pop_front(); } else { T y = m.back(); q.push_front(q.back()); m.push_front(y); q.pop_back(); m.pop_back(); }
                    VP_CHECK(q.front() == m.front() && q.back() == m.back(), "sequence-content", "ends while rotating" << bad(tr)); } break;
            }
            for (unsigned z = 0; z < nq; ++z) { VP_EQ((size_t)qs[z]->size(), ms[z].size(), "sequence-size", "size" << bad(tr)); VP_EQ(qs[z]->empty(), ms[z].empty(), "sequence-empty", "empty()"); if (!ms[z].empty()) { VP_CHECK(qs[z]->front() == ms[z].front(), "sequence-content", "front" << bad(tr)); VP_CHECK(qs[z]->back() == ms[z].back(), "sequence-content", "back" << bad(tr)); } }
            vp::count("sequence_ops");
        }
        for (unsigned k = 0; k < nq; ++k) if (r.chance(3, 4)) while (!ms[k].empty()) { if (r.chance(1, 2)) { VP_CHECK(qs[k]->front() == ms[k].front(), "sequence-content", "front at the end, size " << ms[k].size() << bad(tr)); qs[k]->pop_front(); ms[k].pop_front(); } else { VP_CHECK(qs[k]->back() == ms[k].back(), "sequence-content", "back at the end" << bad(tr)); qs[k]->pop_back(); ms[k].pop_back(); } }
        qs[0].reset(); qs[1].reset();
    }
    VP_EQ(vp::monitor_stat().live_bytes, live, "sequence-leak", "external bytes held after the sequences were destroyed" << bad(tr));
    vp::nontrivial(ctx.h);
    if (r.chance(1, 60)) vp::sample("sequence ops " + tr);
}

template <class D>
static void deque_scn(vp::Ctx& ctx) {
    typedef typename D::value_type T; vp::Rng& r = ctx.rng; const size_t CAP = std::max<size_t>(1, (2u << 20) / sizeof(T));
    uint64_t live = vp::monitor_stat().live_bytes; std::string tr;
    {
        std::unique_ptr<D> qs[2]; std::deque<T> ms[2]; std::deque<char> df[2]; unsigned nq = (unsigned)r.range(1, 2); uint64_t id = r(1000000);
        for (unsigned k = 0; k < nq; ++k) { if (r.chance(2, 3)) qs[k].reset(new D()); else { size_t n = r(2 * CAP); qs[k].reset(new D(n)); ms[k].resize(n); df[k].assign(n, 0); } }
        auto eq = [&](const T& x, unsigned k, size_t i, const char* how) { if (df[k][i]) VP_CHECK(x == ms[k][i], "deque-content", how << ": element " << i << " of " << ms[k].size() << " is " << x << " expected " << ms[k][i] << bad(tr)); };
        unsigned ops = (unsigned)r.range(10, 60);
        for (unsigned o = 0; o < ops; ++o) {
            unsigned k = (unsigned)r(nq), op = (unsigned)r(16); D& q = *qs[k]; const D& cq = q; std::deque<T>& m = ms[k]; std::deque<char>& d = df[k]; ctx.note(op); tr += (char)('a' + op);
            size_t c = r.chance(1, 2) ? r.range(1, 10) : r.range(1, CAP), n = m.size();
            switch (op) {
            case 0: case 1: for (size_t i = 0; i < c && m.size() < 5 * CAP; ++i) { T x = T(++id); q.push_back(x); m.push_back(x); d.push_back(1); } break;
            case 2: case 3: for (size_t i = 0; i < c && m.size() < 5 * CAP; ++i) { T x = T(++id); q.push_front(x); m.push_front(x); d.push_front(1); } break;
            case 4: for (size_t i = 0; i < c && !m.empty(); ++i) { eq(cq.front(), k, 0, "front"); q.pop_front(); m.pop_front(); d.pop_front(); } break;
            case 5: for (size_t i = 0; i < c && !m.empty(); ++i) { eq(cq.back(), k, m.size() - 1, "back"); q.pop_back(); m.pop_back(); d.pop_back(); } break;
            case 6: if (n) for (int i = 0; i < 20; ++i) { size_t p = r(n); T x = T(++id); q[p] = x; m[p] = x; d[p] = 1; } break;
            case 7: if (n) for (int i = 0; i < 20; ++i) { size_t p = r(n); if (i & 1) eq(q[p], k, p, "operator[]"); else eq(cq[p], k, p, "const operator[]"); } break;
            case 8: { size_t s = r.chance(1, 2) ? r(n + 2) : r(4 * CAP); q.resize(s); m.resize(s); d.resize(s, 0); vp::count("deque_resizes"); break; }
            case 9: if (r.chance(1, 3)) { q.clear(); m.clear(); d.clear(); } break;
            case 10: if (nq > 1) { if (r.chance(1, 2)) qs[0]->swap(*qs[1]); else std::swap(*qs[0], *qs[1]); ms[0].swap(ms[1]); df[0].swap(df[1]); } break;
            case 11: { size_t i = 0; if (r.chance(1, 2)) { for (typename D::const_iterator it = cq.begin(); it != cq.end(); ++it, ++i) eq(*it, k, i, "const_iterator"); } else { for (typename D::iterator it = q.begin(); it != q.end(); it++, ++i) eq(*it, k, i, "iterator"); } VP_EQ(i, n, "deque-iterator", "elements iterated" << bad(tr)); break; }
            case 12: { size_t i = n; for (typename D::const_reverse_iterator it = cq.rbegin(); it != cq.rend(); ++it) { VP_CHECK(i > 0, "deque-iterator", "reverse iteration too long"); --i; eq(*it, k, i, "reverse_iterator"); } VP_EQ(i, (size_t)0, "deque-iterator", "reverse iteration" << bad(tr)); break; }
            case 13: if (n) { // iterator arithmetic
                size_t p = r(n); typename D::iterator it = q.begin() + p; typename D::const_iterator ci = cq.begin() + p;
                for (int j = 0; j < 40; ++j) { unsigned w = (unsigned)r(7); size_t e = r(n);
                    if (w == 0 && p + e < n) { it += e; ci += e; p += e; } else if (w == 1 && e <= p) { it -= e; ci -= e; p -= e; }
                    else if (w == 2 && p + 1 < n) { ++it; ci++; ++p; } else if (w == 3 && p > 0) { --it; ci--; --p; }
                    else if (w == 4) { typename D::iterator z = q.begin() + e; typename D::const_iterator cz = cq.begin() + e; VP_EQ((int64_t)(it - z), (int64_t)p - (int64_t)e, "deque-iterator-distance", "difference" << bad(tr)); VP_EQ((int64_t)(ci - cz), (int64_t)p - (int64_t)e, "deque-iterator-distance", "const difference"); VP_EQ((int64_t)(ci - z), (int64_t)p - (int64_t)e, "deque-iterator-distance", "mixed difference"); VP_EQ(it < z, p < e, "deque-iterator-compare", "<" << bad(tr)); VP_EQ(it <= cz, p <= e, "deque-iterator-compare", "<="); VP_EQ(ci > z, p > e, "deque-iterator-compare", ">"); VP_EQ(ci >= cz, p >= e, "deque-iterator-compare", ">="); VP_EQ(it == z, p == e, "deque-iterator-compare", "=="); VP_EQ(it != cz, p != e, "deque-iterator-compare", "!="); }
                    else if (w == 5 && p + e < n) { eq(ci[e], k, p + e, "const_iterator[]"); eq(*(it + e), k, p + e, "*(iterator+)"); eq(it[e], k, p + e, "iterator[]"); }
                    else if (w == 6 && e <= p) { eq(*(ci - e), k, p - e, "*(const_iterator-)"); int64_t s = -(int64_t)e; eq(*(it + s), k, p - e, "*(iterator+negative)"); }
                    if (j & 1) eq(*ci, k, p, "*const_iterator"); else { T x = T(++id); *it = x; m[p] = x; d[p] = 1; } }
                VP_EQ((size_t)(q.end() - q.begin()), n, "deque-iterator-distance", "end()-begin()" << bad(tr)); vp::count("deque_iterator_walks"); } break;
            case 14: if (nq > 1) { bool alldef = true; for (int z = 0; z < 2; ++z) for (char x : df[z]) alldef = alldef && x; if (alldef) { if (r.chance(1, 2)) { D& w = *qs[1 - k]; size_t keep = r(n + 1); std::deque<T> pre(m.begin(), m.begin() + keep); w.clear(); ms[1 - k].clear(); df[1 - k].clear(); for (const T& x : pre) { w.push_back(x); ms[1 - k].push_back(x); df[1 - k].push_back(1); } }
                    VP_EQ(*qs[0] == *qs[1], ms[0] == ms[1], "deque-equal", "operator==, sizes " << ms[0].size() << " and " << ms[1].size()); VP_EQ(*qs[0] < *qs[1], ms[0] < ms[1], "deque-less", "operator<"); vp::count("deque_comparisons"); } } break;
            case 15: { // slide through the ring
                for (size_t i = 0; i < c && !m.empty(); ++i) { T x = T(++id); if (o & 1) { q.push_back(x); m.push_back(x); d.push_back(1); eq(q.front(), k, 0, "front"); q.pop_front(); m.pop_front(); d.pop_front(); } else { q.push_front(x); m.push_front(x); d.push_front(1); eq(q.back(), k, m.size() - 1, "back"); q.pop_back(); m.pop_back(); d.pop_back(); } } break; }
            }
            VP_EQ((size_t)q.size(), m.size(), "deque-size", "size" << bad(tr)); VP_EQ(q.empty(), m.empty(), "deque-empty", "empty()"); if (!m.empty()) { eq(q.front(), k, 0, "front"); eq(q.back(), k, m.size() - 1, "back"); }
            vp::count("deque_ops");
        }
        for (unsigned k = 0; k < nq; ++k) for (size_t i = 0; i < ms[k].size(); ++i) eq((*qs[k])[i], k, i, "at the end");
    }
    VP_EQ(vp::monitor_stat().live_bytes, live, "deque-leak", "external bytes held after the deques were destroyed" << bad(tr));
    vp::nontrivial(ctx.h);
    if (r.chance(1, 60)) vp::sample("deque ops " + tr);
}
typedef queue<uint64_t, 4096> q8; typedef queue<R12, 4096> q12; typedef queue<Big<1000>, 4096> qb;
typedef sequence<uint64_t, 4096> s8; typedef sequence<R12, 4096> s12; typedef sequence<Big<1000>, 4096> sb;
typedef deque<Big<16384>, stxxl::vector<Big<16384>, 1, lru_pager<2>, 65536> > d16;
typedef deque<Big<65536>, stxxl::vector<Big<65536>, 2, lru_pager<2>, 65536> > d64;
typedef deque<Big<30000>, stxxl::vector<Big<30000>, 1, lru_pager<3>, 65536> > d30;
VP_SCENARIO_T(queue_scn, queue_u64, 1500, 40000, q8);
VP_SCENARIO_T(queue_scn, queue_r12, 1000, 30000, q12);
VP_SCENARIO_T(queue_scn, queue_big, 1500, 40000, qb);
VP_SCENARIO_T(seq_scn, sequence_u64, 1500, 40000, s8);
VP_SCENARIO_T(seq_scn, sequence_r12, 1000, 30000, s12);
VP_SCENARIO_T(seq_scn, sequence_big, 1500, 40000, sb);
VP_SCENARIO_T(deque_scn, deque_16k, 30, 1500, d16);
VP_SCENARIO_T(deque_scn, deque_64k, 80, 4000, d64);
VP_SCENARIO_T(deque_scn, deque_30k, 50, 2500, d30);
