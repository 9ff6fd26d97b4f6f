// C16: external priority queue against a sorted model.
#include "vp.h"
#include "vp_monitor.h"
#include "records.h"
#include <stxxl/priority_queue>
#include <queue>
using namespace stxxl;

// the top is the largest with respect to the comparison; min_value() is below every element
template <class T> struct LessM { bool operator () (const T& a, const T& b) const { return a.key() < b.key(); } T min_value() const { return T::min_value(); } };
template <class T> struct GreaterM { bool operator () (const T& a, const T& b) const { return a.key() > b.key(); } T min_value() const { return T::max_value(); } };
template <class T> struct XorM { typedef typename T::key_type K; static K mask() { return (K)0x5a5a5a5a5a5a5a5aull; } bool operator () (const T& a, const T& b) const { return (K)(a.key() ^ mask()) < (K)(b.key() ^ mask()); } T min_value() const { return T(mask(), 0); } };

template <class PQ>
struct PQTest {
    typedef typename PQ::value_type T; typedef typename PQ::comparator_type C; typedef typename T::key_type K; typedef typename PQ::block_type block_type;
    struct ModelCmp { bool operator () (const T& a, const T& b) const { return C()(a, b); } };
    struct Model { std::priority_queue<T, std::vector<T>, C> q; std::vector<char> alive; std::vector<T> all; uint64_t size; Model() : size(0) { } };
    vp::Ctx& ctx; vp::Rng& r; bool ids; C cmp; K last; uint64_t seq;
    PQTest(vp::Ctx& c) : ctx(c), r(c.rng), ids(sizeof(T) != sizeof(K)), last(0), seq(0) { }
    bool below(const T& a, const T& b) { return cmp(a, b); }
    T make(Model& m, unsigned d, uint64_t p, size_t i, size_t n) {
        K k = d == 20 ? (K)(last + (K)r(1000) - 500) : d == 21 ? last : dist_key<K>(r, d, i, n, p); T t(k, (uint32_t)m.all.size());
        if (!cmp(cmp.min_value(), t)) t = T((K)(cmp.min_value().key() ^ 1), (uint32_t)m.all.size());
        if (!cmp(cmp.min_value(), t)) t = T((K)(cmp.min_value().key() ^ 2), (uint32_t)m.all.size());
        return t; }
    void push(PQ& q, Model& m, const T& t) { q.push(t); m.q.push(t); m.all.push_back(t); m.alive.push_back(1); ++m.size; }
    void sizes(PQ& q, Model& m) { VP_EQ((uint64_t)q.size(), m.size, "pq-size", "size()"); VP_EQ(q.empty(), m.size == 0, "pq-empty", "empty()"); }
    void pop(PQ& q, Model& m) {
        const T& t = q.top(); VP_CHECK(t.key() == m.q.top().key(), "pq-top", "the top has key " << (uint64_t)t.key() << " of " << m.size << " elements, expected " << (uint64_t)m.q.top().key() << " after " << seq << " operations"); VP_CHECK(t.intact(), "pq-damaged", "the top is damaged");
        if (ids) { uint64_t id = t.ident(); VP_CHECK(id < m.all.size() && m.all[id] == t, "pq-foreign", "the top was never inserted"); VP_CHECK(m.alive[id], "pq-twice", "element number " << id << " is delivered twice"); m.alive[id] = 0; }
        last = t.key(); q.pop(); m.q.pop(); --m.size; }
    size_t capacity() { size_t c = PQ::N; for (int i = 0; i < PQ::num_int_groups; ++i) c *= PQ::IntKMAX; for (int i = 0; i < PQ::num_ext_groups; ++i) c *= PQ::ExtKMAX; return c; }
    void history(PQ& q, Model& m, size_t budget) {
        size_t ops = 0; const size_t N = PQ::N; size_t lim = ctx.thorough ? 60000 : 25000;
        while (ops < budget) {
            unsigned d = r.chance(1, 4) ? 20 + (unsigned)r(2) : (unsigned)r(DIST_COUNT); uint64_t p = r.next(); size_t n = r.chance(1, 3) ? r(2 * N + 4) : r.chance(1, 2) ? r.boundary(N, PQ::IntKMAX) : r(N * PQ::IntKMAX * 2 + 1); n = std::min(n, std::min(budget - ops + 1, (size_t)6000)); unsigned kind = (unsigned)r(5); ctx.note(kind); ctx.note(n); ctx.note(d);
            if (kind <= 1) { for (size_t i = 0; i < n && m.size < lim; ++i) { push(q, m, make(m, d, p, i, n)); ++ops; ++seq; } vp::count("pushes", n); }
            else if (kind == 2) { size_t k = std::min<size_t>(n, m.size); for (size_t i = 0; i < k; ++i) { pop(q, m); ++seq; } ops += k + 1; vp::count("pops", k); if (m.size == 0) vp::count("drained"); }
            else if (kind == 3) { unsigned a = 1 + (unsigned)r(9); for (size_t i = 0; i < n; ++i) { if ((r(10) < a || m.size == 0) && m.size < lim) push(q, m, make(m, d, p, i, n)); else pop(q, m); ++ops; ++seq; } vp::count("mixed", n); }
            else { // hold: pop one, push one or two
                for (size_t i = 0; i < n && m.size > 0; ++i) { pop(q, m); push(q, m, make(m, d, p, i, n)); if (m.size < lim && r.chance(1, 10)) push(q, m, make(m, d, p, i, n)); ops += 2; seq += 2; } vp::count("holds", n); }
            sizes(q, m); if (m.size && r.chance(1, 2)) { const T& t = q.top(); VP_CHECK(t.key() == m.q.top().key(), "pq-top", "the top has key " << (uint64_t)t.key() << " of " << m.size << " elements, expected " << (uint64_t)m.q.top().key()); }
            ++ops;
        }
    }
    void run() {
        vp::MonStat before = vp::monitor_stat();
        {
            size_t w = 1 + r(r.chance(1, 2) ? 3 : 12), p = r(r.chance(1, 2) ? 3 : 12); typename PQ::pool_type* pool = NULL; PQ* q[2] = { NULL, NULL }; Model m[2]; int n = r.chance(1, 4) ? 2 : 1; ctx.note(w); ctx.note(p);
            if (n == 2 || r.chance(1, 2)) { pool = new typename PQ::pool_type(p, w); for (int i = 0; i < n; ++i) q[i] = new PQ(*pool); } else q[0] = new PQ(p * PQ::BlockSize + (r.chance(1, 2) ? r(PQ::BlockSize) : 0), w * PQ::BlockSize + (r.chance(1, 2) ? r(PQ::BlockSize) : 0));
            size_t cap = capacity(), budget = r.chance(1, 4) ? 200 + r(2000) : std::min((size_t)(ctx.thorough ? 40000 : 16000), cap + r(cap)); if (cap < 10000 && r.chance(1, 2)) budget = std::min((size_t)20000, 4 * cap);
            size_t slices = n == 1 ? 1 : 4; for (size_t s = 0; s < slices; ++s) for (int i = 0; i < n; ++i) { history(*q[i], m[i], budget / slices / n); if (n == 2) vp::count("shared_pools"); }
            for (int i = 0; i < n; ++i) if (r.chance(2, 3)) { while (m[i].size) { if (r.chance(1, 500)) sizes(*q[i], m[i]); pop(*q[i], m[i]); } sizes(*q[i], m[i]); vp::count("drained"); if (r.chance(1, 3)) { for (size_t k = 0; k < PQ::N + 2; ++k) push(*q[i], m[i], make(m[i], 0, 0, k, PQ::N)); for (size_t k = 0; k < PQ::N + 2; ++k) pop(*q[i], m[i]); sizes(*q[i], m[i]); } }
            for (int i = 0; i < n; ++i) { vp::count(m[i].size ? "destroyed_full" : "destroyed_empty"); delete q[i]; } delete pool;
        }
        VP_EQ((uint64_t)vp::monitor_stat().live_bytes, before.live_bytes, "pq-leak", "external bytes held after the queue was destroyed");
        vp::nontrivial(ctx.h);
    }
};
template <class PQ> static void pq_scn(vp::Ctx& ctx) { PQTest<PQ>(ctx).run(); }
// element, comparison, delete buffer, group length, internal arity and levels, block, external arity and levels
template <class T, class C, unsigned D, unsigned N, unsigned IK, unsigned IL, unsigned BS, unsigned EK, unsigned EL, class A = STXXL_DEFAULT_ALLOC_STRATEGY> struct Q { typedef priority_queue<priority_queue_config<T, C, D, N, IK, IL, BS, EK, EL, A> > type; };
