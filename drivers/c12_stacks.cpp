// C12: external stacks against std::vector.
#include "vp.h"
#include "vp_monitor.h"
#include <stxxl/stack>
#include <vector>
#include <stack>
#include <memory>
using namespace stxxl;

struct R12 { uint32_t a, b, c; R12() { } explicit R12(uint64_t v) : a((uint32_t)v), b((uint32_t)vp::mix(v)), c(~a) { } bool operator == (const R12& o) const { return a == o.a && b == o.b && c == o.c; } };
std::ostream& operator << (std::ostream& o, const R12& r) { return o << r.a; }

template <class S> struct Make { static S* mk(vp::Rng&, typename std::vector<std::shared_ptr<void>>&) { return new S(); } static S* from(const std::stack<typename S::value_type>& s) { return new S(s); } static const bool copies = true; };
template <class C> struct Make<grow_shrink_stack2<C> > {
    typedef grow_shrink_stack2<C> S; typedef read_write_pool<typename S::block_type> pool;
    static S* mk(vp::Rng& r, std::vector<std::shared_ptr<void>>& keep) { if (keep.empty() || r.chance(1, 3)) keep.push_back(std::shared_ptr<void>(new pool(r(6), r.range(1, 6)), [](void* p) { delete (pool*)p; })); return new S(*(pool*)keep[r(keep.size())].get(), (unsigned)r(5)); }
    static S* from(const std::stack<typename S::value_type>&) { return NULL; } static const bool copies = false; };
template <unsigned_type N, class E, class I> struct Make<migrating_stack<N, E, I> > { typedef migrating_stack<N, E, I> S; static S* mk(vp::Rng&, std::vector<std::shared_ptr<void>>&) { return new S(); } static S* from(const std::stack<typename E::value_type>&) { return NULL; } static const bool copies = false; };

template <class S> static void extra(S&, vp::Rng&) { }
template <class C> static void extra(grow_shrink_stack2<C>& s, vp::Rng& r) { unsigned n = (unsigned)r(6); s.set_prefetch_aggr(n); VP_EQ((size_t)s.get_prefetch_aggr(), (size_t)n, "stack-prefetch", "get_prefetch_aggr"); }
template <class S> static void mig(S&, size_t, bool&) { }
template <unsigned_type N, class E, class I> static void mig(migrating_stack<N, E, I>& s, size_t peak, bool&) { VP_EQ(s.internal(), peak < N, "stack-migration", "internal() with largest size " << peak); VP_EQ(s.external(), peak >= N, "stack-migration", "external()"); if (peak >= N) vp::count("stack_migrated"); }

template <class S>
static void stack_scn(vp::Ctx& ctx) {
    typedef typename S::cfg cfg; typedef typename cfg::value_type T;
    vp::Rng& r = ctx.rng; const size_t N = typed_block<cfg::block_size, T>::size, PG = N * cfg::blocks_per_page;
    uint64_t live = vp::monitor_stat().live_bytes; std::string tr;
    {
        std::vector<std::shared_ptr<void>> keep; unsigned ns = (unsigned)r.range(1, 2);
        std::vector<std::unique_ptr<S>> s; std::vector<std::vector<T>> m(ns); std::vector<size_t> peak(ns, 0); uint64_t id = r(1000000);
        for (unsigned k = 0; k < ns; ++k) {
            if (Make<S>::copies && r.chance(1, 3)) { size_t n = r.boundary(N, 2 * cfg::blocks_per_page + 3); std::stack<T> st; for (size_t i = 0; i < n; ++i) { T x = T(++id); st.push(x); m[k].push_back(x); } s.push_back(std::unique_ptr<S>(Make<S>::from(st))); vp::count("stack_copies"); }
            else s.push_back(std::unique_ptr<S>(Make<S>::mk(r, keep)));
            peak[k] = m[k].size();
        }
        unsigned ops = (unsigned)r.range(10, 60);
        for (unsigned o = 0; o < ops; ++o) {
            unsigned k = (unsigned)r(ns), op = (unsigned)r(12); S& st = *s[k]; std::vector<T>& v = m[k]; const S& cs = st; ctx.note(op); tr += (char)('a' + op);
            size_t c = r.chance(1, 2) ? r.range(1, 20) : r.boundary(r.chance(1, 2) ? N : PG, 3);
            switch (op) {
            case 0: case 1: case 2: for (size_t i = 0; i < c && v.size() < 8 * PG; ++i) { T x = T(++id); st.push(x); v.push_back(x); if (r.chance(1, 64)) VP_CHECK(st.top() == x, "stack-top", "top after push"); } break;
            case 3: case 4: case 5: for (size_t i = 0; i < c && !v.empty(); ++i) { VP_CHECK(cs.top() == v.back(), "stack-content", "top is " << cs.top() << " expected " << v.back() << " at size " << v.size() << " ops " << tr); st.pop(); v.pop_back(); vp::count("stack_pops"); } break;
            case 6: // oscillate around a page boundary
                { size_t b = (v.size() / PG) * PG; while (v.size() < b + 2) { T x = T(++id); st.push(x); v.push_back(x); }
                  while (v.size() > b + 2) { VP_CHECK(st.top() == v.back(), "stack-content", "top while shrinking, ops " << tr); st.pop(); v.pop_back(); }
                  for (int i = 0; i < 12; ++i) { int d = (int)r(4); while (d-- > 0 && !v.empty()) { VP_CHECK(st.top() == v.back(), "stack-content", "top at page boundary " << b << " size " << v.size() << " ops " << tr); st.pop(); v.pop_back(); } int u = (int)r(4); while (u-- > 0) { T x = T(++id); st.push(x); v.push_back(x); } } vp::count("stack_boundary_oscillations"); break; }
            case 7: if (!v.empty()) { T x = T(++id); st.top() = x; v.back() = x; vp::count("stack_top_modified"); } break;
            case 8: if (ns > 1) { if (r.chance(1, 2)) s[0]->swap(*s[1]); else std::swap(*s[0], *s[1]); m[0].swap(m[1]); std::swap(peak[0], peak[1]); vp::count("stack_swaps"); } break;
            case 9: extra(st, r); break;
            case 10: if (!v.empty()) for (size_t i = 0; i < std::min<size_t>(c, N + 3) && v.size() < 8 * PG; ++i) { st.push(st.top()); v.push_back(v.back()); } break;
            case 11: // drain to a block or page boundary
                { size_t t = r.chance(1, 3) ? 0 : (v.size() / PG) * PG; while (v.size() > t) { VP_CHECK(st.top() == v.back(), "stack-content", "top while draining at size " << v.size() << " ops " << tr); st.pop(); v.pop_back(); } break; }
            }
            peak[k] = std::max(peak[k], v.size()); for (unsigned q = 0; q < ns; ++q) { peak[q] = std::max(peak[q], m[q].size()); VP_EQ((size_t)s[q]->size(), m[q].size(), "stack-size", "size, ops " << tr); VP_EQ(s[q]->empty(), m[q].empty(), "stack-empty", "empty()"); }
            bool dummy = false; if (op != 6 && op != 11 && op != 10 && op != 0 && op != 1 && op != 2) mig(st, 0 + peak[k], dummy);
            vp::count("stack_ops");
        }
        for (unsigned k = 0; k < ns; ++k) { if (r.chance(3, 4)) while (!m[k].empty()) { VP_CHECK(s[k]->top() == m[k].back(), "stack-content", "top at the end, size " << m[k].size() << " ops " << tr); s[k]->pop(); m[k].pop_back(); } }
        s.clear();
    }
    VP_EQ(vp::monitor_stat().live_bytes, live, "stack-leak", "external bytes held after the stacks were destroyed, ops " << tr);
    vp::nontrivial(ctx.h);
    if (r.chance(1, 50)) vp::sample("stack ops " + tr);
}
#define ST(n, q, t, ...) typedef STACK_GENERATOR<__VA_ARGS__>::result n ## _t; VP_SCENARIO_T(stack_scn, n, q, t, n ## _t)
ST(normal_p1, 4000, 80000, uint64_t, external, normal, 1, 4096);
ST(normal_p2, 4000, 80000, R12, external, normal, 2, 4096);
ST(normal_p4, 2000, 40000, uint64_t, external, normal, 4, 4096);
ST(growshrink_p1, 4000, 80000, uint64_t, external, grow_shrink, 1, 4096);
ST(growshrink_p3, 4000, 80000, R12, external, grow_shrink, 3, 4096);
ST(growshrink2_p1, 4000, 80000, uint64_t, external, grow_shrink2, 1, 4096);
ST(growshrink2_r12, 4000, 80000, R12, external, grow_shrink2, 1, 4096);
ST(migrating_normal, 3000, 60000, uint64_t, migrating, normal, 2, 4096, std::stack<uint64_t>, 1500);
ST(migrating_gs, 3000, 60000, uint64_t, migrating, grow_shrink, 1, 4096, std::stack<uint64_t>, 512);
