// C24: containers give back what they took, and hold no more than their content needs.
#include "c24_held.h"
#include <stxxl/vector>
#include <stxxl/stack>
#include <stxxl/queue>
#include <stxxl/sequence>
#include <stxxl/deque>
#include <stxxl/map>
#include <stxxl/unordered_map>
#include <stxxl/priority_queue>
#include <stxxl/bits/containers/matrix.h>
#include <map>
#include <cmath>
using namespace stxxl;
template <unsigned SZ> struct Big { uint64_t a; char pad[SZ - 8]; Big() { } explicit Big(uint64_t v) : a(v) { memset(pad, (int)v, sizeof pad); } bool operator == (const Big& o) const { return a == o.a; } bool operator < (const Big& o) const { return a < o.a; } };
template <unsigned SZ> std::ostream& operator << (std::ostream& o, const Big<SZ>& b) { return o << b.a; }
static size_t up(size_t n, size_t u) { return (n + u - 1) / u; }

// ---- vector: holds exactly the blocks of its capacity
template <class V> static void vectors(vp::Ctx& ctx) {
    typedef typename V::value_type T; typedef typename V::block_type block_type; vp::Rng& r = ctx.rng; const size_t N = block_type::size, BS = block_type::raw_size; Held held; std::string tr;
    {
        std::vector<std::unique_ptr<V> > v; std::vector<size_t> size, cap; unsigned nv = (unsigned)r.range(1, 3); size_t limit = 40 * N;
        for (unsigned k = 0; k < nv; ++k) { size_t n = r.boundary(N, 8); v.push_back(std::unique_ptr<V>(new V(n))); size.push_back(n); cap.push_back(up(n, N)); }
        for (unsigned o = (unsigned)r.range(5, 50); o--; ) {
            unsigned k = (unsigned)r(nv), op = (unsigned)r(14); V& x = *v[k]; size_t n = r.boundary(N, r.chance(1, 4) ? 30 : 8); ctx.note(op); tr += (char)('a' + op);
            switch (op) {
            case 0: case 1: for (size_t c = r.chance(1, 2) ? r(8) : r(2 * N + 2); c-- && size[k] < limit; ) { x.push_back(T(c)); ++size[k]; } cap[k] = std::max(cap[k], up(size[k], N)); break;
            case 2: for (size_t c = r(N + 2); c-- && size[k]; ) { x.pop_back(); --size[k]; } break;
            case 3: x.resize(n); size[k] = n; cap[k] = std::max(cap[k], up(n, N)); break;
            case 4: case 5: x.resize(n, true); size[k] = n; cap[k] = up(n, N); vp::count("shrunk"); break;
            case 6: x.reserve(n); cap[k] = std::max(cap[k], up(n, N)); break;
            case 7: x.clear(); size[k] = cap[k] = 0; vp::count("cleared"); break;
            case 8: { unsigned j = (unsigned)r(nv); if (r.chance(1, 2)) x.swap(*v[j]); else std::swap(x, *v[j]); std::swap(size[k], size[j]); std::swap(cap[k], cap[j]); vp::count("swapped"); break; }
            case 9: { unsigned j = (unsigned)r(nv); if (j != k) { *v[j] = x; size[j] = size[k]; cap[j] = up(size[k], N); vp::count("copied"); } break; }
            case 10: { std::unique_ptr<V> y(new V(x)); held.exact(0 + [&]() { size_t s = 0; for (size_t c : cap) s += c; return s + up(size[k], N); }() * BS, "with a copy, ops " + tr); vp::count("copied"); if (r.chance(1, 2)) { y->swap(x); cap[k] = up(size[k], N); } break; }
            case 11: if (size[k]) { size_t i = r(size[k]); for (size_t c = r(3 * N); c-- && i < size[k]; ++i) x[i] = T(i); if (r.chance(1, 2)) x.flush(); } break;
            case 12: v[k].reset(); size[k] = cap[k] = 0; { size_t s = 0; for (size_t c : cap) s += c; held.exact(s * BS, "after destroying a vector, ops " + tr); } v[k].reset(new V(n)); size[k] = n; cap[k] = up(n, N); break;
            case 13: { typename V::bufwriter_type w(x, 0); size_t c = r.chance(1, 3) ? r(4) : r(6 * N); size_t before = cap[k]; for (size_t i = 0; i < c; ++i) w << T(i); if (r.chance(1, 2)) w.finish(); else { } size_t now = 0; (void)before; (void)now; tr += std::to_string(c); }
                size[k] = (size_t)x.size(); { size_t c = (size_t)x.capacity() / N; VP_CHECK(c <= std::max(cap[k], 2 * up(size[k] + 1, N) + 2), "holds-too-much", "capacity of " << c << " blocks for " << size[k] << " elements after buffered writing, before " << cap[k] << ", ops " << tr); cap[k] = c; } break;
            }
            size_t sum = 0; for (unsigned j = 0; j < nv; ++j) { VP_EQ((size_t)v[j]->size(), size[j], "vector-size", "size, ops " << tr); VP_EQ((size_t)v[j]->capacity(), cap[j] * N, "vector-capacity", "capacity, ops " << tr); sum += cap[j]; }
            held.exact(sum * BS, "by vectors with " + std::to_string(sum) + " blocks of capacity, ops " + tr); vp::count("vector_ops");
        }
        for (unsigned k = 0; k < nv; ++k) { v[k].reset(); cap[k] = 0; size_t s = 0; for (size_t c : cap) s += c; held.exact(s * BS, "after destroying vector " + std::to_string(k) + ", ops " + tr); }
    }
    held.none("after the vectors were destroyed, ops " + tr); vp::nontrivial(ctx.h); if (r.chance(1, 60)) vp::sample("vector ops " + tr);
}
typedef stxxl::vector<uint64_t, 1, lru_pager<2>, 4096> v1; typedef stxxl::vector<Big<1000>, 4, random_pager<3>, 4096, SR> v2; typedef stxxl::vector<Big<64>, 2, lru_pager<8>, 16384, FR> v3;
static void vec_1(vp::Ctx& c) { vectors<v1>(c); } static void vec_2(vp::Ctx& c) { vectors<v2>(c); } static void vec_3(vp::Ctx& c) { vectors<v3>(c); }
VP_SCENARIO(held_vector, 150, 8000) { switch (ctx.rng(3)) { case 0: vec_1(ctx); break; case 1: vec_2(ctx); break; default: vec_3(ctx); } }

// ---- stacks, queues, sequences: hold no more than their content and a constant number of blocks
template <class S> static void fifo_free(S&) { }
struct StackOps { template <class S, class T> static void push(S& s, const T& x, bool) { s.push(x); } template <class S> static void pop(S& s, bool) { s.pop(); } };
struct SeqOps { template <class S, class T> static void push(S& s, const T& x, bool f) { if (f) s.push_front(x); else s.push_back(x); } template <class S> static void pop(S& s, bool f) { if (f) s.pop_front(); else s.pop_back(); } };
template <class Ops, class S, class Mk> static void linear(vp::Ctx& ctx, size_t N, size_t BS, size_t slack, Mk mk, const char* what) {
    typedef typename S::value_type T; vp::Rng& r = ctx.rng; Held held; std::string tr;
    {
        std::unique_ptr<S> s[2]; size_t n[2] = { 0, 0 }; unsigned ns = (unsigned)r.range(1, 2); for (unsigned k = 0; k < ns; ++k) s[k].reset(mk(r));
        auto limit = [&]() { size_t b = 0; for (unsigned k = 0; k < ns; ++k) if (s[k]) b += up(n[k], N) + slack; return b * BS; };
        auto floor = [&]() { size_t b = 0; for (unsigned k = 0; k < ns; ++k) if (s[k]) { size_t f = n[k] / N; b += f > slack + 1 ? f - slack - 1 : 0; } return b * BS; };
        auto see = [&](const char* when) { std::string t = std::string(when) + " by " + what + " of " + std::to_string(n[0]) + " and " + std::to_string(n[1]) + " elements, " + std::to_string(N) + " per block, ops " + tr; held.atmost(limit(), t); held.atleast(floor(), t); };
        for (unsigned o = (unsigned)r.range(4, 30); o--; ) {
            unsigned k = (unsigned)r(ns), op = (unsigned)r(8); bool front = r.chance(1, 2), mixed = r.chance(1, 3); size_t c = r.chance(1, 3) ? r(20) : r.boundary(N, 12); ctx.note(op); ctx.note(c); tr += (char)('a' + op) + std::to_string(c);
            if (op <= 2) { for (size_t i = 0; i < c; ++i) { Ops::push(*s[k], T(i), mixed ? r.chance(1, 2) : front); ++n[k]; if (r.chance(1, (unsigned)N)) see("while growing"); } }
            else if (op <= 5) { if (op == 5) c = n[k]; for (size_t i = 0; i < c && n[k]; ++i) { Ops::pop(*s[k], mixed ? r.chance(1, 2) : front); --n[k]; if (r.chance(1, (unsigned)N)) see("while shrinking"); } if (!n[k]) vp::count("drained"); }
            else if (op == 6) { if (ns == 2) { s[0]->swap(*s[1]); std::swap(n[0], n[1]); vp::count("swapped"); if (r.chance(1, 3)) { s[k].reset(); see("after destroying one"); s[k].reset(mk(r)); n[k] = 0; } } }
            else { s[k].reset(); n[k] = 0; see("after destroying one"); s[k].reset(mk(r)); vp::count("recreated"); }
            see("held"); vp::count("linear_ops");
        }
    }
    held.none(std::string("after ") + what + " were destroyed, ops " + tr); vp::nontrivial(ctx.h); vp::cov("linear", what); if (r.chance(1, 60)) vp::sample(std::string(what) + " ops " + tr);
}
typedef STACK_GENERATOR<Big<72>, external, normal, 2, 4096>::result st_n; typedef STACK_GENERATOR<Big<72>, external, grow_shrink, 3, 4096>::result st_g; typedef STACK_GENERATOR<Big<72>, external, grow_shrink2, 1, 4096>::result st_g2; typedef STACK_GENERATOR<Big<72>, migrating, normal, 1, 4096, std::stack<Big<72> >, 100>::result st_m;
VP_SCENARIO(held_stack, 160, 8000) {
    const size_t N = 4096 / 72;
    switch (ctx.rng(4)) {
    case 0: linear<StackOps, st_n>(ctx, N, 4096, 2 * 2 + 1, [](vp::Rng&) { return new st_n(); }, "normal stacks"); break;
    case 1: linear<StackOps, st_g>(ctx, N, 4096, 2 * 3 + 1, [](vp::Rng&) { return new st_g(); }, "grow-shrink stacks"); break;
    case 2: { read_write_pool<st_g2::block_type> pool(2, 3); linear<StackOps, st_g2>(ctx, N, 4096, 1, [&](vp::Rng& r) { return new st_g2(pool, (unsigned)r(4)); }, "grow-shrink stacks 2"); break; }
    default: linear<StackOps, st_m>(ctx, N, 4096, 5 + 100 / N, [](vp::Rng&) { return new st_m(); }, "migrating stacks"); }
}
struct QueueOps { template <class S, class T> static void push(S& s, const T& x, bool) { s.push(x); } template <class S> static void pop(S& s, bool) { s.pop(); } };
typedef queue<Big<72>, 4096> q72; typedef sequence<Big<72>, 4096> s72; typedef sequence<Big<72>, 4096, SR> s72s;
VP_SCENARIO(held_queue, 120, 6000) {
    const size_t N = q72::block_type::size; read_write_pool<q72::block_type> pool(ctx.rng(4), 8);
    linear<QueueOps, q72>(ctx, N, 4096, 2, [&](vp::Rng& r) { switch (r(3)) { case 0: return new q72((int_type)r.range(1, 5)); case 1: return new q72((unsigned_type)r.range(4, 7), (unsigned_type)r(6), (int)r(6) - 1); default: return new q72(pool, (int)r(5) - 1); } }, "queues");
}
VP_SCENARIO(held_sequence, 120, 6000) {
    const size_t N = s72::block_type::size; read_write_pool<s72::block_type> pool(ctx.rng(4), 8);
    linear<SeqOps, s72>(ctx, N, 4096, 3, [&](vp::Rng& r) { switch (r(3)) { case 0: return new s72((int)r.range(1, 5)); case 1: return new s72((unsigned_type)r.range(4, 7), (unsigned_type)r(6), (int)r(6) - 1); default: return new s72(pool, (int)r(5) - 1); } }, "sequences");
}
typedef deque<Big<16384>, stxxl::vector<Big<16384>, 1, lru_pager<2>, 65536> > d16;
VP_SCENARIO(held_deque, 30, 1500) {
    vp::Rng& r = ctx.rng; Held held; std::string tr; const size_t BS = 65536, N = 4, MIN = (size_t)(STXXL_DEFAULT_BLOCK_SIZE(Big<16384>)) / 16384;
    {
        std::unique_ptr<d16> d[2]; size_t peak[2] = { 0, 0 }; for (int k = 0; k < 2; ++k) d[k].reset(new d16());
        auto see = [&]() { size_t b = 0; for (int k = 0; k < 2; ++k) b += up(std::max(MIN, 2 * (peak[k] + 1)), N); held.atmost(b * BS, "by deques with largest sizes " + std::to_string(peak[0]) + " and " + std::to_string(peak[1]) + ", ops " + tr); };
        for (unsigned o = (unsigned)r.range(3, 15); o--; ) {
            int k = (int)r(2); unsigned op = (unsigned)r(7); size_t c = r(200); ctx.note(op); tr += (char)('a' + op) + std::to_string(c);
            switch (op) {
            case 0: for (size_t i = 0; i < c; ++i) d[k]->push_back(Big<16384>(i)); break;
            case 1: for (size_t i = 0; i < c; ++i) d[k]->push_front(Big<16384>(i)); break;
            case 2: for (size_t i = 0; i < c && !d[k]->empty(); ++i) d[k]->pop_front(); break;
            case 3: for (size_t i = 0; i < c && !d[k]->empty(); ++i) d[k]->pop_back(); break;
            case 4: d[0]->swap(*d[1]); std::swap(peak[0], peak[1]); vp::count("swapped"); break;
            case 5: d[k]->clear(); peak[k] = 0; vp::count("cleared"); break;
            default: d[k].reset(); d[k].reset(new d16()); peak[k] = 0; }
            peak[k] = std::max(peak[k], (size_t)d[k]->size()); see();
        }
    }
    held.none("after deques were destroyed, ops " + tr); vp::nontrivial(ctx.h);
}

// ---- maps: nodes are at least half full
template <class K> struct CmpMax { bool operator () (const K& a, const K& b) const { return a < b; } static K max_value() { return K(~0ull); } };
template <class M> static void maps(vp::Ctx& ctx) {
    typedef typename M::key_type K; vp::Rng& r = ctx.rng; Held held; std::string tr; const size_t NB = M::node_block_type::raw_size, LB = M::leaf_block_type::raw_size, L = M::leaf_block_type::size, NN = M::node_block_type::size;
    {
        std::unique_ptr<M> m[2]; std::map<uint64_t, uint64_t> s[2]; unsigned nm = (unsigned)r.range(1, 2); uint64_t range = r.range(10, 4000);
        auto mk = [&]() { return new M((1 + r(4)) * 4 * NB + 4 * NB, (1 + r(4)) * 4 * LB + 4 * LB); }; for (unsigned k = 0; k < nm; ++k) m[k].reset(mk());
        auto see = [&](const char* when) { size_t b = 0; for (unsigned k = 0; k < nm; ++k) if (m[k]) { size_t n = s[k].size(), half = std::max<size_t>(1, L / 2 - 1), nhalf = std::max<size_t>(2, NN / 2 - 1), leaves = n / half + 2; b += leaves * LB; while (leaves > 1) { leaves = leaves / nhalf + 1; b += leaves * NB; if (leaves <= 1) break; if (nhalf == 1) break; } b += 2 * NB; } held.atmost(b, std::string(when) + " by maps of " + std::to_string(s[0].size()) + " and " + std::to_string(s[1].size()) + " elements, " + std::to_string(L) + " per leaf and " + std::to_string(NN) + " per node, ops " + tr); size_t n = 0; for (unsigned k = 0; k < nm; ++k) if (m[k]) n += s[k].size() / L * LB; held.atleast(n, std::string(when) + " by maps, ops " + tr); };
        for (unsigned o = (unsigned)r.range(3, 25); o--; ) {
            unsigned k = (unsigned)r(nm), op = (unsigned)r(9); size_t c = r.chance(1, 2) ? r(30) : r(range); ctx.note(op); ctx.note(c); tr += (char)('a' + op) + std::to_string(c); M& x = *m[k];
            switch (op) {
            case 0: case 1: for (size_t i = 0; i < c; ++i) { uint64_t q = 1 + r(range); x.insert(typename M::value_type(K(q), i)); s[k].insert(std::make_pair(q, i)); } break;
            case 2: for (size_t i = 0; i < c; ++i) { uint64_t q = 1 + r(range); x.erase(K(q)); s[k].erase(q); } break;
            case 3: { bool up_ = r.chance(1, 2); for (size_t i = 0; i < c && !s[k].empty(); ++i) { uint64_t q = up_ ? s[k].begin()->first : s[k].rbegin()->first; x.erase(K(q)); s[k].erase(q); } break; }
            case 4: { uint64_t a = 1 + r(range), b = a + r(range); x.erase(x.lower_bound(K(a)), x.lower_bound(K(b))); s[k].erase(s[k].lower_bound(a), s[k].lower_bound(b)); break; }
            case 5: x.clear(); s[k].clear(); vp::count("cleared"); break;
            case 6: if (nm == 2) { m[0]->swap(*m[1]); s[0].swap(s[1]); vp::count("swapped"); } break;
            case 7: { std::vector<std::pair<K, uint64_t> > v; for (auto& p : s[k]) v.push_back(std::make_pair(K(p.first), p.second)); m[k].reset(); size_t nb = (1 + r(4)) * 4 * NB + 4 * NB, lb = (1 + r(4)) * 4 * LB + 4 * LB; m[k].reset(new M(v.begin(), v.end(), nb, lb, true)); vp::count("bulk_constructed"); break; }
            default: { m[k].reset(); s[k].clear(); see("after destroying one"); m[k].reset(mk()); vp::count("recreated"); } }
            VP_EQ((size_t)m[k]->size(), s[k].size(), "map-size", "ops " << tr); see("held"); vp::count("map_ops");
        }
    }
    held.none("after the maps were destroyed, ops " + tr); vp::nontrivial(ctx.h); if (r.chance(1, 60)) vp::sample("map ops " + tr);
}
struct K400 { uint64_t k; char pad[392]; K400() : k(0) { memset(pad, 0, sizeof pad); } explicit K400(uint64_t v) : k(v) { memset(pad, 1, sizeof pad); } bool operator == (const K400& o) const { return k == o.k; } bool operator != (const K400& o) const { return k != o.k; } bool operator < (const K400& o) const { return k < o.k; } };
std::ostream& operator << (std::ostream& o, const K400& b) { return o << b.k; }
typedef stxxl::map<K400, uint64_t, CmpMax<K400>, 4096, 4096> map400; typedef stxxl::map<uint64_t, uint64_t, CmpMax<uint64_t>, 4096, 8192> map64;
VP_SCENARIO(held_map, 100, 5000) { if (ctx.rng.chance(2, 3)) maps<map400>(ctx); else maps<map64>(ctx); }

// ---- hash maps
struct Hash { size_t operator () (uint64_t k) const { return vp::mix(k); } }; struct HLess { bool operator () (uint64_t a, uint64_t b) const { return a < b; } static uint64_t min_value() { return 0; } static uint64_t max_value() { return ~0ull; } };
typedef stxxl::unordered_map<uint64_t, Big<120>, Hash, HLess, 4096, 2> hm_t;
VP_SCENARIO(held_hashmap, 100, 5000) {
    vp::Rng& r = ctx.rng; Held held; std::string tr; const size_t NODE = sizeof(hm_t::value_type) + sizeof(void*), SUB = 4096 / sizeof(hm_t::value_type);
    hash_map::tuning& tu = *hash_map::tuning::get_instance(); tu.prefetch_page_size = r.range(1, 4); tu.prefetch_pages = r.range(1, 2); tu.blockcache_size = 6 + r(12);
    {
        std::unique_ptr<hm_t> m[2]; std::map<uint64_t, uint64_t> s[2]; size_t bound[2] = { 0, 0 }; unsigned nm = (unsigned)r.range(1, 2); uint64_t range = r.range(10, 1500);
        auto mk = [&]() { return new hm_t(r.range(1, 40), Hash(), HLess(), NODE * (r.chance(1, 2) ? r(12) : r.range(10, 400))); }; for (unsigned k = 0; k < nm; ++k) m[k].reset(mk());
        // every bucket ends in a sub-block of its own, blocks are allocated in groups of 2 * disks
        auto bnd = [&](unsigned k, size_t n) { size_t sub = n / SUB + 1 + std::min<size_t>(n, (size_t)m[k]->bucket_count()) + m[k]->bucket_count(); return (sub / 2 + 1 + 4 * config::get_instance()->disks_number()) * 8192; };
        auto see = [&](const char* when) { size_t b = 0; for (unsigned k = 0; k < nm; ++k) if (m[k]) { bound[k] = std::max(bound[k], bnd(k, s[k].size())); b += bound[k]; } held.atmost(b, std::string(when) + " by hash maps of " + std::to_string(s[0].size()) + " and " + std::to_string(s[1].size()) + " elements, ops " + tr); };
        for (unsigned o = (unsigned)r.range(3, 25); o--; ) {
            unsigned k = (unsigned)r(nm), op = (unsigned)r(10); size_t c = r.chance(1, 2) ? r(30) : r(range); ctx.note(op); ctx.note(c); tr += (char)('a' + op) + std::to_string(c); hm_t& x = *m[k]; size_t top = s[k].size();
            switch (op) {
            case 0: case 1: for (size_t i = 0; i < c; ++i) { uint64_t q = 1 + r(range); if (r.chance(1, 2)) x.insert_oblivious(hm_t::value_type(q, Big<120>(i))); else x.insert(hm_t::value_type(q, Big<120>(i))); s[k][q] = i; top = std::max(top, s[k].size()); } break;
            case 2: for (size_t i = 0; i < c; ++i) { uint64_t q = 1 + r(range); if (r.chance(1, 2)) x.erase_oblivious(q); else x.erase(q); s[k].erase(q); } break;
            case 3: x.rehash(r.range(1, 60)); bound[k] = 0; vp::count("rehashed"); break;
            case 4: x.clear(); s[k].clear(); bound[k] = 0; vp::count("cleared"); if (nm == 1) held.exact(0, "after clear(), ops " + tr); top = 0; break;
            case 5: if (nm == 2) { m[0]->swap(*m[1]); s[0].swap(s[1]); std::swap(bound[0], bound[1]); top = s[k].size(); vp::count("swapped"); } break;
            case 6: { std::vector<std::pair<uint64_t, Big<120> > > v; for (size_t i = 0; i < c; ++i) v.push_back(std::make_pair((uint64_t)(1 + r(range)), Big<120>(i))); for (auto& p : v) s[k][p.first] = 0; top = std::max(top, s[k].size()); x.insert(v.begin(), v.end(), 24 << 20); vp::count("bulk_constructed"); break; }
            case 7: { size_t n = 0, stop = r(s[k].size() + 1); for (hm_t::iterator it = x.begin(); it != x.end() && n < stop; ++it) ++n; break; }
            case 8: { size_t cnt = 0; for (uint64_t q = 1; q < range && cnt < c; q += 3, ++cnt) (void)x.find(q); break; }
            default: { m[k].reset(); s[k].clear(); bound[k] = 0; top = 0; see("after destroying one"); m[k].reset(mk()); vp::count("recreated"); } }
            bound[k] = std::max(bound[k], bnd(k, top)); see("held"); vp::count("hashmap_ops");
        }
    }
    held.none("after the hash maps were destroyed, ops " + tr); vp::nontrivial(ctx.h); if (r.chance(1, 60)) vp::sample("hash map ops " + tr);
}

// ---- priority queues
typedef Rec<uint32_t, 8> R16; template <class T> struct GreaterM : Greater<T> { };
typedef priority_queue<priority_queue_config<R16, GreaterM<R16>, 4, 16, 8, 2, 4096, 4, 2> > pq1; typedef priority_queue<priority_queue_config<R16, GreaterM<R16>, 16, 64, 8, 1, 4096, 4, 2, SR> > pq2;
template <class PQ> static void pqs(vp::Ctx& ctx) {
    vp::Rng& r = ctx.rng; Held held; std::string tr;
    {
        typename PQ::pool_type pool(r(6), 1 + r(8)); std::unique_ptr<PQ> q; size_t n = 0; auto mk = [&]() { return r.chance(1, 2) ? new PQ(pool) : new PQ(3 * 4096, 3 * 4096); }; q.reset(mk()); const size_t N = PQ::block_type::size; uint32_t id = 0;
        // every external sequence may hold a partly consumed block
        auto see = [&](const char* when) { held.atmost((n / N + 1 + 2 * PQ::ExtKMAX * PQ::num_ext_groups) * PQ::BlockSize, std::string(when) + " by a priority queue of " + std::to_string(n) + " elements, ops " + tr); };
        for (unsigned o = (unsigned)r.range(3, 16); o--; ) {
            unsigned op = (unsigned)r(7); size_t c = r.chance(1, 3) ? r(300) : r(9000); ctx.note(op); ctx.note(c); tr += (char)('a' + op) + std::to_string(c);
            if (op <= 2) { if (n > 30000) c = 0; for (size_t i = 0; i < c; ++i) { q->push(R16((uint32_t)(r.next() >> 33) + 1, id++)); ++n; if (r.chance(1, 2000)) see("while pushing"); } }
            else if (op <= 4) { if (op == 4) c = n; for (size_t i = 0; i < c && n; ++i) { q->pop(); --n; if (r.chance(1, 2000)) see("while popping"); } if (!n) vp::count("drained"); }
            else if (op == 5) { for (size_t i = 0; i < c; ++i) { if (n && r.chance(1, 2)) { q->pop(); --n; } else { q->push(R16((uint32_t)(r.next() >> 33) + 1, id++)); ++n; } } }
            else { q.reset(); n = 0; held.none("after a priority queue was destroyed, ops " + tr); q.reset(mk()); vp::count("recreated"); }
            VP_EQ((size_t)q->size(), n, "pq-size", "ops " << tr); see("held"); vp::count("pq_ops");
        }
    }
    held.none("after the priority queue was destroyed, ops " + tr); vp::nontrivial(ctx.h);
}
VP_SCENARIO(held_pq, 40, 2500) { if (ctx.rng.chance(1, 2)) pqs<pq1>(ctx); else pqs<pq2>(ctx); }

// ---- matrices and block schedulers
VP_SCENARIO(held_matrix, 60, 3000) {
    typedef matrix<uint64_t, 32> M; typedef block_scheduler<matrix_swappable_block<uint64_t, 32> > S; vp::Rng& r = ctx.rng; Held held; std::string tr; const size_t BB = 32 * 32 * 8;
    {
        S bs((4 + r(20)) * BB); 
        {
            std::vector<std::unique_ptr<M> > m; size_t h = 1 + r(160), w = 1 + r(160), per = up(h, 32) * up(w, 32);
            auto mk = [&]() { M* x = new M(bs, h, w); if (r.chance(2, 3)) for (size_t i = 0; i < h; i += 1 + r(32)) { M::row_major_iterator it = (*x)(i, 0); for (size_t j = 0; j < w; j += 1 + r(16)) { it.set_pos(i, j); *it = i * j + 1; } } return x; };
            for (int k = 0; k < 3; ++k) m.push_back(std::unique_ptr<M>(mk()));
            for (unsigned o = (unsigned)r.range(2, 14); o--; ) {
                unsigned op = (unsigned)r(8), a = (unsigned)r(3), b = (unsigned)r(3); ctx.note(op); tr += (char)('a' + op);
                switch (op) {
                case 0: *m[a] += *m[b]; break; case 1: *m[a] = *m[b] + *m[(a + 1) % 3]; break; case 2: *m[a] -= *m[b]; break; case 3: *m[a] *= 3; break;
                case 4: m[a].reset(); m[a].reset(mk()); vp::count("recreated"); break; case 5: m[a]->set_zero(); vp::count("cleared"); break; case 6: { M c(*m[b]); if (r.chance(1, 2)) *m[a] = c; vp::count("copied"); break; }
                default: if (h == w) { M c(m[a]->multiply(*m[b], (int_type)r(3), 0)); if (r.chance(1, 2)) *m[a] = c; } else bs.flush(); }
                held.atmost(3 * per * BB, "by three matrices of " + std::to_string(per) + " blocks, ops " + tr); vp::count("matrix_ops");
            }
            for (int k = 0; k < 3; ++k) { m[k].reset(); held.atmost((2 - k) * per * BB, "after destroying " + std::to_string(k + 1) + " of 3 matrices, ops " + tr); }
        }
        held.none("after the matrices were destroyed, ops " + tr);
        { std::vector<S::swappable_block_identifier_type> id; for (int i = (int)r(30); i-- > 0; ) { id.push_back(bs.allocate_swappable_block()); bs.acquire(id.back(), true)[0] = i; bs.release(id.back(), r.chance(3, 4)); if (r.chance(1, 3)) { size_t k = r(id.size()); if (r.chance(1, 2)) bs.deinitialize(id[k]); } } size_t n = id.size(); while (!id.empty()) { held.atmost(n * BB, "by swappable blocks"); bs.free_swappable_block(id.back()); id.pop_back(); } held.none("after the swappable blocks were freed"); vp::count("scheduler_runs"); }
    }
    held.none("after the block scheduler was destroyed, ops " + tr); vp::nontrivial(ctx.h);
}
