// C15: external hash map against std::map, with iterators kept across modifications.
#include "vp.h"
#include "vp_monitor.h"
#include <stxxl/unordered_map>
#include <map>
#include <set>
#include <limits>
#include <memory>
#include <algorithm>
template <unsigned PAD> struct Key { uint32_t k; char pad[PAD]; Key() : k(0) { fill(); } explicit Key(uint32_t v) : k(v) { fill(); } void fill() { memset(pad, (int)(k * 7 + 1), PAD); } bool ok() const { for (unsigned i = 0; i < PAD; ++i) if (pad[i] != (char)(k * 7 + 1)) return false; return true; }
    bool operator == (const Key& o) const { return k == o.k; } bool operator < (const Key& o) const { return k < o.k; } };
template <unsigned P> static std::ostream& operator << (std::ostream& o, const Key<P>& k) { return o << k.k; }
template <unsigned P> static bool key_ok(const Key<P>& k) { return k.ok(); } static bool key_ok(uint32_t) { return true; }
template <unsigned P> static uint32_t kid(const Key<P>& k) { return k.k; } static uint32_t kid(uint32_t k) { return k; }
template <class K, bool UP> struct Cmp { bool operator () (const K& a, const K& b) const { return UP ? kid(a) < kid(b) : kid(b) < kid(a); } static K min_value() { return K(UP ? 0 : std::numeric_limits<uint32_t>::max()); } static K max_value() { return K(UP ? std::numeric_limits<uint32_t>::max() : 0); } };
enum { GOOD, FEW, ONE, TOP, SEQ };
template <class K, int KIND> struct Hash { size_t operator () (const K& x) const { uint64_t k = kid(x); switch (KIND) { case GOOD: return vp::mix(k); case FEW: return vp::mix(k % 7); case ONE: return 42; case TOP: return ~(uint64_t)0 - k % 3000; default: return k << 52 | k; } } };

template <class M>
static void hm_scn(vp::Ctx& ctx) {
    typedef typename M::key_type K; typedef typename M::mapped_type D; typedef typename M::value_type V; typedef typename M::iterator It; typedef typename M::const_iterator CIt; typedef std::map<uint32_t, D> S; typedef typename M::internal_size_type sz;
    vp::Rng& r = ctx.rng; uint64_t live = vp::monitor_stat().live_bytes; std::string tr; const size_t NODE = sizeof(V) + sizeof(void*);
    stxxl::hash_map::tuning& tu = *stxxl::hash_map::tuning::get_instance(); tu.prefetch_page_size = r.range(1, 4); tu.prefetch_pages = r.range(1, 2); size_t readers = r.chance(1, 3) ? 0 : r.range(1, 6); tu.blockcache_size = readers + 3 + (r.chance(1, 2) ? 0 : r(12));
    stxxl::disk_queues::get_instance()->set_priority_op(r.chance(1, 2) ? stxxl::request_queue::READ : r.chance(1, 2) ? stxxl::request_queue::WRITE : stxxl::request_queue::NONE);
    uint64_t id = r(100000); uint32_t range = (uint32_t)(r.chance(1, 2) ? r.range(4, 80) : r.range(100, sizeof(V) > 100 ? 300 : 1500)); auto key = [&]() { return (uint32_t)(1 + r(range)); };
    struct Held { It it; CIt cit; bool isc; int m; bool end; uint32_t k; Held() : isc(false), m(0), end(true), k(0) { } };
    {
        std::unique_ptr<M> ms[2]; S ss[2]; unsigned nm = (unsigned)r.range(1, 2); std::vector<Held> held;
        auto bulk = [&](unsigned k, size_t n) { std::vector<std::pair<K, D> > in; std::map<uint32_t, std::set<D> > may; bool dup = r.chance(1, 4); for (size_t i = 0; i < n; ++i) { uint32_t x = key(); if (!dup && may.count(x)) continue; in.push_back(std::make_pair(K(x), (D)++id)); may[x].insert((D)id); } tr += "bulk" + std::to_string(in.size()) + " "; return std::make_pair(in, may); };
        auto settle = [&](unsigned k, std::map<uint32_t, std::set<D> >& may) { const M& c = *ms[k]; for (auto& p : may) { CIt it = c.find(K(p.first)); VP_CHECK(it != c.end(), "hm-bulk", "key " << p.first << " missing after a bulk insertion; " << tr); D d = (*it).second; VP_CHECK(p.second.count(d), "hm-bulk", "key " << p.first << " has value " << d << " which the bulk insertion did not give it; " << tr); ss[k][p.first] = d; } vp::count("bulk_insertions"); };
        const sz MEM = 24 * 1024 * 1024;
        for (unsigned k = 0; k < nm; ++k) { sz buf = NODE * (r.chance(1, 2) ? r.range(0, 12) : r.range(10, 400)), n = r.chance(1, 2) ? 0 : r.range(1, 40);
            if (r.chance(1, 4)) { auto b = bulk(k, r(2 * range)); ms[k].reset(new M(b.first.begin(), b.first.end(), MEM, n, typename M::hasher(), typename M::key_compare(), buf)); settle(k, b.second); }
            else ms[k].reset(new M(n, typename M::hasher(), typename M::key_compare(), buf)); }
        auto same = [&](It& it, unsigned k, uint32_t x, const char* what) { VP_CHECK(it != ms[k]->end(), "hm-end", what << " is end(), expected key " << x << "; " << tr); K gk = (*it).first; D gd = it->second; VP_CHECK(kid(gk) == x && key_ok(gk), "hm-key", what << " at key " << gk << " expected " << x << "; " << tr); auto w = ss[k].find(x); VP_CHECK(w != ss[k].end() && gd == w->second, "hm-value", what << ": value of key " << x << " is " << gd << " expected " << (w == ss[k].end() ? (D)0 : w->second) << "; " << tr); };
        auto csame = [&](CIt& it, unsigned k, uint32_t x, const char* what) { const M& c = *ms[k]; VP_CHECK(it != c.end(), "hm-end", what << " is end(), expected key " << x << "; " << tr); K gk = (*it).first; D gd = (*it).second; VP_CHECK(kid(gk) == x && key_ok(gk), "hm-key", what << " at key " << gk << " expected " << x << "; " << tr); auto w = ss[k].find(x); VP_CHECK(w != ss[k].end() && gd == w->second, "hm-value", what << ": value of key " << x << " is " << gd << " expected " << (w == ss[k].end() ? (D)0 : w->second) << "; " << tr); };
        auto erased = [&](unsigned k, uint32_t x) { ss[k].erase(x); for (Held& h : held) if (h.m == (int)k && !h.end && h.k == x) { h.end = true; vp::count("iterators_of_erased"); } };
        auto op = [&](unsigned k, unsigned o, uint32_t not_erase) {
            M& m = *ms[k]; const M& c = m; S& s = ss[k]; ctx.note(o * 7 + k); tr += (char)('a' + o);
            auto victim = [&]() { uint32_t x = key(); if (r.chance(1, 2) && !s.empty()) { auto w = s.lower_bound(x); x = w == s.end() ? s.begin()->first : w->first; } return x; };
            switch (o) {
            case 0: case 1: { size_t n = r.chance(1, 3) ? r.range(1, 40) : 1; for (size_t i = 0; i < n; ++i) { uint32_t x = key(); D d = (D)++id; std::pair<It, bool> g = m.insert(V(K(x), d)); bool w = s.insert(std::make_pair(x, d)).second; VP_EQ(g.second, w, "hm-insert", "insert of key " << x << " returned; " << tr); same(g.first, k, x, "insert's iterator"); vp::count("inserts"); } break; }
            case 2: case 3: { size_t n = r.chance(1, 3) ? r.range(1, 60) : 1; for (size_t i = 0; i < n; ++i) { uint32_t x = key(); D d = (D)++id; s[x] = d; It g = m.insert_oblivious(V(K(x), d)); same(g, k, x, "insert_oblivious's iterator"); vp::count("oblivious_inserts"); } break; }
            case 4: case 5: { uint32_t x = key(); D d = (D)++id; if (r.chance(2, 3)) { m[K(x)] = d; s[x] = d; } else { D g = m[K(x)]; VP_EQ(g, s[x], "hm-value", "operator[] of key " << x << "; " << tr); } vp::count("subscripts"); break; }
            case 6: case 7: { size_t n = r.chance(1, 3) ? r.range(1, 40) : 1; for (size_t i = 0; i < n; ++i) { uint32_t x = victim(); if (x == not_erase) continue; size_t w = s.count(x); VP_EQ((size_t)m.erase(K(x)), w, "hm-erase", "erase of key " << x << " returned; " << tr); erased(k, x); vp::count("erases", w); } break; }
            case 8: { size_t n = r.chance(1, 3) ? r.range(1, 40) : 1; for (size_t i = 0; i < n; ++i) { uint32_t x = victim(); if (x == not_erase) continue; m.erase_oblivious(K(x)); erased(k, x); vp::count("oblivious_erases"); } break; }
            case 9: { uint32_t x = victim(); if (!s.count(x) || x == not_erase) break; if (r.chance(1, 2)) { CIt it = c.find(K(x)); csame(it, k, x, "const find before erase"); m.erase(it); } else { It it = m.find(K(x)); same(it, k, x, "find before erase"); m.erase(it); VP_CHECK(it == m.end(), "hm-erased-iterator", "iterator of the erased key " << x << " is not end(); " << tr); } erased(k, x); vp::count("iterator_erases"); break; }
            case 10: case 11: { uint32_t x = victim(); It it = m.find(K(x)); if (s.count(x)) { same(it, k, x, "find"); if (r.chance(1, 2)) { D d = (D)++id; it->second = d; s[x] = d; } } else VP_CHECK(it == m.end(), "hm-find", "find of the absent key " << x << " is not end(); " << tr); break; }
            case 12: case 13: { uint32_t x = victim(); CIt it = c.find(K(x)); if (s.count(x)) csame(it, k, x, "const find"); else VP_CHECK(it == c.end(), "hm-find", "const find of the absent key " << x << " is not end(); " << tr); VP_EQ((size_t)c.count(K(x)), s.count(x), "hm-count", "count of " << x << "; " << tr); break; }
            case 14: { uint32_t x = victim(); if (r.chance(1, 2)) { std::pair<It, It> p = m.equal_range(K(x)); if (s.count(x)) { same(p.first, k, x, "equal_range"); ++p.first; VP_CHECK(p.first == p.second, "hm-equal-range", "equal_range of the present key " << x << " does not hold exactly one element; " << tr); } else VP_CHECK(p.first == p.second, "hm-equal-range", "equal_range of an absent key is not empty"); }
                else { std::pair<CIt, CIt> p = c.equal_range(K(x)); if (s.count(x)) { csame(p.first, k, x, "equal_range"); ++p.first; VP_CHECK(p.first == p.second, "hm-equal-range", "equal_range of the present key " << x << " does not hold exactly one element; " << tr); } else VP_CHECK(p.first == p.second, "hm-equal-range", "equal_range of an absent key is not empty"); } break; }
            case 15: if (r.chance(1, 2)) { auto b = bulk(k, r.chance(1, 3) ? r(4) : r(2 * range)); m.insert(b.first.begin(), b.first.end(), MEM); settle(k, b.second); } break;
            case 16: if (r.chance(1, 2)) { m.rehash(r.chance(1, 2) ? 0 : r(60)); vp::count("rehashes"); } else if (r.chance(1, 2)) m.opt_load_factor(0.05f + (float)r(200) / 100); else m.max_buffer_size(NODE * r.range(0, 200)); break;
            case 17: VP_EQ((size_t)c.size(), s.size(), "hm-size", "size; " << tr); VP_EQ(c.empty(), s.empty(), "hm-empty", "empty()"); break;
            }
            vp::count("map_ops");
        };
        unsigned ops = (unsigned)r.range(20, 160); uint64_t reads0 = vp::monitor_stat().reads;
        for (unsigned o = 0; o < ops && vp::monitor_stat().reads - reads0 < 1200; ++o) {
            unsigned k = (unsigned)r(nm), a = (unsigned)r(24); M& m = *ms[k]; const M& c = m; S& s = ss[k];
            if (a < 18) op(k, a, 0);
            else if (a == 18 || a == 19) { tr += "T"; // whole traversal, perhaps with operations in between: everything present throughout exactly once, nothing twice, only what was there
                bool mix = r.chance(1, 2), cst = r.chance(1, 2); std::map<uint32_t, int> seen; std::set<uint32_t> must; for (auto& p : s) must.insert(p.first); unsigned mixed = 0;
                auto step = [&](uint32_t x) { VP_CHECK(++seen[x] == 1, "hm-iteration", "iteration visits key " << x << " twice; " << tr); VP_CHECK(s.count(x), "hm-iteration", "iteration visits key " << x << " which is not in the map; " << tr); if (mix && r.chance(1, 6) && ++mixed < 12) { S old = s; op(k, (unsigned)r(18), x); for (auto& p : old) if (!s.count(p.first)) { must.erase(p.first); } } };
                if (cst) { for (CIt it = c.begin(); it != c.end(); ++it) { uint32_t x = kid((*it).first); csame(it, k, x, "iteration"); if (r.chance(1, 6)) { CIt f = c.find(K(x)); VP_CHECK(f == it && !(f != it), "hm-iterator-equal", "the iterator found for a key differs from the one the iteration gives; " << tr); vp::count("iterator_comparisons"); } step(x); } }
                else for (It it = m.begin(); it != m.end(); ++it) { uint32_t x = kid(it->first); same(it, k, x, "iteration"); if (r.chance(1, 6)) { It f = m.find(K(x)); VP_CHECK(f == it && !(f != it), "hm-iterator-equal", "the iterator found for a key differs from the one the iteration gives; " << tr); vp::count("iterator_comparisons"); } if (r.chance(1, 8)) { D d = (D)++id; it->second = d; s[x] = d; } step(x); }
                for (uint32_t x : must) VP_CHECK(seen.count(x), "hm-iteration", "iteration missed key " << x << " which was in the map all the time; " << tr); if (!mix) VP_EQ(seen.size(), s.size(), "hm-iteration", "elements visited; " << tr); vp::count("traversals"); if (mixed) vp::count("traversals_with_operations"); }
            else if (a == 20) { if (held.size() < readers) { Held h; h.m = (int)k; uint32_t x = key(); if (!s.empty()) { auto w = s.lower_bound(x); x = w == s.end() ? s.begin()->first : w->first; } h.k = x; h.end = !s.count(x); h.isc = r.chance(1, 2); h.it = h.isc ? m.end() : m.find(K(x)); h.cit = h.isc ? c.find(K(x)) : c.end(); held.push_back(h); } else if (!held.empty()) held.erase(held.begin() + r(held.size())); }
            else if (a == 21) { if (!held.empty()) { Held& h = held[r(held.size())]; if (!h.end) { S& hs = ss[h.m]; uint32_t old = h.k; tr += "+"; if (h.isc) ++h.cit; else ++h.it; h.end = h.isc ? h.cit == ((const M&)*ms[h.m]).end() : h.it == ms[h.m]->end(); if (!h.end) { h.k = h.isc ? kid((*h.cit).first) : kid(h.it->first); VP_CHECK(hs.count(h.k) && h.k != old, "hm-step", "a step from key " << old << " leads to key " << h.k << ", which is not another element; " << tr); if (!h.isc && r.chance(1, 2)) { D d = (D)++id; h.it->second = d; hs[h.k] = d; } } vp::count("held_iterator_steps"); } } }
            else if (a == 22) { if (nm > 1 && r.chance(1, 2)) { tr += "S"; if (r.chance(1, 2)) ms[0]->swap(*ms[1]); else std::swap(*ms[0], *ms[1]); ss[0].swap(ss[1]); for (Held& h : held) h.m = 1 - h.m; vp::count("swaps"); } }
            else if (r.chance(1, 6)) { tr += "C"; m.clear(); s.clear(); for (Held& h : held) if (h.m == (int)k) h.end = true; vp::count("clears"); }
            for (Held& h : held) { if (h.end) { if (h.isc) VP_CHECK(h.cit == ((const M&)*ms[h.m]).end(), "hm-held-end", "the kept iterator of an erased key is not end(); " << tr); else VP_CHECK(h.it == ms[h.m]->end(), "hm-held-end", "the kept iterator of an erased key is not end(); " << tr); } else if (h.isc) csame(h.cit, h.m, h.k, "kept const iterator"); else same(h.it, h.m, h.k, "kept iterator"); vp::count("held_iterator_checks"); }
        }
        for (unsigned k = 0; k < nm; ++k) { const M& c = *ms[k]; VP_EQ((size_t)c.size(), ss[k].size(), "hm-size", "size at the end; " << tr); size_t n = 0; for (CIt it = c.begin(); it != c.end(); ++it, ++n) { uint32_t x = kid((*it).first); csame(it, k, x, "final iteration"); } VP_EQ(n, ss[k].size(), "hm-iteration", "elements at the end; " << tr); }
    }
    VP_EQ(vp::monitor_stat().live_bytes, live, "hm-leak", "external bytes held after the maps were destroyed; " << tr);
    vp::nontrivial(ctx.h); if (r.chance(1, 80)) vp::sample("hash map ops " + tr);
}
template <class K, bool UP, int H, unsigned SB, unsigned N> struct mk { typedef stxxl::unordered_map<K, uint64_t, Hash<K, H>, Cmp<K, UP>, SB, N> type; };
typedef Key<244> K256;
#define S(name, q, t, ...) typedef mk<__VA_ARGS__>::type T_ ## name; VP_SCENARIO_T(hm_scn, name, q, t, T_ ## name)
S(hm_u32_good, 75, 6000, uint32_t, true, GOOD, 4096, 1);
S(hm_u32_seq, 75, 6000, uint32_t, false, SEQ, 4096, 4);
S(hm_256_good, 100, 8000, K256, true, GOOD, 4096, 2);
S(hm_256_few, 100, 8000, K256, true, FEW, 4096, 4);
S(hm_256_one, 50, 4000, K256, false, ONE, 4096, 1);
S(hm_256_top, 100, 8000, K256, true, TOP, 4096, 2);
S(hm_u32_few, 50, 4000, uint32_t, false, FEW, 4096, 2);
