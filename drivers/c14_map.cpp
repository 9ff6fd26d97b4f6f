// C14: external ordered map against std::map, with iterators kept across modifications.
#include "vp.h"
#include "vp_monitor.h"
#include <stxxl/map>
#include <map>
#include <limits>
#include <memory>
#include <algorithm>
template <unsigned PAD> struct Key { uint32_t k; char pad[PAD]; Key() : k(0) { fill(); } explicit Key(uint32_t v) : k(v) { fill(); } void fill() { memset(pad, (int)(k * 7 + 1), PAD); } bool ok() const { for (unsigned i = 0; i < PAD; ++i) if (pad[i] != (char)(k * 7 + 1)) return false; return true; }
    bool operator == (const Key& o) const { return k == o.k; } bool operator != (const Key& o) const { return k != o.k; } bool operator < (const Key& o) const { return k < o.k; } bool operator > (const Key& o) const { return k > o.k; } };
template <unsigned P> static std::ostream& operator << (std::ostream& o, const Key<P>& k) { return o << k.k; }
template <unsigned P> static bool key_ok(const Key<P>& k) { return k.ok(); } static bool key_ok(uint32_t) { return true; }
template <unsigned P> static uint32_t kid(const Key<P>& k) { return k.k; } static uint32_t kid(uint32_t k) { return k; }
template <class K> struct Less { bool operator () (const K& a, const K& b) const { return a < b; } static K max_value() { return K(std::numeric_limits<uint32_t>::max()); } };
template <class K> struct Greater { bool operator () (const K& a, const K& b) const { return a > b; } static K max_value() { return K(0); } };

template <class M>
static void map_scn(vp::Ctx& ctx) {
    typedef typename M::key_type K; typedef typename M::data_type D; typedef typename M::key_compare C; typedef std::map<K, D, C> S; typedef typename M::iterator It; typedef typename M::const_iterator CIt; typedef typename M::value_type V;
    vp::Rng& r = ctx.rng; uint64_t live = vp::monitor_stat().live_bytes; std::string tr; const size_t NL = M::leaf_block_type::raw_size, NN = M::node_block_type::raw_size; const size_t LE = M::leaf_block_type::size;
    uint64_t id = r(100000); uint32_t range = (uint32_t)(r.chance(1, 2) ? r.range(5, 60) : r.range(100, std::max<size_t>(400, LE * 12)));
    auto key = [&]() { return K(1 + (uint32_t)r(range)); };
    struct Held { It it; int m; bool end; typename S::iterator s; };
    bool full = false;
    {
        std::unique_ptr<M> ms[2]; S ss[2]; unsigned nm = (unsigned)r.range(1, 2); std::vector<Held> held;
        size_t nc = r.chance(1, 4) ? r.range(3, 5) : r.range(6, 14), lc[2];
        auto make = [&](unsigned k) {
            size_t n1 = nc * NN, n2 = (lc[k] = r.chance(1, 2) ? 3 : r.range(3, 9)) * NL; unsigned how = (unsigned)r(4); if (r.chance(1, 2)) n1 += r(NN), n2 += r(NL);
            if (how == 0) { ms[k].reset(new M(n1, n2)); ss[k].clear(); }
            else if (how == 1) { ms[k].reset(new M(C(), n1, n2)); ss[k].clear(); }
            else { size_t n = r.chance(1, 2) ? r.boundary(LE / 2 + 1, 6) : r(3 * range); std::vector<std::pair<K, D> > in; for (size_t i = 0; i < n; ++i) in.push_back(std::make_pair(key(), (D)++id)); bool sorted = r.chance(3, 4);
                if (sorted) std::stable_sort(in.begin(), in.end(), [](const std::pair<K, D>& a, const std::pair<K, D>& b) { return C()(a.first, b.first); });
                ss[k] = S(in.begin(), in.end()); double f1 = 0.5 + r(51) / 100.0, f2 = 0.5 + r(51) / 100.0;
                if (how == 2) ms[k].reset(new M(in.begin(), in.end(), n1, n2, sorted, f1, f2)); else ms[k].reset(new M(in.begin(), in.end(), C(), n1, n2, sorted, f1, f2)); vp::count(sorted ? "bulk_constructed" : "range_constructed"); tr += "bulk" + std::to_string(n) + " "; }
        };
        try {
            for (unsigned k = 0; k < nm; ++k) { make(k); if (r.chance(1, 3)) ms[k]->disable_prefetching(); }
            auto same = [&](It& it, unsigned k, typename S::iterator s, const char* what) {
                if (s == ss[k].end()) { VP_CHECK(it == ms[k]->end(), "map-end", what << " is not end(); " << tr); return; }
                VP_CHECK(it != ms[k]->end(), "map-end", what << " is end(), expected key " << s->first << "; " << tr);
                K gk = it->first; D gd = (*it).second; VP_CHECK(gk == s->first && key_ok(gk), "map-key", what << " at key " << gk << " expected " << s->first << "; " << tr); VP_CHECK(gd == s->second, "map-value", what << ": value of key " << gk << " is " << gd << " expected " << s->second << "; " << tr); };
            auto csame = [&](CIt& it, unsigned k, typename S::const_iterator s, const char* what) { const M& c = *ms[k];
                if (s == ss[k].end()) { VP_CHECK(it == c.end(), "map-end", what << " is not end(); " << tr); return; }
                VP_CHECK(it != c.end(), "map-end", what << " is end(); " << tr); K gk = it->first; D gd = (*it).second; VP_CHECK(gk == s->first && gd == s->second, "map-key", what << " at " << gk << "/" << gd << " expected " << s->first << "/" << s->second << "; " << tr); };
            auto drop_key = [&](unsigned k, const K& x) { for (size_t i = 0; i < held.size(); ) if (held[i].m == (int)k && !held[i].end && held[i].s->first == x) { held[i] = held.back(); held.pop_back(); } else ++i; };
            unsigned ops = (unsigned)r.range(20, 160);
            for (unsigned o = 0; o < ops; ++o) {
                unsigned k = (unsigned)r(nm), op = (unsigned)r(24); M& m = *ms[k]; const M& c = m; S& s = ss[k]; ctx.note(op * 7 + k); tr += (char)('a' + op);
                switch (op) {
                case 0: case 1: case 2: { size_t n = r.chance(1, 3) ? r.range(1, LE) : 1; for (size_t i = 0; i < n; ++i) { K x = key(); D d = (D)++id; std::pair<It, bool> g = m.insert(V(x, d)); std::pair<typename S::iterator, bool> w = s.insert(std::make_pair(x, d)); VP_EQ(g.second, w.second, "map-insert", "insert of key " << x << " returned; " << tr); same(g.first, k, w.first, "insert's iterator"); vp::count("inserts"); } break; }
                case 3: { K x = key(); D d = (D)++id; if (r.chance(2, 3)) { m[x] = d; s[x] = d; } else { D g = m[x]; VP_EQ(g, s[x], "map-value", "operator[] of key " << x << "; " << tr); } break; }
                case 4: { K x = key(); D d = (D)++id; It h = r.chance(1, 2) ? m.end() : m.lower_bound(x); It g = m.insert(h, V(x, d)); typename S::iterator w = s.insert(std::make_pair(x, d)).first; same(g, k, w, "hinted insert"); break; }
                case 5: { std::vector<std::pair<K, D> > in; size_t n = r(2 * LE); for (size_t i = 0; i < n; ++i) in.push_back(std::make_pair(key(), (D)++id)); m.insert(in.begin(), in.end()); s.insert(in.begin(), in.end()); break; }
                case 6: case 7: case 8: { size_t n = r.chance(1, 3) ? r.range(1, LE) : 1; for (size_t i = 0; i < n; ++i) { K x = key(); if (r.chance(1, 3) && !s.empty()) x = s.lower_bound(x) == s.end() ? s.begin()->first : s.lower_bound(x)->first; drop_key(k, x); size_t w = s.erase(x), g = m.erase(x); VP_EQ(g, w, "map-erase", "erase of key " << x << " returned; " << tr); vp::count("erases", g); } break; }
                case 9: if (!s.empty()) { K x = key(); typename S::iterator w = s.lower_bound(x); if (w == s.end()) w = s.begin(); x = w->first; drop_key(k, x); It it = m.find(x); same(it, k, w, "find before erase"); m.erase(it); s.erase(w); vp::count("iterator_erases"); } break;
                case 10: { K a = key(), b = key(); if (C()(b, a)) std::swap(a, b); typename S::iterator wa = s.lower_bound(a), wb = r.chance(1, 2) ? s.upper_bound(b) : s.lower_bound(b); if (r.chance(1, 12)) { wa = s.begin(); wb = s.end(); } else if (std::distance(wa, wb) > (long)(3 * LE)) { wb = wa; std::advance(wb, 3 * LE); }
                    for (typename S::iterator z = wa; z != wb; ++z) drop_key(k, z->first);
                    if (wa == s.begin() && wb == s.end()) { for (size_t i = 0; i < held.size(); ) if (held[i].m == (int)k) { held[i] = held.back(); held.pop_back(); } else ++i; }
                    It f = wa == s.end() ? m.end() : m.find(wa->first), l = wb == s.end() ? m.end() : m.find(wb->first); m.erase(f, l); s.erase(wa, wb); vp::count("range_erases"); break; }
                case 11: { K x = key(); It f = m.find(x); same(f, k, s.find(x), "find"); CIt cf = c.find(x); csame(cf, k, s.find(x), "const find"); VP_EQ((size_t)m.count(x), s.count(x), "map-count", "count"); break; }
                case 12: { K x = key(); It f = m.lower_bound(x); same(f, k, s.lower_bound(x), "lower_bound"); CIt cf = c.lower_bound(x); csame(cf, k, s.lower_bound(x), "const lower_bound"); break; }
                case 13: { K x = key(); It f = m.upper_bound(x); same(f, k, s.upper_bound(x), "upper_bound"); CIt cf = c.upper_bound(x); csame(cf, k, s.upper_bound(x), "const upper_bound"); break; }
                case 14: { K x = key(); std::pair<It, It> p = m.equal_range(x); same(p.first, k, s.equal_range(x).first, "equal_range.first"); same(p.second, k, s.equal_range(x).second, "equal_range.second"); std::pair<CIt, CIt> q = c.equal_range(x); csame(q.first, k, s.equal_range(x).first, "const equal_range.first"); csame(q.second, k, s.equal_range(x).second, "const equal_range.second"); break; }
                case 15: { typename S::iterator w = s.begin(); size_t n = 0; if (r.chance(1, 2)) { for (It it = m.begin(); it != m.end(); ++it, ++w, ++n) { VP_CHECK(w != s.end(), "map-iteration", "iteration visits more than " << s.size() << " elements; " << tr); same(it, k, w, "forward iteration"); } } else for (CIt it = c.begin(); it != c.end(); it++, ++w, ++n) { VP_CHECK(w != s.end(), "map-iteration", "iteration visits more than " << s.size() << " elements; " << tr); csame(it, k, w, "const forward iteration"); } VP_EQ(n, s.size(), "map-iteration", "elements visited; " << tr); vp::count("iterations"); break; }
                case 16: { typename S::reverse_iterator w = s.rbegin(); size_t n = 0; if (r.chance(1, 2)) { for (It it = m.end(); it != m.begin(); ++w, ++n) { --it; VP_CHECK(w != s.rend(), "map-iteration", "backward iteration too long; " << tr); VP_CHECK(it->first == w->first && it->second == w->second, "map-reverse-iteration", "backward iteration at key " << it->first << " expected " << w->first << "; " << tr); } } else { for (typename M::const_reverse_iterator it = c.rbegin(); it != c.rend(); ++it, ++w, ++n) { VP_CHECK(w != s.rend(), "map-iteration", "reverse iteration too long; " << tr); K gk = (*it).first; VP_CHECK(gk == w->first, "map-reverse-iteration", "reverse iteration at key " << gk << " expected " << w->first << "; " << tr); } } VP_EQ(n, s.size(), "map-iteration", "elements visited backwards; " << tr); vp::count("reverse_iterations"); break; }
                case 17: case 18: { if (held.size() < 8) { Held h; h.m = (int)k; K x = key(); h.it = m.lower_bound(x); h.s = s.lower_bound(x); h.end = h.s == s.end(); held.push_back(h); } else held.erase(held.begin() + r(held.size())); break; }
                case 19: case 20: if (!held.empty()) { Held& h = held[r(held.size())]; S& hs = ss[h.m]; if (r.chance(1, 2)) { if (h.s != hs.end()) { if (r.chance(1, 2)) ++h.it; else { It old = h.it++; same(old, h.m, h.s, "it++"); } ++h.s; } } else if (h.s != hs.begin()) { if (r.chance(1, 2)) --h.it; else { It old = h.it--; same(old, h.m, h.s, "it--"); } --h.s; } h.end = h.s == hs.end(); vp::count("held_iterator_steps"); if (!h.end && r.chance(1, 2)) { D d = (D)++id; h.it->second = d; h.s->second = d; } } break;
                case 21: if (nm > 1 && r.chance(1, 2)) { if (r.chance(1, 2)) ms[0]->swap(*ms[1]); else std::swap(*ms[0], *ms[1]); ss[0].swap(ss[1]); std::swap(lc[0], lc[1]); for (Held& h : held) { h.m = 1 - h.m; if (h.end) { h.s = ss[h.m].end(); } } vp::count("swaps"); } break;
                case 22: if (r.chance(1, 6)) { for (size_t i = 0; i < held.size(); ) if (held[i].m == (int)k) { held[i] = held.back(); held.pop_back(); } else ++i; m.clear(); s.clear(); vp::count("clears"); } else if (nm > 1) { VP_EQ(*ms[0] == *ms[1], ss[0] == ss[1], "map-compare", "operator==; " << tr); VP_EQ(*ms[0] != *ms[1], ss[0] != ss[1], "map-compare", "operator!="); VP_EQ(*ms[0] < *ms[1], ss[0] < ss[1], "map-compare", "operator<; " << tr); VP_EQ(*ms[0] > *ms[1], ss[0] > ss[1], "map-compare", "operator>"); VP_EQ(*ms[0] <= *ms[1], ss[0] <= ss[1], "map-compare", "operator<="); VP_EQ(*ms[0] >= *ms[1], ss[0] >= ss[1], "map-compare", "operator>="); vp::count("comparisons"); } break;
                case 23: if (r.chance(1, 2)) m.enable_prefetching(); else m.disable_prefetching(); if (r.chance(1, 5)) { bool keepit = false; for (Held& h : held) keepit = keepit || h.m == (int)k; if (!keepit) make(k); } break;
                }
                VP_EQ((size_t)ms[k]->size(), ss[k].size(), "map-size", "size; " << tr); VP_EQ(ms[k]->empty(), ss[k].empty(), "map-empty", "empty()");
                for (Held& h : held) { if (h.end) VP_CHECK(h.it == ms[h.m]->end(), "map-held-end", "a kept end iterator is no longer end(); " << tr); else same(h.it, h.m, h.s, "kept iterator"); vp::count("held_iterator_checks"); }
                vp::count("map_ops");
            }
            for (unsigned k = 0; k < nm; ++k) { typename S::iterator w = ss[k].begin(); size_t n = 0; for (It it = ms[k]->begin(); it != ms[k]->end(); ++it, ++w, ++n) { VP_CHECK(w != ss[k].end(), "map-iteration", "final iteration too long; " << tr); same(it, k, w, "final iteration"); } VP_EQ(n, ss[k].size(), "map-iteration", "elements at the end; " << tr); }
        } catch (std::runtime_error& e) { if (!strstr(e.what(), "node cache")) throw; if (nc > 10) throw; full = true; vp::count("node_cache_exceeded"); }
    }
    if (!full) VP_EQ(vp::monitor_stat().live_bytes, live, "map-leak", "external bytes held after the maps were destroyed; " << tr);
    vp::nontrivial(ctx.h); if (r.chance(1, 80)) vp::sample("map ops " + tr);
}
typedef stxxl::map<uint32_t, uint64_t, Less<uint32_t>, 4096, 4096> m_u32; typedef stxxl::map<Key<396>, uint64_t, Less<Key<396> >, 4096, 4096> m_400; typedef stxxl::map<Key<696>, uint64_t, Greater<Key<696> >, 4096, 4096, stxxl::striping> m_700; typedef stxxl::map<Key<396>, uint64_t, Greater<Key<396> >, 4096, 8192> m_400g; typedef stxxl::map<uint32_t, uint64_t, Greater<uint32_t>, 8192, 4096> m_u32g; typedef stxxl::map<Key<60>, uint64_t, Less<Key<60> >, 4096, 4096> m_64;
VP_SCENARIO_T(map_scn, map_u32, 300, 12000, m_u32);
VP_SCENARIO_T(map_scn, map_400, 900, 30000, m_400);
VP_SCENARIO_T(map_scn, map_700, 900, 30000, m_700);
VP_SCENARIO_T(map_scn, map_400g, 600, 20000, m_400g);
VP_SCENARIO_T(map_scn, map_u32g, 200, 8000, m_u32g);
VP_SCENARIO_T(map_scn, map_64, 400, 16000, m_64);
