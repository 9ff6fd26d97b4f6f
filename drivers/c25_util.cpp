// C25: utility types against independent computations.
#include "vp.h"
#include <stxxl/bits/common/uint_types.h>
#include <stxxl/bits/common/binary_buffer.h>
#include <stxxl/bits/common/cmdline.h>
#include <stxxl/bits/common/utils.h>
#include <stxxl/bits/common/aligned_alloc.h>
#include <stxxl/bits/common/new_alloc.h>
#include <stxxl/bits/common/simple_vector.h>
#include <stxxl/bits/common/swap_vector.h>
#include <stxxl/bits/common/addressable_queues.h>
#include <stxxl/bits/common/tuple.h>
#include <stxxl/bits/common/tmeta.h>
#include <stxxl/bits/common/is_heap.h>
#include <stxxl/bits/common/is_sorted.h>
#include <stxxl/bits/common/timer.h>
#include <stxxl/bits/common/custom_stats.h>
#include <stxxl/bits/common/rand.h>
#include <stxxl/bits/common/seed.h>
#include <algorithm>
#include <cmath>
#include <deque>
#include <iomanip>
#include <list>
#include <map>
#include <set>
#include <sys/time.h>
#include <unistd.h>
using namespace stxxl;
typedef unsigned long long ull; typedef unsigned __int128 u128;

static uint64_t edge(vp::Rng& r, unsigned bits) { // values near powers of two
    uint64_t m = bits >= 64 ? ~0ull : (1ull << bits) - 1, v;
    switch (r(5)) { case 0: v = r(4); break; case 1: v = m - r(4); break; case 2: v = (1ull << r(bits)) + r(5) - 2; break; case 3: v = r.next() >> r(64); break; default: v = r.next(); }
    return v & m;
}
template <class H> static void uint_scn(vp::Ctx& ctx) {
    typedef uint_pair<H> U; vp::Rng& r = ctx.rng; const unsigned bits = 32 + 8 * sizeof(H); const uint64_t m = (1ull << bits) - 1;
    VP_EQ((size_t)U::digits, (size_t)bits, "uint-limits", "digits"); VP_EQ(sizeof(U), (size_t)bits / 8, "uint-limits", "size"); VP_EQ((size_t)U::bytes, (size_t)bits / 8, "uint-limits", "bytes"); VP_EQ(U::min().u64(), (uint64_t)0, "uint-limits", "min()"); VP_EQ(U::max().u64(), m, "uint-limits", "max()");
    typedef std::numeric_limits<U> L; VP_CHECK(L::is_specialized && L::is_integer && L::is_exact && !L::is_signed && L::radix == 2 && L::digits == (int)bits && !L::has_infinity, "uint-limits", "numeric_limits"); VP_EQ(L::min().u64(), (uint64_t)0, "uint-limits", "numeric_limits::min()"); VP_EQ(L::max().u64(), m, "uint-limits", "numeric_limits::max()"); VP_EQ(L::lowest().u64(), (uint64_t)0, "uint-limits", "numeric_limits::lowest()");
    std::vector<U> arr(7); std::vector<uint64_t> ref(7, 0); for (size_t i = 0; i < 7; ++i) { ref[i] = edge(r, bits); arr[i] = U((uint64)ref[i]); }
    for (int q = 0; q < 400; ++q) {
        uint64_t a = edge(r, bits), b = r.chance(1, 3) ? a + r(3) - 1 : r.chance(1, 3) ? (a & ~0xFFFFFFFFull) | (uint32_t)edge(r, 32) : edge(r, bits); a &= m; b &= m; U x((uint64)a), y((uint64)b), z(x); ctx.note(a); ctx.note(b);
        VP_EQ(x.u64(), a, "uint-convert", "value from 64 bits"); VP_EQ(x.ull(), a, "uint-convert", "value from 64 bits (ull)"); VP_EQ((uint64_t)x, a, "uint-convert", "conversion of " << a); VP_EQ(z.u64(), a, "uint-convert", "copy");
        VP_EQ(U((uint32)a, (H)(a >> 32)).u64(), a, "uint-convert", "value from parts"); uint32 w = (uint32)b; VP_EQ(U(w).u64(), (uint64_t)w, "uint-convert", "value from unsigned 32 bits"); int32 s = (int32)b; VP_EQ(U(s).u64(), (uint64_t)(int64_t)s & m, "uint-convert", "value from signed 32 bits " << s);
        VP_CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "uint-compare", "comparing " << a << " and " << b);
        U i = x; U& ri = ++i; VP_CHECK(&ri == &i, "uint-arithmetic", "++ returns another object"); VP_EQ(i.u64(), (a + 1) & m, "uint-arithmetic", "++ of " << a); --i; VP_EQ(i.u64(), a, "uint-arithmetic", "-- after ++ of " << a); --i; VP_EQ(i.u64(), (a - 1) & m, "uint-arithmetic", "-- of " << a);
        U p = x; p += y; VP_EQ(p.u64(), (a + b) & m, "uint-arithmetic", a << " += " << b); VP_EQ(y.u64(), b, "uint-arithmetic", "operand of +="); p = x; p += p; VP_EQ(p.u64(), (2 * a) & m, "uint-arithmetic", "adding " << a << " to itself");
        std::ostringstream o; o << x; VP_EQ(o.str(), std::to_string((ull)a), "uint-convert", "output");
        VP_EQ(x + 1, a + 1, "uint-arithmetic", "promotion to 64 bits"); 
        size_t k = r(7); arr[k] = x; ref[k] = a; if (r.chance(1, 2)) { ++arr[k]; ref[k] = (ref[k] + 1) & m; } if (r.chance(1, 2)) { arr[k] += y; ref[k] = (ref[k] + b) & m; } for (size_t j = 0; j < 7; ++j) VP_EQ(arr[j].u64(), ref[j], "uint-packing", "neighbour " << j << " of " << k);
        vp::count("uint_operations", 14);
    }
    std::vector<U> so(arr); std::sort(so.begin(), so.end()); std::sort(ref.begin(), ref.end()); for (size_t j = 0; j < 7; ++j) VP_EQ(so[j].u64(), ref[j], "uint-compare", "sorted values"); 
    vp::nontrivial(ctx.h);
}

// ---- binary buffers
struct Item { int kind; uint64_t v; double d; std::string s; };
static void enc_varint(std::string& out, uint64_t v) { do { unsigned char c = v & 127; v >>= 7; if (v) c |= 128; out += (char)c; } while (v); }
template <class T> static void raw(std::string& out, T v) { out.append((const char*)&v, sizeof v); }
VP_SCENARIO_T(uint_scn, uint40, 400, 8000, uint8);
VP_SCENARIO_T(uint_scn, uint48, 400, 8000, uint16);
VP_SCENARIO(binary_buffer, 2400, 64000) {
    vp::Rng& r = ctx.rng; binary_buffer b; std::string ref; std::vector<Item> items; 
    if (r.chance(1, 4)) b.alloc(r(50)); 
    { size_t a = (size_t)r.range(1, 300), have = (size_t)r.range(1, 400), want = (have + a - 1) / a * a; std::string x; for (size_t i = 0; i < have; ++i) x += (char)r.next(); binary_buffer c; c.alloc(std::max(have, want - r(3))); c.append(x); c.align(a); x.append(want - have, '\0'); VP_EQ(c.str(), x, "buffer-content", "aligned to " << a << " at the end of the memory"); }
    for (size_t n = r(60); n > 0; --n) {
        Item it; it.kind = (int)r(15); it.v = 0; it.d = 0;
        switch (it.kind) {
        case 0: it.v = (uint8_t)r.next(); b.put<uint8>((uint8)it.v); raw(ref, (uint8)it.v); break;
        case 1: it.v = (uint16_t)r.next(); b.put<uint16>((uint16)it.v); raw(ref, (uint16)it.v); break;
        case 2: it.v = (uint32_t)edge(r, 32); b.put<uint32>((uint32)it.v); raw(ref, (uint32)it.v); break;
        case 3: it.v = edge(r, 64); b.put<uint64>(it.v); raw(ref, (uint64)it.v); break;
        case 4: it.d = (double)r.next() / 7; b.put<double>(it.d); raw(ref, it.d); break;
        case 5: it.v = (uint64_t)(int64_t)(int32_t)r.next(); b.put<int>((int)it.v); raw(ref, (int)it.v); break;
        case 6: it.v = (uint32_t)edge(r, 32); b.put_varint((uint32)it.v); enc_varint(ref, it.v); break;
        case 7: it.v = edge(r, 64); b.put_varint((uint64)it.v); enc_varint(ref, it.v); break;
        case 8: it.v = edge(r, 31); b.put_varint((int)it.v); enc_varint(ref, it.v); break;
        case 9: { size_t l = r.chance(1, 8) ? r(20000) : r(200); for (size_t i = 0; i < l; ++i) it.s += (char)r.next(); if (r.chance(1, 2)) b.put_string(it.s); else b.put_string(it.s.data(), it.s.size()); enc_varint(ref, it.s.size()); ref += it.s; break; }
        case 10: { for (size_t l = r(40); l > 0; --l) it.s += (char)r.next(); binary_buffer o(it.s); VP_EQ(o.str(), it.s, "buffer-content", "buffer from a string"); b.put_string(o); enc_varint(ref, it.s.size()); ref += it.s; break; }
        case 11: { for (size_t l = r(40); l > 0; --l) it.s += (char)r.next(); if (r.chance(1, 2)) b.append(it.s); else b.append(it.s.data(), it.s.size()); ref += it.s; break; }
        case 12: { size_t a = (size_t)r.range(1, r.chance(1, 3) ? 300 : 16); size_t pad = (a - ref.size() % a) % a; b.align(a); ref.append(pad, '\0'); it.s.assign(pad, '\0'); break; }
        case 13: { if (ref.size() > 3000) { it.kind = 11; break; } it.s = ref; b.append(b); ref += it.s; break; } // itself
        default: { binary_buffer c(b), d; d = c; d.append("x", 1); VP_EQ(c.str(), ref, "buffer-content", "copy"); VP_EQ(d.size(), ref.size() + 1, "buffer-content", "assigned copy"); binary_buffer_ref rb(b), rc(c), rd(d); VP_CHECK(rb == rc && !(rb != rc) && rb != rd && !(rb == rd), "buffer-compare", "comparison of buffers"); if (!ref.empty()) { size_t i = r(ref.size()); c.data()[i] ^= 1; VP_CHECK(rb != binary_buffer_ref(c) && !(rb == binary_buffer_ref(c)), "buffer-compare", "a changed byte goes unnoticed"); } b = b; it.kind = 11; it.s.clear(); break; }
        }
        items.push_back(it); ctx.note(it.kind * 1000 + ref.size());
        VP_EQ(b.size(), ref.size(), "buffer-content", "size after item of kind " << it.kind); VP_CHECK(b.capacity() >= b.size(), "buffer-content", "capacity"); VP_CHECK(memcmp(b.data(), ref.data(), ref.size()) == 0, "buffer-content", "bytes after item of kind " << it.kind); vp::count("buffer_items");
    }
    VP_EQ(b.str(), ref, "buffer-content", "str()");
    size_t cut = r.chance(1, 2) ? ref.size() : r(ref.size() + 1); std::vector<char> exact(ref.begin(), ref.begin() + cut); // nothing readable behind the end
    static char none; const void* base = exact.empty() ? (const void*)&none : (const void*)&exact[0]; binary_reader rd(base, cut); 
    for (int round = 0; round < 2; ++round) {
        size_t pos = 0; VP_EQ(rd.curr(), (size_t)0, "reader-cursor", "cursor at the start");
        for (size_t i = 0; i < items.size(); ++i) {
            const Item& it = items[i]; std::string e; switch (it.kind) { case 0: raw(e, (uint8)it.v); break; case 1: raw(e, (uint16)it.v); break; case 2: raw(e, (uint32)it.v); break; case 3: raw(e, (uint64)it.v); break; case 4: raw(e, it.d); break; case 5: raw(e, (int)it.v); break; case 6: case 7: case 8: enc_varint(e, it.v); break; case 9: case 10: enc_varint(e, it.s.size()); e += it.s; break; default: e = it.s; }
            bool fits = pos + e.size() <= cut, thrown = false; VP_EQ(rd.cursor_available(e.size()), fits, "reader-cursor", "cursor_available(" << e.size() << ") at " << pos << " of " << cut);
            try {
                switch (it.kind) {
                case 0: { uint8 v = rd.get<uint8>(); VP_EQ((int)v, (int)(uint8)it.v, "reader-value", "byte"); break; } case 1: { uint16 v = rd.get<uint16>(); VP_EQ(v, (uint16)it.v, "reader-value", "16 bits"); break; } case 2: { uint32 v = rd.get<uint32>(); VP_EQ(v, (uint32)it.v, "reader-value", "32 bits"); break; } case 3: { uint64 v = rd.get<uint64>(); VP_EQ(v, (uint64)it.v, "reader-value", "64 bits"); break; } case 4: { double v = rd.get<double>(); VP_CHECK(v == it.d, "reader-value", "double"); break; } case 5: { int v = rd.get<int>(); VP_EQ(v, (int)it.v, "reader-value", "int"); break; }
                case 6: case 8: { uint32 v = rd.get_varint(); VP_EQ((uint64_t)v, it.v, "reader-varint", "32 bit number of variable length"); break; }
                case 7: { uint64 v = rd.get_varint64(); VP_EQ((uint64_t)v, it.v, "reader-varint", "64 bit number of variable length"); break; }
                case 9: case 10: { std::string v; if (r.chance(1, 2)) v = rd.get_string(); else { binary_buffer_ref v2 = rd.get_binary_buffer_ref(); v = v2.str(); VP_EQ(v2.size(), it.s.size(), "reader-value", "size of a referenced part"); } VP_CHECK(v == it.s, "reader-value", "string of " << it.s.size() << " bytes"); break; }
                default: if (r.chance(1, 3)) rd.skip(it.s.size()); else if (r.chance(1, 2)) { std::vector<char> o(it.s.size() + 1, 7); rd.read(&o[0], it.s.size()); VP_CHECK(o[it.s.size()] == 7 && std::string(&o[0], it.s.size()) == it.s, "reader-value", "raw bytes"); } else { VP_CHECK(rd.read(it.s.size()) == it.s, "reader-value", "raw bytes as string"); }
                }
            }
            catch (std::underflow_error&) { thrown = true; }
            VP_CHECK(thrown == !fits, "reader-underflow", "item of kind " << it.kind << " of " << e.size() << " bytes at " << pos << " of " << cut << (thrown ? " was rejected" : " was read"));
            if (thrown) { vp::count("reader_underflows"); if (it.kind <= 5 || it.kind >= 11) VP_EQ(rd.curr(), pos, "reader-cursor", "cursor after a rejected read"); break; }
            pos += e.size(); VP_EQ(rd.curr(), pos, "reader-cursor", "cursor"); VP_EQ(rd.empty(), pos == cut, "reader-cursor", "empty() at " << pos << " of " << cut);
            if (r.chance(1, 10)) { bool t = false; size_t huge = ~(size_t)0 - r(pos + 2); try { if (r.chance(1, 2)) rd.skip(huge); else rd.check_available(huge); } catch (std::underflow_error&) { t = true; } VP_CHECK(t && rd.curr() == pos, "reader-underflow", "skipping " << huge << " bytes at " << pos << " of " << cut); }
            vp::count("reader_items");
        }
        rd.rewind();
    }
    // numbers which do not fit
    { std::string bad; for (int i = 0; i < 4; ++i) bad += (char)(128 | r(128)); bad += (char)r.range(16, 255); binary_reader q(bad); bool t = false; try { q.get_varint(); } catch (std::overflow_error&) { t = true; } VP_CHECK(t, "reader-overflow", "a 32 bit number with more bits was accepted"); }
    { std::string bad; for (int i = 0; i < 9; ++i) bad += (char)(128 | r(128)); bad += (char)r.range(2, 255); binary_reader q(bad); bool t = false; try { q.get_varint64(); } catch (std::overflow_error&) { t = true; } VP_CHECK(t, "reader-overflow", "a 64 bit number with more bits was accepted"); }
    if (r.chance(1, 3)) { b.set_size(r(b.size() + 1)); size_t k = b.size(); std::string s = ref.substr(0, k); VP_EQ(b.str(), s, "buffer-content", "after set_size()"); b.assign("abc", 3); VP_EQ(b.str(), std::string("abc"), "buffer-content", "after assign()"); b.clear(); VP_EQ(b.size(), (size_t)0, "buffer-content", "after clear()"); b.put<uint8>(9); const char* p = b.detach(); VP_CHECK(p && p[0] == 9 && b.size() == 0 && b.capacity() == 0, "buffer-content", "detach()"); free((void*)p); }
    vp::nontrivial(ctx.h);
}

// ---- command lines
struct Opt { int type; char key; std::string lk; bool isparam; bool flag; int i; unsigned u; double d; uint32 b32; uint64 b64; std::string s; std::vector<std::string> l; bool found;
    Opt() : type(0), key(0), isparam(false), flag(false), i(-77), u(77), d(-7.5), b32(7), b64(9), s("unset"), found(false) { } };
static std::string value_text(vp::Rng& r, int type, Opt& e, bool good) {
    std::ostringstream o;
    switch (type) {
    case 1: { int64_t v = (int64_t)(int32_t)edge(r, 32); if (good) { e.i = (int)v; o << (r.chance(1, 8) && v >= 0 ? "+" : "") << v; } else switch (r(4)) { case 0: o << (v < 0 ? -2147483649ll - (int64_t)r(1000) : 2147483648ll + (int64_t)r(1ull << 62)); break; case 1: o << "x" << v; break; case 2: o << v << "x"; break; default: if (r.chance(1, 2)) o << v << ".5"; } break; }
    case 2: { uint64_t v = edge(r, 32); if (good) { e.u = (unsigned)v; o << v; } else switch (r(4)) { case 0: o << 4294967296ull + r(1ull << 62); break; case 1: o << "-" << v; break; case 2: o << v << "q"; break; default: o << "zz"; } break; }
    case 3: { int64_t v = (int64_t)r(2000001) - 1000000; if (good) { e.d = (double)v / 1024; o << std::setprecision(17) << e.d; } else if (r.chance(1, 2)) o << v << "z"; else o << "abc"; break; }
    case 4: case 5: { static const char* un[] = { "", "B", "k", "KB", "kiB", "M", "MB", "MiB", "Gi", "G", "GB", "T", "TiB", "PiB", "P" }; static const uint64_t f[] = { 1, 1, 1000, 1000, 1024, 1000000, 1000000, 1048576, 1ull << 30, 1000000000, 1000000000, 1000000000000ull, 1ull << 40, 1ull << 50, 1000000000000000ull };
        size_t k = r(type == 4 ? 11 : 15); uint64_t mx = (type == 4 ? 0xFFFFFFFFull : ~0ull) / f[k], v = r.chance(1, 4) ? mx - r(mx < 3 ? mx + 1 : 3) : r.chance(1, 2) ? r(mx < 5000 ? mx + 1 : 5000) : r(mx);
        if (good) { if (type == 4) e.b32 = (uint32)(v * f[k]); else e.b64 = v * f[k]; o << (r.chance(1, 4) ? "  " : "") << v << (r.chance(1, 2) ? " " : "") << un[k] << (r.chance(1, 4) ? " " : ""); } else switch (r(3)) { case 0: o << "x" << v << un[k]; break; case 1: o << v << un[k] << "Z"; break; default: if (mx < ~0ull) { o << mx + 1 + r(mx / 4 + 1) << un[k]; } else o << "KB"; } break; }
    default: { size_t n = r(8); static const char c[] = "abcz 059._/-=\"\\\t\xc3\xa4"; for (size_t i = 0; i < n; ++i) o << c[r(sizeof c - 1)]; std::string t = o.str(); if (!t.empty() && t[0] == '-') t[0] = 'm'; if (type == 6) e.s = t; else e.l.push_back(t); return t; }
    }
    return o.str();
}
VP_SCENARIO(cmdline, 5600, 160000) {
    vp::Rng& r = ctx.rng; std::vector<Opt> got(r.range(0, 7)), exp; size_t np = r(4);
    static const char* words[] = { "alpha", "beta", "gamma", "delta-x", "eps", "zeta9", "eta", "a", "alpha2", "bet", "x-very-long-option-name-which-fills-most-of-the-line-and-leaves-no-room-at-all-here" };
    std::vector<int> wi; for (int i = 0; i < 11; ++i) wi.push_back(i); for (size_t i = 10; i > 0; --i) std::swap(wi[i], wi[r(i + 1)]);
    std::string keys = "abcdxyzHi90"; for (size_t i = keys.size() - 1; i > 0; --i) std::swap(keys[i], keys[r(i + 1)]);
    size_t nopt = got.size(); for (size_t i = 0; i < np; ++i) got.push_back(Opt()); for (size_t i = 0; i < got.size(); ++i) { got[i].isparam = i >= nopt; got[i].type = (int)(i >= nopt ? r.range(1, 7) : r(8)); got[i].lk = i < nopt ? words[wi[i]] : "param" + std::to_string(i); if (i < nopt && r.chance(2, 3)) got[i].key = keys[i]; }
    // a repeated parameter has to be the last one
    for (size_t i = nopt; i < got.size(); ++i) { if (got[i].type == 7 && i + 1 < got.size()) got[i].type = 6; }
    exp = got; std::vector<int> opt_only(np, 0); cmdline_parser cp; cp.set_verbose_process(r.chance(1, 2)); if (r.chance(1, 2)) { cp.set_description("some words describing\nthe program at length, which are wrapped at the end of the line since they do not fit into it"); cp.set_author("An Author"); }
    std::vector<bool> required(got.size(), false);
    for (size_t i = 0; i < got.size(); ++i) {
        Opt& o = got[i]; std::string desc = "description number " + std::to_string(i) + " with several words so that it has to be wrapped somewhere\nand a second line"; bool kt = r.chance(1, 2);
        if (!o.isparam) switch (o.type) {
            case 0: kt ? cp.add_flag(o.key, o.lk, "<t>", o.flag, desc) : cp.add_flag(o.key, o.lk, o.flag, desc); break; case 1: kt ? cp.add_int(o.key, o.lk, "<t>", o.i, desc) : cp.add_int(o.key, o.lk, o.i, desc); break; case 2: kt ? cp.add_uint(o.key, o.lk, "<t>", o.u, desc) : cp.add_uint(o.key, o.lk, o.u, desc); break; case 3: kt ? cp.add_double(o.key, o.lk, "<t>", o.d, desc) : cp.add_double(o.key, o.lk, o.d, desc); break;
            case 4: kt ? cp.add_bytes(o.key, o.lk, "<t>", o.b32, desc) : cp.add_bytes(o.key, o.lk, o.b32, desc); break; case 5: kt ? cp.add_bytes(o.key, o.lk, "<t>", o.b64, desc) : cp.add_bytes(o.key, o.lk, o.b64, desc); break; case 6: kt ? cp.add_string(o.key, o.lk, "<t>", o.s, desc) : cp.add_string(o.key, o.lk, o.s, desc); break; default: kt ? cp.add_stringlist(o.key, o.lk, "<t>", o.l, desc) : cp.add_stringlist(o.key, o.lk, o.l, desc); }
        else { bool rq = r.chance(1, 2); required[i] = rq; 
            switch (o.type) { case 1: rq ? cp.add_param_int(o.lk, o.i, desc) : cp.add_opt_param_int(o.lk, o.i, desc); break; case 2: rq ? cp.add_param_uint(o.lk, o.u, desc) : cp.add_opt_param_uint(o.lk, o.u, desc); break; case 3: rq ? cp.add_param_double(o.lk, o.d, desc) : cp.add_opt_param_double(o.lk, o.d, desc); break; case 4: rq ? cp.add_param_bytes(o.lk, o.b32, desc) : cp.add_opt_param_bytes(o.lk, o.b32, desc); break; case 5: rq ? cp.add_param_bytes(o.lk, o.b64, desc) : cp.add_opt_param_bytes(o.lk, o.b64, desc); break; case 6: rq ? cp.add_param_string(o.lk, o.s, desc) : cp.add_opt_param_string(o.lk, o.s, desc); break; default: rq ? cp.add_param_stringlist(o.lk, o.l, desc) : cp.add_opt_param_stringlist(o.lk, o.l, desc); } }
    }
    // the arguments
    std::vector<std::string> args(1, "program"); bool ok = true; size_t nextp = nopt; size_t n = r(9); int badat = r.chance(1, 3) ? (int)r(n + 1) : -1; std::string why; bool help = false, last = false, ended = false;
    for (size_t k = 0; k < n && ok && !last; ++k) {
        bool bad = (int)k == badat; 
        if (r.chance(1, 60)) { help = true; args.push_back(r.chance(1, 2) ? "-h" : "--help"); ok = false; why = "help"; break; }
        if (!ended && r.chance(1, 30)) { args.push_back("---"); ended = true; continue; }
        if (nopt && !ended && r.chance(2, 3)) {
            size_t i = r(nopt); Opt& o = exp[i]; bool lng = o.key == 0 || r.chance(1, 2);
            if (bad && r.chance(1, 4)) { std::string u = r.chance(1, 2) ? "--" + o.lk + "q" : "--" + o.lk.substr(0, o.lk.size() - 1); bool exists = false; for (size_t j = 0; j < nopt; ++j) if ("--" + exp[j].lk == u) exists = true; if (r.chance(1, 3)) { u = "-Q"; exists = false; } if (!exists && u != "--") { args.push_back(u); ok = false; why = "unknown option " + u; break; } }
            args.push_back(lng ? "--" + o.lk : std::string("-") + o.key);
            if (o.type == 0) { o.flag = true; continue; }
            if (bad && r.chance(1, 3)) { ok = false; last = true; why = "missing argument"; break; }
            if (bad && o.type < 6) { Opt dummy; args.push_back(value_text(r, o.type, dummy, false)); ok = false; why = "bad value '" + args.back() + "' of type " + std::to_string(o.type); break; }
            args.push_back(value_text(r, o.type, o, true));
        }
        else {
            if (nextp >= exp.size()) { if (!bad) continue; args.push_back("extra"); ok = false; why = "extra argument"; break; }
            Opt& o = exp[nextp]; if (bad && o.type < 6) { Opt dummy; std::string t = value_text(r, o.type, dummy, false); if (!t.empty() && t[0] == '-' && !ended) continue; args.push_back(t); ok = false; why = "bad parameter '" + t + "'"; break; }
            Opt save = o; std::string t = value_text(r, o.type, o, true); if (!t.empty() && t[0] == '-' && !ended) { o = save; continue; } // would be an option
            args.push_back(t); o.found = true; if (o.type != 7) nextp++;
        }
    }
    if (ok) for (size_t i = nopt; i < exp.size(); ++i) if (required[i] && !exp[i].found) { ok = false; why = "missing parameter"; }
    std::vector<const char*> av; std::string all; for (size_t i = 0; i < args.size(); ++i) { av.push_back(args[i].c_str()); all += " '" + args[i] + "'"; } av.push_back(NULL);
    std::ostringstream os; bool res = cp.process((int)args.size(), &av[0], os); for (size_t i = 0; i < args.size(); ++i) ctx.note(vp::mix(args[i].size() * 31 + (args[i].empty() ? 0 : args[i][0])));
    VP_CHECK(res == ok, "cmdline-accept", "arguments" << all << (res ? " are accepted" : " are rejected") << (why.empty() ? "" : ", but have: " + why));
    vp::count(ok ? "cmdlines_accepted" : "cmdlines_rejected");
    if (ok) for (size_t i = 0; i < exp.size(); ++i) { const Opt& g = got[i], & e = exp[i]; VP_CHECK(g.flag == e.flag && g.i == e.i && g.u == e.u && g.d == e.d && g.b32 == e.b32 && g.b64 == e.b64 && g.s == e.s && g.l == e.l, "cmdline-values", "option " << e.lk << " of type " << e.type << " has another value after" << all << " (int " << g.i << "/" << e.i << ", unsigned " << g.u << "/" << e.u << ", double " << g.d << "/" << e.d << ", bytes " << g.b32 << "/" << e.b32 << " " << g.b64 << "/" << e.b64 << ", string '" << g.s << "'/'" << e.s << "', list " << g.l.size() << "/" << e.l.size() << ")"); }
    else VP_CHECK(!os.str().empty(), "cmdline-message", "no message about" << all);
    std::ostringstream us; cp.print_usage(us); for (size_t i = 0; i < got.size(); ++i) VP_CHECK(us.str().find(got[i].lk) != std::string::npos, "cmdline-usage", "the usage does not name " << got[i].lk);
    std::ostringstream rs; cp.print_result(rs); for (size_t i = 0; i < got.size(); ++i) VP_CHECK(rs.str().find(got[i].lk) != std::string::npos, "cmdline-usage", "the result does not name " << got[i].lk);
    (void)help; vp::nontrivial(ctx.h); if (r.chance(1, 100)) vp::sample("command line" + all + (ok ? " accepted" : " rejected: " + why));
}
struct Wrapper : public cmdline_parser { static void wrap(std::ostream& os, const std::string& t, size_t w, size_t a, size_t b, size_t c, size_t d) { output_wrap(os, t, w, a, b, c, d); } };
VP_SCENARIO(wrapping, 1600, 32000) {
    vp::Rng& r = ctx.rng; std::string t; for (size_t n = r(60); n > 0; --n) { for (size_t l = r.range(1, r.chance(1, 8) ? 40 : 9); l > 0; --l) t += (char)('a' + r(26)); t += r.chance(1, 8) ? '\n' : ' '; }
    size_t w = r.range(1, 60), a = r(r.chance(1, 5) ? 70 : 10), b = r(r.chance(1, 5) ? 70 : 10), c = r(10), d = r(10); std::ostringstream os; Wrapper::wrap(os, t, w, a, b, c, d); ctx.note(vp::mix(t.size())); ctx.note(w * 1000 + a);
    std::string x, y, o = os.str(); for (size_t i = 0; i < t.size(); ++i) if (t[i] != ' ' && t[i] != '\n') x += t[i]; for (size_t i = 0; i < o.size(); ++i) if (o[i] != ' ' && o[i] != '\n') y += o[i];
    VP_EQ(y, x, "wrap-content", "letters of the wrapped text"); 
    std::istringstream is(o); std::string line; bool first = true; while (std::getline(is, line)) { size_t p = line.find_first_not_of(' '); if (p != std::string::npos) { size_t extra = line.find_last_not_of(' ') + 1 + (first ? c : 0); bool oneword = line.find(' ', p) == std::string::npos || line.find(' ', p) > line.find_last_not_of(' '); VP_CHECK(extra <= w || oneword, "wrap-width", "a line of " << extra << " characters at width " << w << ": " << line); } first = false; } vp::count("texts_wrapped"); vp::nontrivial(ctx.h);
}

// ---- sizes
VP_SCENARIO(sizes, 800, 16000) {
    vp::Rng& r = ctx.rng; static const char pre[] = "kmgtp"; 
    for (int q = 0; q < 200; ++q) {
        int p = (int)r(6); bool iec = p > 0 && r.chance(1, 2); bool B = r.chance(1, 2); char def = 0; static const char defs[] = "kmgtpKMGTP\0zb"; def = r.chance(1, 2) ? defs[r(13)] : 0;
        u128 f = 1; if (p > 0) for (int i = 0; i < p; ++i) f *= iec ? 1024 : 1000; else if (!B) { const char* k = def ? strchr("kmgtpKMGTP", def) : NULL; if (k) { int d = (int)(k - "kmgtpKMGTP"); size_t idx = (size_t)(strchr("kmgtpKMGTP", def) - (const char*)strchr("kmgtpKMGTP", 'k')); (void)d; for (size_t i = 0; i < idx % 5 + 1; ++i) f *= idx >= 5 ? 1024 : 1000; } }
        uint64_t mx = (uint64_t)((u128)~0ull / f), v = r.chance(1, 3) ? mx + 2 - r(4) : r.chance(1, 2) ? r(3000) : edge(r, 64) % (mx ? mx : 1); if (f == 1 && v < 2) v += 2;
        std::string s; for (size_t i = r(3); i > 0; --i) s += ' '; s += std::to_string((ull)v); for (size_t i = r(3); i > 0; --i) s += ' '; if (p > 0) { s += r.chance(1, 2) ? pre[p - 1] : (char)toupper(pre[p - 1]); if (iec) s += r.chance(1, 2) ? 'i' : 'I'; } if (B) s += r.chance(1, 2) ? 'B' : 'b'; for (size_t i = r(3); i > 0; --i) s += ' ';
        bool good = (u128)v * f <= (u128)~0ull; int mal = r.chance(1, 6) ? (int)r(6) : -1;
        if (mal >= 0) { good = false; switch (mal) { case 0: s += 'x'; break; case 1: s = "x" + s; break; case 2: s = "-" + s.substr(s.find_first_not_of(' ')); break; case 3: s = p > 0 ? std::string(1, pre[p - 1]) + "B" : ""; break; case 4: s += " 1"; break; default: s = s + "iB2"; } }
        uint64 out = 12345; bool ok = parse_SI_IEC_size(s, out, def); VP_CHECK(ok == good, "size-accept", "'" << s << "' with default unit '" << (def ? def : ' ') << "' is " << (ok ? "accepted" : "rejected")); if (ok) VP_EQ(out, (uint64)((u128)v * f), "size-value", "value of '" << s << "', default unit '" << (def ? def : ' ') << "'");
        vp::count(ok ? "sizes_parsed" : "sizes_rejected"); ctx.note(v); ctx.note(p);
        uint64_t z = edge(r, 64); for (int base = 0; base < 2; ++base) {
            std::string t = base ? format_IEC_size(z) : format_SI_size(z); double num = 0; char unit[8] = ""; int k = sscanf(t.c_str(), "%lf %7s", &num, unit); VP_CHECK(k >= 1, "size-format", "format of " << z << ": " << t); static const char* si[] = { "", "k", "M", "G", "T", "P", "E" }; static const char* ie[] = { "", "Ki", "Mi", "Gi", "Ti", "Pi", "Ei" }; int e = -1; for (int i = 0; i < 7; ++i) if (std::string(unit) == (base ? ie[i] : si[i])) e = i; VP_CHECK(e >= 0, "size-format", "unit of " << t); long double sc = 1; for (int i = 0; i < e; ++i) sc *= base ? 1024 : 1000;
            VP_CHECK(fabsl((long double)z - (long double)num * sc) <= 0.000501L * sc + (long double)z * 1e-15L, "size-format", z << " is shown as " << t); VP_CHECK(num <= (base ? 1024.0 : 1000.0) && (num >= 1 || z == 0), "size-format", z << " is shown as " << t); vp::count("sizes_formatted"); }
    }
    vp::nontrivial(ctx.h);
}
// ---- integers and strings
template <unsigned_type I> static void log2_is(unsigned f, unsigned c) { VP_EQ((unsigned)LOG2<I>::floor, f, "log2-template", "LOG2<" << I << ">::floor"); VP_EQ((unsigned)LOG2<I>::ceil, c, "log2-template", "LOG2<" << I << ">::ceil"); }
template <class T> static void ints(vp::Rng& r, unsigned bits) {
    for (int q = 0; q < 100; ++q) {
        uint64_t v = edge(r, bits); if (v == 0) v = 1; unsigned fl = 63 - (unsigned)__builtin_clzll(v), ce = fl + ((v & (v - 1)) != 0); if (v == 1) ce = 0;
        VP_EQ(ilog2_floor((T)v), fl, "ilog2", "ilog2_floor(" << v << ")"); VP_EQ(ilog2_ceil((T)v), ce, "ilog2", "ilog2_ceil(" << v << ")");
        if (v < (1ull << 44)) { VP_EQ((uint64_t)log2_floor((T)v), (uint64_t)fl, "log2", "log2_floor(" << v << ")"); VP_EQ((uint64_t)log2_ceil((T)v), (uint64_t)ce, "log2", "log2_ceil(" << v << ")"); }
        if (ce < bits) VP_EQ((uint64_t)round_up_to_power_of_two((T)v), 1ull << ce, "round-up", "round_up_to_power_of_two(" << v << ")");
        unsigned p = (unsigned)r(bits - 1); u128 e = ((u128)v + ((u128)1 << p) - 1) >> p << p; if (e <= (((u128)1 << bits) - 1)) VP_EQ((uint64_t)round_up_to_power_of_two((T)v, (unsigned_type)p), (uint64_t)e, "round-up", "round_up_to_power_of_two(" << v << ", " << p << ")");
        uint64_t d = edge(r, bits); if (d == 0) d = 3; uint64_t n = r.chance(1, 2) ? v : (v / d) * d; VP_EQ((uint64_t)div_ceil((T)n, (T)d), n / d + (n % d != 0), "div-ceil", "div_ceil(" << n << ", " << d << ")"); VP_EQ((uint64_t)div_ceil((T)n, (uint64_t)d), n / d + (n % d != 0), "div-ceil", "div_ceil(" << n << ", " << d << ")");
        VP_EQ((uint64_t)STXXL_MIN<T>((T)v, (T)d), std::min(v, d), "min-max", "STXXL_MIN"); VP_EQ((uint64_t)STXXL_MAX<T>((T)v, (T)d), std::max(v, d), "min-max", "STXXL_MAX"); vp::count("integer_checks", 8);
    }
}
VP_SCENARIO(integers, 480, 12000) {
    vp::Rng& r = ctx.rng; ints<uint64_t>(r, 64); ints<int64_t>(r, 63); ints<uint32_t>(r, 32); ints<int>(r, 31); VP_EQ(ilog2_ceil(0u), 0u, "ilog2", "ilog2_ceil(0)"); VP_EQ(ilog2_floor(0u), 0u, "ilog2", "ilog2_floor(0)");
    log2_is<0>(0, 0); log2_is<1>(0, 0); log2_is<2>(1, 1); log2_is<3>(1, 2); log2_is<4>(2, 2); log2_is<5>(2, 3); log2_is<7>(2, 3); log2_is<8>(3, 3); log2_is<9>(3, 4); log2_is<1023>(9, 10); log2_is<1024>(10, 10); log2_is<1025>(10, 11); log2_is<0x80000000ul>(31, 31); log2_is<0x80000001ul>(31, 32); log2_is<0x7FFFFFFFFFFFFFFFul>(62, 63); log2_is<0x8000000000000000ul>(63, 63);
    for (int q = 0; q < 100; ++q) { // strings
        std::string sep = r.chance(1, 2) ? "," : r.chance(1, 2) ? "::" : "ab"; std::vector<std::string> parts; size_t n = r(6); std::string s; for (size_t i = 0; i < n; ++i) { std::string t; for (size_t l = r(4); l > 0; --l) t += (char)('x' + r(3)); parts.push_back(t); if (i) s += sep; s += t; }
        unsigned mn = r.chance(1, 2) ? 0 : (unsigned)r(8), lim = r.chance(1, 2) ? ~0u : (unsigned)r.range(1, 8); std::vector<std::string> e; if (!s.empty()) { e = parts; if (e.size() > lim) { std::string rest = e[lim - 1]; for (size_t i = lim; i < e.size(); ++i) rest += sep + e[i]; e.resize(lim); e[lim - 1] = rest; } } if (e.size() < mn) e.resize(mn);
        std::vector<std::string> g = split(s, sep, mn, lim); VP_CHECK(g == e, "split", "split('" << s << "', '" << sep << "', " << mn << ", " << lim << ") gives " << g.size() << " fields, expected " << e.size());
        uint64_t v = edge(r, 64); VP_EQ(atouint64(std::to_string((ull)v).c_str()), (uint64)v, "parse-number", "atouint64"); VP_EQ(atoi64(std::to_string((long long)v).c_str()), (int64)v, "parse-number", "atoi64"); VP_EQ(to_str(v), std::to_string((ull)v), "to-str", "to_str"); vp::count("split_checks"); ctx.note(v); ctx.note(s.size());
    }
    std::set<size_t> hs; uint64_t base = r.next(); for (uint64_t i = 0; i < 2000; ++i) hs.insert(longhash1(base + i * (r.chance(1, 2) ? 1 : 1ull << 32) * 0 + (i & 1 ? i : i << 33))); VP_CHECK(hs.size() >= 2000, "longhash", "longhash1 is a bijection, but " << 2000 - hs.size() << " collisions occur");
    { std::vector<int> a(20), b(20); for (int i = 0; i < 20; ++i) { a[i] = i; b[i] = 100 + i; } size_t n = r(21); swap_1D_arrays(&a[0], &b[0], n); for (int i = 0; i < 20; ++i) VP_CHECK(a[i] == ((size_t)i < n ? 100 + i : i) && b[i] == ((size_t)i < n ? i : 100 + i), "swap-arrays", "swap_1D_arrays"); }
    { std::deque<int> d; for (int i = 0; i < 5; ++i) d.push_back(i); VP_EQ(stxxl::pop_front(d), 0, "pop", "pop_front"); VP_EQ(stxxl::pop_back(d), 4, "pop", "pop_back"); VP_EQ(d.size(), (size_t)3, "pop", "size"); }
    { std::vector<unsigned> h(r(40)); for (size_t i = 0; i < h.size(); ++i) h[i] = (unsigned)r(30); std::less<unsigned> lt; VP_EQ(stxxl::is_sorted(h.begin(), h.end()), std::is_sorted(h.begin(), h.end()), "is-sorted", "is_sorted"); std::make_heap(h.begin(), h.end()); if (h.size() && r.chance(1, 2)) h[r(h.size())] = (unsigned)r(30); VP_EQ(stxxl::is_heap(h.begin(), h.end(), lt), std::is_heap(h.begin(), h.end(), lt), "is-heap", "is_heap"); std::sort(h.begin(), h.end()); VP_CHECK(stxxl::is_sorted(h.begin(), h.end(), lt), "is-sorted", "is_sorted of sorted values"); if (h.size() > 1) { std::swap(h[0], h[h.size() - 1]); VP_EQ(stxxl::is_sorted(h.begin(), h.end(), lt), std::is_sorted(h.begin(), h.end(), lt), "is-sorted", "is_sorted"); } }
    vp::nontrivial(ctx.h);
}
// ---- aligned memory
template <size_t A> static void al(vp::Rng& r) {
    std::vector<std::pair<unsigned char*, size_t> > held; std::vector<size_t> meta;
    for (int q = 0; q < 24; ++q) {
        if (held.size() > 6 || (!held.empty() && r.chance(1, 3))) { size_t i = r(held.size()); for (size_t k = 0; k < held[i].second; ++k) VP_CHECK(held[i].first[k] == (unsigned char)(k * 3 + held[i].second), "aligned-content", "byte " << k << " of an aligned allocation changed"); aligned_dealloc<A>(held[i].first); held.erase(held.begin() + i); vp::count("aligned_frees"); continue; }
        size_t m = r.chance(1, 2) ? 0 : 8 * r(4), s = r.boundary(A, 3) + m; if (s == 0) s = 1; unsigned char* p = (unsigned char*)stxxl::aligned_alloc<A>(s, m); VP_CHECK(p && ((uintptr_t)p + m) % A == 0, "aligned-address", "alignment " << A << " of an allocation of " << s << " bytes with " << m << " bytes in front"); for (size_t k = 0; k < s; ++k) p[k] = (unsigned char)(k * 3 + s); held.push_back(std::make_pair(p, s)); vp::count("aligned_allocations");
    }
    while (!held.empty()) { for (size_t k = 0; k < held.back().second; ++k) VP_CHECK(held.back().first[k] == (unsigned char)(k * 3 + held.back().second), "aligned-content", "byte " << k << " of an aligned allocation changed"); aligned_dealloc<A>(held.back().first); held.pop_back(); } aligned_dealloc<A>(NULL);
}
struct An { int v; bool operator == (const An& o) const { return v == o.v; } void* operator new (size_t n) { return stxxl::aligned_alloc<64>(n); } void operator delete (void* p) { aligned_dealloc<64>(p); } void* operator new (size_t, void* p) { return p; } };
VP_SCENARIO(aligned, 320, 6400) { vp::Rng& r = ctx.rng; al<8>(r); al<16>(r); al<64>(r); al<512>(r); al<4096>(r); al<8192>(r); ctx.note(r.next()); vp::nontrivial(ctx.h);
    std::vector<An, new_alloc<An> > v; std::vector<An> e; std::list<An, new_alloc<An> > l; for (size_t n = r(300); n > 0; --n) { An x; x.v = (int)r.next(); v.push_back(x); e.push_back(x); l.push_back(x); } VP_CHECK(v.size() == e.size() && std::equal(e.begin(), e.end(), v.begin()) && std::equal(e.begin(), e.end(), l.begin()), "new-alloc", "content of containers with new_alloc"); VP_CHECK(((uintptr_t)(v.empty() ? NULL : &v[0])) % 64 == 0, "new-alloc", "the operator new of the class was not used"); }
// ---- vectors and queues
struct Sw { int v; std::string* s; static int live; Sw() : v(0), s(new std::string("x")) { ++live; } ~Sw() { --live; delete s; } void set(int x) { v = x; *s = std::to_string(x); } bool ok() const { return *s == (v ? std::to_string(v) : *s); } private: Sw(const Sw&); Sw& operator = (const Sw&); public: void swap(Sw& o) { std::swap(v, o.v); std::swap(s, o.s); } };
int Sw::live = 0;
inline void swap(Sw& a, Sw& b) { a.swap(b); }
struct Pred { int m; bool operator () (const Sw& s) const { return s.v % m == 0; } };
VP_SCENARIO(swap_vectors, 2000, 48000) {
    vp::Rng& r = ctx.rng; int serial = 0; Sw::live = 0;
    { swap_vector<Sw>* v[2]; std::vector<int> m[2]; for (int i = 0; i < 2; ++i) { size_t n = r(3), c = r(6); v[i] = r.chance(1, 3) ? new swap_vector<Sw>() : r.chance(1, 2) ? new swap_vector<Sw>(n) : new swap_vector<Sw>(n, c); m[i].assign(v[i]->size(), 0); }
      for (size_t q = r(80); q > 0; --q) {
          int k = (int)r(2), op = (int)r(10); swap_vector<Sw>& a = *v[k]; std::vector<int>& e = m[k]; ctx.note(op);
          if (op < 4) { Sw x; x.set(++serial); a.swap_back(x); e.push_back(serial); }
          else if (op == 4 && !e.empty()) { size_t i = r.chance(1, 3) ? e.size() - 1 : r.chance(1, 2) && e.size() > 1 ? e.size() - 2 : r(e.size()); swap_vector<Sw>::iterator it = a.erase(a.begin() + i); VP_EQ((size_t)(it - a.begin()), i, "swap-vector-erase", "iterator returned by erase()"); e.erase(e.begin() + i); vp::count("swap_vector_erases"); }
          else if (op == 5 && !e.empty()) { size_t i = r(e.size() + 1), j = r.range(i, e.size()); a.erase(a.begin() + i, a.begin() + j); e.erase(e.begin() + i, e.begin() + j); vp::count("swap_vector_erases"); }
          else if (op == 6) { Pred p = { (int)r.range(2, 4) }; bool def = false; for (size_t i = 0; i < e.size(); ++i) if (e[i] == 0) def = true; if (def) continue; swap_vector<Sw>::iterator it = swap_remove_if(a.begin(), a.end(), p); size_t kept = (size_t)(it - a.begin()); std::vector<int> rest; for (size_t i = 0; i < e.size(); ++i) if (e[i] % p.m) rest.push_back(e[i]); VP_EQ(kept, rest.size(), "swap-remove-if", "elements kept"); a.erase(it, a.end()); e = rest; vp::count("swap_vector_removes"); }
          else if (op == 7) { size_t n = e.size() + r(3); if (r.chance(1, 3)) a.reserve(n + r(5)); else { size_t o = a.size(); a.resize(n); for (size_t i = o; i < n; ++i) a[i].set(++serial), e.push_back(serial); } }
          else if (op == 8) { if (r.chance(1, 2)) v[0]->swap(*v[1]); else std::swap(*v[0], *v[1]); m[0].swap(m[1]); }
          else if (op == 9 && r.chance(1, 6)) { a.clear(); e.clear(); }
          for (int i = 0; i < 2; ++i) { const swap_vector<Sw>& c = *v[i]; VP_EQ(c.size(), m[i].size(), "swap-vector-size", "size after operation " << op); VP_EQ(c.empty(), m[i].empty(), "swap-vector-size", "empty()"); VP_CHECK(c.capacity() >= c.size(), "swap-vector-size", "capacity"); for (size_t j = 0; j < m[i].size(); ++j) { VP_CHECK(c[j].ok(), "swap-vector-content", "element " << j << " is damaged"); if (m[i][j]) VP_EQ(c[j].v, m[i][j], "swap-vector-content", "element " << j << " of " << m[i].size() << " after operation " << op); } if (!m[i].empty()) { VP_CHECK(&c.front() == &c[0] && &c.back() == &c[c.size() - 1] && c.end() - c.begin() == (long)c.size() && c.data() == c.begin() && c.cend() == c.end(), "swap-vector-content", "accessors"); } }
          vp::count("swap_vector_ops"); }
      delete v[0]; delete v[1]; }
    VP_EQ(Sw::live, 0, "swap-vector-leak", "elements alive at the end");
    { simple_vector<int> a(r(20)), b; std::vector<int> m; VP_EQ(b.size(), (size_t)0, "simple-vector", "size of an empty one"); for (size_t i = 0; i < a.size(); ++i) { a[i] = (int)(i * 7); m.push_back((int)(i * 7)); } size_t n = r(30); const simple_vector<int>& c = a; if (n) { a.resize(n); VP_EQ(a.size(), n, "simple-vector", "size after resize()"); for (size_t i = 0; i < std::min(n, m.size()); ++i) VP_EQ(c[i], m[i], "simple-vector", "element " << i << " after resize()"); m.resize(std::min(n, m.size())); for (size_t i = m.size(); i < n; ++i) { a[i] = (int)i; m.push_back((int)i); } } if (r.chance(1, 2)) { b.swap(a); VP_CHECK(a.size() == 0 && b.size() == m.size() && std::equal(m.begin(), m.end(), b.begin()), "simple-vector", "swap()"); std::swap(a, b); } VP_CHECK(c.size() == m.size() && std::equal(m.begin(), m.end(), c.begin()) && c.end() - c.begin() == (long)m.size() && c.cbegin() == c.data() && c.cend() == c.end(), "simple-vector", "content"); if (m.size()) { a.memzero(); for (size_t i = 0; i < m.size(); ++i) VP_EQ(c[i], 0, "simple-vector", "element after memzero()"); } vp::count("simple_vectors"); }
    vp::nontrivial(ctx.h);
}
VP_SCENARIO(addressable, 1600, 40000) {
    vp::Rng& r = ctx.rng; addressable_fifo_queue<int> f; std::list<int> fm; addressable_priority_queue<int, int> p; std::map<int, int> pm; addressable_priority_queue<int, int, std::greater<int> > g; std::map<int, int> gm; std::map<int, addressable_priority_queue<int, int>::handle> ph; std::map<int, addressable_fifo_queue<int>::handle> fh;
    for (size_t q = r(150); q > 0; --q) {
        int e = (int)r(14), pr = (int)r(6) - 3, op = (int)r(9); ctx.note(op * 20 + e); bool in = std::find(fm.begin(), fm.end(), e) != fm.end();
        switch (op) {
        case 0: case 1: { std::pair<addressable_fifo_queue<int>::handle, bool> x = f.insert(e); VP_EQ(x.second, !in, "fifo", "insert() of " << e); fm.remove(e); fm.push_back(e); fh[e] = x.first; break; }
        case 2: { if (in && r.chance(1, 2)) { f.erase(fh[e]); } else VP_EQ(f.erase(e), in, "fifo", "erase() of " << e); fm.remove(e); break; }
        case 3: if (!fm.empty()) { VP_EQ(f.pop(), fm.front(), "fifo", "pop()"); fm.pop_front(); } break;
        case 4: case 5: { std::pair<addressable_priority_queue<int, int>::handle, bool> x = p.insert(e, pr); VP_EQ(x.second, pm.count(e) == 0, "addressable-pq", "insert() of " << e); pm[e] = pr; ph[e] = x.first; g.insert(e, pr); gm[e] = pr; break; }
        case 6: { bool had = pm.count(e) > 0; if (had && r.chance(1, 2)) p.erase(ph[e]); else VP_EQ(p.erase(e), had, "addressable-pq", "erase() of " << e); pm.erase(e); VP_EQ(g.erase(e), gm.count(e) > 0, "addressable-pq", "erase() of " << e); gm.erase(e); break; }
        default: { if (!pm.empty()) { std::pair<int, int> b(1 << 30, 0); for (std::map<int, int>::iterator i = pm.begin(); i != pm.end(); ++i) b = std::min(b, std::make_pair(i->second, i->first)); VP_EQ(p.top(), b.second, "addressable-pq", "top()"); VP_EQ(p.pop(), b.second, "addressable-pq", "pop()"); pm.erase(b.second); }
            if (!gm.empty()) { std::pair<int, int> b(1 << 30, 0); for (std::map<int, int>::iterator i = gm.begin(); i != gm.end(); ++i) b = std::min(b, std::make_pair(-i->second, i->first)); VP_EQ(g.pop(), b.second, "addressable-pq", "pop() with reversed order"); gm.erase(b.second); } }
        }
        VP_EQ(f.empty(), fm.empty(), "fifo", "empty()"); VP_EQ(p.empty(), pm.empty(), "addressable-pq", "empty()"); if (!fm.empty()) VP_EQ(f.top(), fm.front(), "fifo", "top()"); vp::count("addressable_ops");
    }
    vp::nontrivial(ctx.h);
}
// ---- tuples, random numbers, timers
template <class A, class B> struct same { enum { v = 0 }; }; template <class A> struct same<A, A> { enum { v = 1 }; };
VP_SCENARIO(tuples, 480, 8000) {
    vp::Rng& r = ctx.rng; int a = (int)r(3), b = (int)r(3); unsigned c = (unsigned)r(3); long d = (long)r(3); short e = (short)r(3); unsigned char f = (unsigned char)(65 + r(3));
    typedef stxxl::tuple<int> T1; typedef stxxl::tuple<int, unsigned> T2; typedef stxxl::tuple<int, unsigned, long> T3; typedef stxxl::tuple<int, unsigned, long, short> T4; typedef stxxl::tuple<int, unsigned, long, short, unsigned char> T5; typedef stxxl::tuple<int, unsigned, long, short, unsigned char, float> T6;
    T1 t1(a); T2 t2(a, c); T3 t3(a, c, d); T4 t4(a, c, d, e); T5 t5(a, c, d, e, f); T6 t6(a, c, d, e, f, 1.5f);
    VP_CHECK(t1.first == a && t2.first == a && t2.second == c && t3.first == a && t3.second == c && t3.third == d && t4.first == a && t4.second == c && t4.third == d && t4.fourth == e && t5.first == a && t5.second == c && t5.third == d && t5.fourth == e && t5.fifth == f && t6.first == a && t6.second == c && t6.third == d && t6.fourth == e && t6.fifth == f && t6.sixth == 1.5f, "tuple-content", "elements of a tuple");
    VP_CHECK((same<T2::item_type<1>::result, int>::v && same<T2::item_type<2>::result, unsigned>::v && same<T3::item_type<1>::result, int>::v && same<T3::item_type<2>::result, unsigned>::v && same<T3::item_type<3>::result, long>::v && same<T4::item_type<3>::result, long>::v && same<T4::item_type<4>::result, short>::v && same<T5::item_type<5>::result, unsigned char>::v && same<T5::item_type<2>::result, unsigned>::v && same<T6::item_type<6>::result, float>::v && same<T6::item_type<4>::result, short>::v && same<T6::item_type<3>::result, long>::v), "tuple-types", "item types of a tuple");
    { T1 x(b); VP_CHECK((x == t1) == (a == b) && (x != t1) == (a != b), "tuple-compare", "tuple of 1"); } { int k = (int)r(3); T2 x(k == 0 ? a + 1 : a, k == 1 ? c + 1 : c); VP_CHECK((x == t2) == (k == 2) && (x != t2) == (k != 2), "tuple-compare", "tuple of 2"); } { int k = (int)r(4); T3 x(k == 0 ? a + 1 : a, k == 1 ? c + 1 : c, k == 2 ? d + 1 : d); VP_CHECK((x == t3) == (k == 3) && (x != t3) == (k != 3), "tuple-compare", "tuple of 3"); }
    { int k = (int)r(5); T4 x(k == 0 ? a + 1 : a, k == 1 ? c + 1 : c, k == 2 ? d + 1 : d, (short)(k == 3 ? e + 1 : e)); VP_CHECK((x == t4) == (k == 4) && (x != t4) == (k != 4), "tuple-compare", "tuple of 4"); } { int k = (int)r(6); T5 x(k == 0 ? a + 1 : a, k == 1 ? c + 1 : c, k == 2 ? d + 1 : d, (short)(k == 3 ? e + 1 : e), (unsigned char)(k == 4 ? f + 1 : f)); VP_CHECK((x == t5) == (k == 5) && (x != t5) == (k != 5), "tuple-compare", "tuple of 5"); } { int k = (int)r(7); T6 x(k == 0 ? a + 1 : a, k == 1 ? c + 1 : c, k == 2 ? d + 1 : d, (short)(k == 3 ? e + 1 : e), (unsigned char)(k == 4 ? f + 1 : f), k == 5 ? 2.f : 1.5f); VP_CHECK((x == t6) == (k == 6) && (x != t6) == (k != 6), "tuple-compare", "tuple of 6"); }
    std::ostringstream o1, o2; o1 << t1 << t2 << t3 << t4 << t5; o2 << '(' << a << ")(" << a << ',' << c << ")(" << a << ',' << c << ',' << d << ")(" << a << ',' << c << ',' << d << ',' << e << ")(" << a << ',' << c << ',' << d << ',' << e << ',' << f << ')'; VP_EQ(o1.str(), o2.str(), "tuple-output", "output of tuples");
    VP_CHECK(T3::min_value() == T3(std::numeric_limits<int>::min(), 0, std::numeric_limits<long>::min()) && T3::max_value() == T3(std::numeric_limits<int>::max(), ~0u, std::numeric_limits<long>::max()) && T5::max_value() == T5(std::numeric_limits<int>::max(), ~0u, std::numeric_limits<long>::max(), 32767, 255) && T4::min_value() == T4(std::numeric_limits<int>::min(), 0, std::numeric_limits<long>::min(), -32768) && T2::max_value() == T2(std::numeric_limits<int>::max(), ~0u) && T1::min_value() == T1(std::numeric_limits<int>::min()) && T2::min_value() == T2(std::numeric_limits<int>::min(), 0) && T4::max_value() == T4(std::numeric_limits<int>::max(), ~0u, std::numeric_limits<long>::max(), 32767) && T5::min_value() == T5(std::numeric_limits<int>::min(), 0, std::numeric_limits<long>::min(), -32768, 0) && T1::max_value() == T1(std::numeric_limits<int>::max()), "tuple-limits", "min_value() or max_value()");
    VP_CHECK((same<IF<true, int, long>::result, int>::v && same<IF<false, int, long>::result, long>::v && IF_N<true, 3, 4>::result == 3 && IF_N<false, 3, 4>::result == 4), "meta", "IF"); vp::count("tuples"); ctx.note(a * 3 + b + r.next()); vp::nontrivial(ctx.h);
}
VP_SCENARIO(random_numbers, 240, 4800) {
    vp::Rng& r = ctx.rng; unsigned s = (unsigned)r.next(); set_seed(s); unsigned s1 = get_next_seed(), s2 = get_next_seed(); VP_CHECK(s1 == s && s2 != s1, "seed", "seeds after set_seed()"); set_seed(s); VP_EQ(get_next_seed(), s1, "seed", "seed after set_seed() again"); VP_EQ(get_next_seed(), s2, "seed", "second seed after set_seed() again");
    srandom_number32(s); random_number32 a; random_number32_r b(s); random_number8_r c(s); std::vector<unsigned> seq; std::set<unsigned> dist; for (int i = 0; i < 2000; ++i) { unsigned v = a(); VP_EQ(b(), v, "random-repeat", "the reentrant generator differs at number " << i); seq.push_back(v); dist.insert(v); for (int k = 0; k < 4; ++k) { unsigned x = c(); VP_EQ(x, (unsigned)((unsigned char*)&v)[k], "random-bytes", "byte " << k << " of number " << i); } } VP_EQ(dist.size(), (size_t)2000, "random-period", "different numbers among 2000 of a generator of full period");
    srandom_number32(s); for (int i = 0; i < 100; ++i) VP_EQ(a(), seq[i], "random-repeat", "number " << i << " for the same seed"); b.set_seed(s); VP_EQ(b(), seq[0], "random-repeat", "number for the same seed");
    random_uniform_fast u; random_uniform_slow w(s), w2(s); random_number<> n; random_number<random_uniform_slow> ns(s); random_number64 n64(s), m64(s); double mean = 0, mean2 = 0; unsigned N = (unsigned)r.range(1, 20); std::vector<unsigned> hist(N, 0), hist2(N, 0); double top = 0;
    for (int i = 0; i < 4000; ++i) { double x = u(), y = w(); VP_CHECK(x >= 0 && x < 1 && y >= 0 && y < 1, "random-range", "uniform numbers " << x << " " << y); VP_CHECK(w2() == y, "random-repeat", "the slow generator is not reproducible"); mean += x; mean2 += y; unsigned k = n(N), k2 = ns(N); VP_CHECK(k < N && k2 < N && a(N) < N, "random-range", "random numbers " << k << "," << k2 << " below " << N); hist[k]++; hist2[k2]++; uint64_t lim = 1 + r((1ull << 50)); uint64_t z = n64(lim); VP_CHECK(z < lim, "random-range", "64 bit random number " << z << " below " << lim); VP_CHECK(m64(lim) == z, "random-repeat", "64 bit numbers"); top = std::max(top, (double)n64()); m64(); unsigned big = ~0u - (unsigned)r(5); VP_CHECK(n(big) < big, "random-range", "random number below " << big); }
    VP_CHECK(mean / 4000 > 0.4 && mean / 4000 < 0.6 && mean2 / 4000 > 0.4 && mean2 / 4000 < 0.6 && top > 1.2e19, "random-uniform", "means " << mean / 4000 << " " << mean2 / 4000 << ", largest 64 bit number " << top); for (unsigned i = 0; i < N; ++i) VP_CHECK(hist[i] > 4000 / N / 3 && hist2[i] > 4000 / N / 3, "random-uniform", "number " << i << " below " << N << " occurs " << hist[i] << " and " << hist2[i] << " times among 4000"); vp::count("random_numbers", 4000); ctx.note(s); vp::nontrivial(ctx.h);
}
static double clk() { struct timeval t; gettimeofday(&t, NULL); return (double)t.tv_sec + (double)t.tv_usec / 1e6; }
VP_SCENARIO(timers, 8, 100) {
    vp::Rng& r = ctx.rng; timer t(r.chance(1, 2)), u; double lo = 0, hi = 0; double a0 = clk(), a1; if (!t.seconds()) { }
    { timer x; VP_EQ(x.seconds(), 0.0, "timer", "a new timer"); usleep(100); VP_EQ(x.seconds(), 0.0, "timer", "a timer not started"); } t.reset(); a0 = clk(); t = timer();
    for (size_t q = r.range(1, 5); q > 0; --q) { double b0 = clk(); t.start(); double b1 = clk(); usleep((unsigned)r(3000)); if (r.chance(1, 2)) { double c0 = clk(); double s = t.seconds(), c1 = clk(); VP_CHECK(s >= lo + c0 - b1 - 1e-5 && s <= hi + c1 - b0 + 1e-5, "timer", "running timer shows " << s << ", expected " << lo + c0 - b1 << " to " << hi + c1 - b0); } double d0 = clk(); t.stop(); double d1 = clk(); lo += d0 - b1; hi += d1 - b0; usleep((unsigned)r(500)); VP_CHECK(t.seconds() >= lo - 1e-5 && t.seconds() <= hi + 1e-5, "timer", "stopped timer shows " << t.seconds() << ", expected " << lo << " to " << hi); }
    VP_CHECK(fabs(t.mseconds() - t.seconds() * 1e3) < 1e-6 && fabs(t.useconds() - t.seconds() * 1e6) < 1e-3, "timer", "units"); u += t; u += t; VP_CHECK(fabs(u.seconds() - 2 * t.seconds()) < 1e-9, "timer", "sum of timers"); t.reset(); VP_CHECK(t.seconds() == 0, "timer", "reset()"); a1 = clk(); (void)a1; (void)a0;
    custom_stats_counter<uint64> c; uint64_t m = 0; for (size_t q = r(50); q > 0; --q) { uint64_t x = r(1000); switch (r(5)) { case 0: c += x; m += x; break; case 1: ++c; ++m; break; case 2: VP_EQ((uint64_t)(uint64)(c++), m, "stats-counter", "postfix ++"); ++m; break; case 3: c.set_max(x * 5); m = std::max(m, x * 5); break; default: if (r.chance(1, 5)) { c = x; m = x; } } VP_EQ((uint64_t)(uint64)c, m, "stats-counter", "value"); } VP_EQ(c.as_memory_amount(8), format_IEC_size(m * 8) + "B", "stats-counter", "as_memory_amount()"); vp::count("timers"); ctx.note(r.next()); vp::nontrivial(ctx.h);
}
