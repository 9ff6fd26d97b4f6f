// Records with keys, identities and payload, comparisons and key distributions for the sorting checks.
#pragma once
#include "vp.h"
#include <limits>
#include <vector>
template <class K, unsigned PAD>
struct Rec {
    typedef K key_type; K k; uint32_t id; unsigned char pad[PAD];
    Rec() { } Rec(K k_, uint32_t i) : k(k_), id(i) { memset(pad, (int)(i * 7 + 3), PAD); }
    static K key_of(const Rec& r) { return r.k; } uint64_t ident() const { return id; } K key() const { return k; }
    bool intact() const { for (unsigned i = 0; i < PAD; ++i) if (pad[i] != (unsigned char)(id * 7 + 3)) return false; return true; }
    static Rec min_value() { return Rec(std::numeric_limits<K>::min(), 0); } static Rec max_value() { return Rec(std::numeric_limits<K>::max(), 0); }
    bool operator == (const Rec& o) const { return k == o.k && id == o.id; }
};
struct U64 { // the element is its own key
    typedef uint64_t key_type; uint64_t k; U64() { } U64(uint64_t k_, uint32_t) : k(k_) { } uint64_t ident() const { return k; } uint64_t key() const { return k; } bool intact() const { return true; }
    static U64 min_value() { return U64(0, 0); } static U64 max_value() { return U64(~0ull, 0); } bool operator == (const U64& o) const { return k == o.k; }
};
template <class T> struct Less { bool operator () (const T& a, const T& b) const { return a.key() < b.key(); } T min_value() const { return T::min_value(); } T max_value() const { return T::max_value(); } };
template <class T> struct Greater { bool operator () (const T& a, const T& b) const { return a.key() > b.key(); } T min_value() const { return T::max_value(); } T max_value() const { return T::min_value(); } };
// a comparison with state, which every copy has to carry along
template <class T> struct Rot { typedef typename T::key_type K; K off; explicit Rot(K o) : off(o) { } bool operator () (const T& a, const T& b) const { return (K)(a.key() - off) < (K)(b.key() - off); }
    T min_value() const { return T(off, 0); } T max_value() const { return T((K)(off - 1), 0); } };
template <class T> struct KeyX { typedef typename T::key_type key_type; key_type x; explicit KeyX(key_type x_ = 0) : x(x_) { } key_type operator () (const T& t) const { return t.key() ^ x; } T min_value() const { return T((key_type)(0 ^ x), 0); } T max_value() const { return T((key_type)(std::numeric_limits<key_type>::max() ^ x), 0); } };

enum Dist { UNIFORM, EQUAL, FEW, SORTED, REVERSE, SAW, CLUSTER, HIGHBITS, ONEOFF, NEARLY, DIST_COUNT };
template <class K> static K dist_key(vp::Rng& r, unsigned d, size_t i, size_t n, uint64_t p) {
    const K mx = std::numeric_limits<K>::max(); K k;
    switch (d) {
    case EQUAL: k = (K)p; break;
    case FEW: k = (K)(vp::mix(r(4) + p)); break;
    case SORTED: k = (K)(mx / (n + 1) * (i + 1)); break;
    case REVERSE: k = (K)(mx / (n + 1) * (n - i)); break;
    case SAW: k = (K)(1 + i % (1 + p % 300)); break;
    case CLUSTER: k = (K)(mx / 2 + r(50)); break;
    case HIGHBITS: k = (K)((K)r.next() & ((K)15 << (sizeof(K) * 8 - 4))); break;
    case ONEOFF: k = (K)(i == n / 2 ? 1 : mx - 1); break;
    case NEARLY: k = (K)(r.chance(1, 50) ? r.next() : mx / (n + 1) * (i + 1)); break;
    default: k = (K)r.next();
    }
    return k == 0 ? (K)1 : k == mx ? (K)(mx - 1) : k; // the sentinels are not part of the input (a precondition)
}
template <class K, unsigned PAD> std::ostream& operator << (std::ostream& o, const Rec<K, PAD>& r) { return o << (uint64_t)r.k << '#' << r.id; }
inline std::ostream& operator << (std::ostream& o, const U64& r) { return o << r.k; }
