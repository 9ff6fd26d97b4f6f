// C22: random pipelines of stream operators, every stage checked against its defining sequence.
#include "vp.h"
#include "vp_monitor.h"
#include <stxxl/vector>
#include <stxxl/stream>
#include <stxxl/sequence>
#include <stxxl/bits/stream/choose.h>
#include <stxxl/bits/stream/unique.h>
#include <stxxl/bits/common/tuple.h>
#include <deque>
#include <list>
#include <iterator>
#include <memory>
#include <sstream>
#include "records.h"
using namespace stxxl;
typedef uint64_t u64; typedef std::shared_ptr<std::vector<u64> > Seq;

// a stage of a pipeline, with the sequence it has to deliver; every use is checked
struct Stage { virtual const u64& get() const = 0; virtual const u64* arrow() const = 0; virtual void next() = 0; virtual bool empty() const = 0; virtual void finish(size_t) { } virtual ~Stage() { } };
struct Any { typedef u64 value_type; std::shared_ptr<Stage> n; Seq want; size_t pos; std::string name; vp::Rng* rng;
    Any() : pos(0), rng(NULL) { }
    bool empty() const { bool e = n->empty(); VP_CHECK(e == (pos == want->size()), e ? "stream-ends-early" : "stream-does-not-end", name << " empty() is " << e << " after " << pos << " of " << want->size() << " elements"); return e; }
    const u64& operator * () const { VP_CHECK(pos < want->size(), "stream-read-past-end", name << " dereferenced at the end by its consumer"); const u64& x = n->get(); VP_CHECK(x == (*want)[pos], "stream-content", name << " element " << pos << " of " << want->size() << " is " << x << ", expected " << (*want)[pos]); return x; }
    const u64* operator -> () const { VP_CHECK(pos < want->size(), "stream-read-past-end", name << " -> at the end"); const u64* p = n->arrow(); VP_CHECK(*p == (*want)[pos], "stream-content", name << " -> element " << pos); return p; }
    Any& operator ++ () { VP_CHECK(pos < want->size(), "stream-advanced-past-end", name << " advanced at the end by its consumer"); if (rng && rng->chance(1, 8)) { **this; empty(); operator -> (); } n->next(); ++pos; vp::count("stream_steps"); return *this; } };
template <int I> struct A : public Any { A(const Any& a) : Any(a) { } A& operator ++ () { Any::operator ++ (); return *this; } }; // distinct types for the inputs
template <class S> struct Over : public Stage { S* s; Over() : s(NULL) { } ~Over() { delete s; } const u64& get() const { return **s; } const u64* arrow() const { return s->operator -> (); } void next() { ++*s; } bool empty() const { return s->empty(); } };

static const unsigned BS = 4096; static const size_t N = BS / 8;
typedef stxxl::vector<u64, 1, lru_pager<2>, BS> V1; typedef stxxl::vector<u64, 2, lru_pager<3>, BS> V2; typedef stxxl::vector<u64, 4, random_pager<2>, BS, striping> V4;

static u64 f1(u64 k, u64 a) { return vp::mix(a + k); } static u64 f2(u64 h, u64 a) { return vp::hash_combine(h, a); }
// functor with state: depends on the number of calls and everything seen
struct Op { typedef u64 value_type; u64 h; size_t calls; Op() : h(1), calls(0) { }
    u64 done(u64 x) { ++calls; h = vp::hash_combine(h, x); return h >> 40 | (calls & 7); }
    u64 operator () (u64 a) { return done(f2(1, a)); } u64 operator () (u64 a, u64 b) { return done(f2(f2(2, a), b)); } u64 operator () (u64 a, u64 b, u64 c) { return done(f2(f2(f2(3, a), b), c)); } u64 operator () (u64 a, u64 b, u64 c, u64 d) { return done(f2(f2(f2(f2(4, a), b), c), d)); } u64 operator () (u64 a, u64 b, u64 c, u64 d, u64 e) { return done(f2(f2(f2(f2(f2(5, a), b), c), d), e)); } u64 operator () (u64 a, u64 b, u64 c, u64 d, u64 e, u64 f) { return done(f2(f2(f2(f2(f2(f2(6, a), b), c), d), e), f)); }
};
struct Mod { u64 m; explicit Mod(u64 m_) : m(m_) { } bool operator () (u64 a, u64 b) const { return a % m == b % m; } };
struct Gen { typedef u64 value_type; u64* made; u64 seed; u64 own; u64 operator () () { ++*made; return f1(seed, own++); } };

template <class V> struct VecHold { V v; std::vector<u64> m; };
template <class V, class S> struct VecSource : public Over<S> { std::shared_ptr<VecHold<V> > h; };
template <class C, class S> struct MemSource : public Over<S> { C c; };
struct GenSource : public Over<stream::generator2stream<Gen> > { size_t left; u64 made; bool empty() const { return left == 0; } void next() { Over<stream::generator2stream<Gen> >::next(); --left; } void finish(size_t) { } };

struct Builder {
    vp::Ctx& ctx; vp::Rng& r; unsigned serial; std::vector<std::shared_ptr<Stage> > stages; Builder(vp::Ctx& c) : ctx(c), r(c.rng), serial(0) { }
    Any wrap(std::shared_ptr<Stage> s, Seq w, const std::string& name) { Any a; a.n = s; a.want = w; a.name = name + "#" + std::to_string(++serial); a.rng = &r; ctx.note(w->size() * 31 + name[0]); vp::cov("operator", name); return a; }
    Seq values(size_t n, unsigned kind) { Seq s(new std::vector<u64>(n)); u64 x = r.next(); for (size_t i = 0; i < n; ++i) switch (kind) { case 0: (*s)[i] = f1(x, i); break; case 1: (*s)[i] = r(3); break; case 2: (*s)[i] = (i && r.chance(3, 4)) ? (*s)[i - 1] : r.next(); break; default: (*s)[i] = x; } return s; }
    template <class V> Any vec(size_t n, unsigned kind) {
        size_t lo = r.chance(1, 2) ? 0 : r.boundary(N, 3), rest = r.chance(1, 2) ? 0 : r.boundary(N, 3); std::shared_ptr<VecHold<V> > h(new VecHold<V>); Seq all = values(lo + n + rest, kind); h->v.resize(all->size());
        for (size_t i = 0; i < all->size(); ++i) h->v[i] = (*all)[i]; if (r.chance(1, 2)) h->v.flush(); // otherwise changed pages are still in memory
        Seq want(new std::vector<u64>(all->begin() + lo, all->begin() + lo + n)); unsigned_type nb = r.chance(1, 2) ? 0 : 1 + r(8); const V& cv = h->v;
        switch (r(4)) {
        case 0: { typedef typename stream::streamify_traits<typename V::iterator>::stream_type S; VecSource<V, S>* s = new VecSource<V, S>; std::shared_ptr<Stage> p(s); s->h = h; s->s = new S(stream::streamify(h->v.begin() + lo, h->v.begin() + lo + n, nb)); return wrap(p, want, "streamify"); }
        case 1: { typedef typename stream::streamify_traits<typename V::const_iterator>::stream_type S; VecSource<V, S>* s = new VecSource<V, S>; std::shared_ptr<Stage> p(s); s->h = h; S first(stream::streamify(cv.begin() + lo, cv.begin() + lo + n, nb)); size_t k = n ? r(std::min<size_t>(n, 600)) : 0; for (size_t i = 0; i < k; ++i) { VP_EQ(*first, (*want)[i], "stream-content", "streamify(const) element " << i); ++first; } s->s = new S(first); /* the copy takes over */ return wrap(p, Seq(new std::vector<u64>(want->begin() + k, want->end())), "streamify-const-moved"); }
        case 2: { typedef stream::vector_iterator2stream_sr<typename V::iterator> S; VecSource<V, S>* s = new VecSource<V, S>; std::shared_ptr<Stage> p(s); s->h = h; s->s = new S(stream::streamify_sr(h->v.begin() + lo, h->v.begin() + lo + n, nb)); return wrap(p, want, "streamify_sr"); }
        default: { typedef stream::iterator2stream<typename V::const_iterator> S; VecSource<V, S>* s = new VecSource<V, S>; std::shared_ptr<Stage> p(s); s->h = h; s->s = new S(cv.begin() + lo, cv.begin() + lo + n); return wrap(p, want, "iterator2stream-vector"); }
        }
    }
    template <class C> Any mem(Seq want) { typedef stream::iterator2stream<typename C::const_iterator> S; MemSource<C, S>* s = new MemSource<C, S>; std::shared_ptr<Stage> p(s); s->c.assign(want->begin(), want->end()); const C& c = s->c; S first(stream::streamify(c.begin(), c.end())); s->s = new S(first); return wrap(p, want, "iterator2stream"); }
    Any source(size_t n, unsigned kind) {
        switch (r(9)) {
        case 0: case 1: return vec<V1>(n, kind); case 2: case 3: return vec<V2>(n, kind); case 4: return vec<V4>(n, kind);
        case 5: return mem<std::vector<u64> >(values(n, kind)); case 6: return mem<std::list<u64> >(values(n, kind)); case 7: return mem<std::deque<u64> >(values(n, kind));
        default: { GenSource* s = new GenSource; std::shared_ptr<Stage> p(s); Gen g; g.seed = r.next(); g.own = 0; s->made = 0; g.made = &s->made; s->left = n; typedef stream::generator2stream<Gen> G; G first(stream::streamify(g)); VP_EQ(s->made, (u64)1, "stream-generator-calls", "generator calls"); s->s = new G(first); VP_EQ(s->made, (u64)1, "stream-generator-calls", "generator calls after copying"); Seq w(new std::vector<u64>(n)); for (size_t i = 0; i < n; ++i) (*w)[i] = f1(g.seed, i); return wrap(p, w, "generator2stream"); }
        }
    }
    template <class S> struct Op1 : public Over<S> { Op op; A<1> a; Op1(const Any& x) : a(x) { } void finish(size_t n) { VP_EQ(op.calls, n, "stream-operation-calls", "calls of the operation of transform"); } };
    template <class S> struct Op2 : public Op1<S> { A<2> b; Op2(const Any* x) : Op1<S>(x[0]), b(x[1]) { } };
    template <class S> struct Op3 : public Op2<S> { A<3> c; Op3(const Any* x) : Op2<S>(x), c(x[2]) { } };
    template <class S> struct Op4 : public Op3<S> { A<4> d; Op4(const Any* x) : Op3<S>(x), d(x[3]) { } };
    template <class S> struct Op5 : public Op4<S> { A<5> e; Op5(const Any* x) : Op4<S>(x), e(x[4]) { } };
    template <class S> struct Op6 : public Op5<S> { A<6> f; Op6(const Any* x) : Op5<S>(x), f(x[5]) { } };
    // tuples, of which one component goes on; all components are compared
    template <class T, unsigned K> struct TupCheck { T* t; Any* in[6]; };
    template <class T, class S, class Base> struct Tup : public Base { T* t; Tup(const Any* x) : Base(x), t(NULL) { } ~Tup() { delete this->s; this->s = NULL; delete t; } void finish(size_t) { } };
    Any node(unsigned depth, size_t n, unsigned kind) {
        if (depth == 0) return source(n, kind);
        unsigned op = (unsigned)r(16);
        if (op == 0) return source(n, kind);
        if (op <= 3) { // duplicates
            Any in = node(depth - 1, n, r.chance(2, 3) ? (r.chance(1, 2) ? 1 : 2) : kind); Seq w(new std::vector<u64>); bool pred = r.chance(1, 2); u64 m = r.range(1, 5);
            for (size_t i = 0; i < in.want->size(); ++i) if (w->empty() || (pred ? (*in.want)[i] % m != w->back() % m : (*in.want)[i] != w->back())) w->push_back((*in.want)[i]);
            if (pred) { typedef stream::unique<A<1>, Mod> S; Op1<S>* s = new Uniq<S>(in); std::shared_ptr<Stage> p(s); s->s = new S(s->a, Mod(m)); return wrap(p, w, "unique-predicate"); }
            typedef stream::unique<A<1> > S; Op1<S>* s = new Uniq<S>(in); std::shared_ptr<Stage> p(s); s->s = new S(s->a); return wrap(p, w, "unique");
        }
        unsigned k = op <= 9 ? (unsigned)r.range(1, 6) : (unsigned)r.range(2, 6); Any in[6]; size_t len = ~(size_t)0; bool same = r.chance(1, 2);
        for (unsigned i = 0; i < k; ++i) { size_t ni = same || r.chance(1, 2) ? n : r.boundary(N, 4); in[i] = node(k > 3 && i > 1 ? 0 : depth - 1, ni, kind); len = std::min(len, in[i].want->size()); }
        Seq w(new std::vector<u64>(len));
        if (op <= 9) {
            Op ref; for (size_t i = 0; i < len; ++i) switch (k) {
#define X(j) (*in[j].want)[i]
                case 1: (*w)[i] = ref(X(0)); break; case 2: (*w)[i] = ref(X(0), X(1)); break; case 3: (*w)[i] = ref(X(0), X(1), X(2)); break; case 4: (*w)[i] = ref(X(0), X(1), X(2), X(3)); break; case 5: (*w)[i] = ref(X(0), X(1), X(2), X(3), X(4)); break; default: (*w)[i] = ref(X(0), X(1), X(2), X(3), X(4), X(5)); }
#undef X
            switch (k) {
            case 1: { typedef stream::transform<Op, A<1> > S; Op1<S>* s = new Op1<S>(in[0]); std::shared_ptr<Stage> p(s); s->s = new S(s->op, s->a); stages.push_back(p); return wrap(p, w, "transform1"); }
            case 2: { typedef stream::transform<Op, A<1>, A<2> > S; Op2<S>* s = new Op2<S>(in); std::shared_ptr<Stage> p(s); s->s = new S(s->op, s->a, s->b); stages.push_back(p); return wrap(p, w, "transform2"); }
            case 3: { typedef stream::transform<Op, A<1>, A<2>, A<3> > S; Op3<S>* s = new Op3<S>(in); std::shared_ptr<Stage> p(s); s->s = new S(s->op, s->a, s->b, s->c); stages.push_back(p); return wrap(p, w, "transform3"); }
            case 4: { typedef stream::transform<Op, A<1>, A<2>, A<3>, A<4> > S; Op4<S>* s = new Op4<S>(in); std::shared_ptr<Stage> p(s); s->s = new S(s->op, s->a, s->b, s->c, s->d); stages.push_back(p); return wrap(p, w, "transform4"); }
            case 5: { typedef stream::transform<Op, A<1>, A<2>, A<3>, A<4>, A<5> > S; Op5<S>* s = new Op5<S>(in); std::shared_ptr<Stage> p(s); s->s = new S(s->op, s->a, s->b, s->c, s->d, s->e); stages.push_back(p); return wrap(p, w, "transform5"); }
            default: { typedef stream::transform<Op, A<1>, A<2>, A<3>, A<4>, A<5>, A<6> > S; Op6<S>* s = new Op6<S>(in); std::shared_ptr<Stage> p(s); s->s = new S(s->op, s->a, s->b, s->c, s->d, s->e, s->f); stages.push_back(p); return wrap(p, w, "transform6"); }
            }
        }
        unsigned which = (unsigned)r.range(1, k); *w = std::vector<u64>(in[which - 1].want->begin(), in[which - 1].want->begin() + len);
        switch (k) {
        case 2: return tuple_of<2, stream::make_tuple<A<1>, A<2> >, Op2>(in, w, which);
        case 3: return tuple_of<3, stream::make_tuple<A<1>, A<2>, A<3> >, Op3>(in, w, which);
        case 4: return tuple_of<4, stream::make_tuple<A<1>, A<2>, A<3>, A<4> >, Op4>(in, w, which);
        case 5: return tuple_of<5, stream::make_tuple<A<1>, A<2>, A<3>, A<4>, A<5> >, Op5>(in, w, which);
        default: return tuple_of<6, stream::make_tuple<A<1>, A<2>, A<3>, A<4>, A<5>, A<6> >, Op6>(in, w, which);
        }
    }
    template <class S> struct Uniq : public Op1<S> { Uniq(const Any& x) : Op1<S>(x) { } void finish(size_t) { } };
    template <class T, class B> static T* make(B* b, std::integral_constant<unsigned, 2>) { return new T(b->a, b->b); }
    template <class T, class B> static T* make(B* b, std::integral_constant<unsigned, 3>) { return new T(b->a, b->b, b->c); }
    template <class T, class B> static T* make(B* b, std::integral_constant<unsigned, 4>) { return new T(b->a, b->b, b->c, b->d); }
    template <class T, class B> static T* make(B* b, std::integral_constant<unsigned, 5>) { return new T(b->a, b->b, b->c, b->d, b->e); }
    template <class T, class B> static T* make(B* b, std::integral_constant<unsigned, 6>) { return new T(b->a, b->b, b->c, b->d, b->e, b->f); }
    template <class T> static u64 comp(const T& t, unsigned j, std::integral_constant<unsigned, 2>) { return j == 0 ? t.first : t.second; }
    template <class T> static u64 comp(const T& t, unsigned j, std::integral_constant<unsigned, 3>) { return j == 2 ? t.third : j == 0 ? t.first : t.second; }
    template <class T> static u64 comp(const T& t, unsigned j, std::integral_constant<unsigned, 4>) { return j == 3 ? t.fourth : j == 2 ? t.third : j == 0 ? t.first : t.second; }
    template <class T> static u64 comp(const T& t, unsigned j, std::integral_constant<unsigned, 5>) { return j == 4 ? t.fifth : j == 3 ? t.fourth : j == 2 ? t.third : j == 0 ? t.first : t.second; }
    template <class T> static u64 comp(const T& t, unsigned j, std::integral_constant<unsigned, 6>) { return j == 5 ? t.sixth : j == 4 ? t.fifth : j == 3 ? t.fourth : j == 2 ? t.third : j == 0 ? t.first : t.second; }
    template <class S, class T, unsigned K, class Base> struct Chosen : public Base { T* t; Seq want[6]; size_t at; Chosen(const Any* x) : Base(x), t(NULL), at(0) { for (unsigned i = 0; i < K; ++i) want[i] = x[i].want; } ~Chosen() { delete this->s; this->s = NULL; delete t; } void finish(size_t) { }
        const u64& get() const { std::integral_constant<unsigned, K> k; for (unsigned j = 0; j < K; ++j) { VP_CHECK(comp(**t, j, k) == (*want[j])[at] && comp(*(*t).operator -> (), j, k) == (*want[j])[at], "stream-tuple", "component " << j + 1 << " of " << K << " of tuple " << at); } return Base::get(); } void next() { ++at; Base::next(); } };
    template <unsigned K, class T, template <class> class B, unsigned W> Any chosen(const Any* in, Seq w) { typedef stream::choose<T, (int)W> S; typedef Chosen<S, T, K, B<S> > C; C* s = new C(in); std::shared_ptr<Stage> p(s); s->t = make<T>(s, std::integral_constant<unsigned, K>()); s->s = new S(*s->t); vp::cov("choose", std::to_string(W) + " of " + std::to_string(K)); return wrap(p, w, "make_tuple" + std::to_string(K)); }
    template <unsigned K, class T, template <class> class B> Any tuple_of(const Any* in, Seq w, unsigned which) { switch (which) { case 1: return chosen<K, T, B, 1>(in, w); case 2: return chosen<K, T, B, 2>(in, w); case 3: return chosen<K, T, B, (K >= 3 ? 3 : 1)>(in, w); case 4: return chosen<K, T, B, (K >= 4 ? 4 : 1)>(in, w); case 5: return chosen<K, T, B, (K >= 5 ? 5 : 1)>(in, w); default: return chosen<K, T, B, (K >= 6 ? 6 : 1)>(in, w); } }
};

// the end of the pipeline
template <class V> static void into_vector(vp::Ctx& ctx, Any& in) {
    vp::Rng& r = ctx.rng; V v; size_t lo = r.chance(1, 2) ? 0 : r.boundary(N, 3), n = in.want->size() - in.pos, rest = r.chance(1, 3) ? 0 : r.boundary(N, 3); std::vector<u64> m; std::vector<char> known;
    v.resize(lo + n + rest); m.resize(lo + n + rest); known.assign(m.size(), 0);
    if (r.chance(2, 3)) for (size_t i = 0; i < m.size(); ++i) { v[i] = m[i] = f1(77, i); known[i] = 1; } if (r.chance(1, 2)) v.flush();
    if (m.size() && r.chance(1, 2)) for (unsigned k = 0; k < 5; ++k) { size_t i = r(m.size()); v[i] = m[i] = r.next(); known[i] = 1; } // some pages changed in memory
    typename V::iterator it = v.begin() + lo; size_t at = lo; bool once = r.chance(1, 3);
    do {
        unsigned_type nb = r.chance(1, 3) ? 0 : 1 + r(7); size_t left = in.want->size() - in.pos, len = once ? left : std::min(left, (size_t)r.boundary(N, 4)), before = in.pos; typename V::iterator end;
        if (!once && len == left && r.chance(1, 2)) once = true;
        if (once && len == left && r.chance(1, 2)) { it = stream::materialize(in, it, nb); vp::count("materialize_open"); }
        else { size_t room = len == left ? len + r(m.size() - at - len + 1) : len; it = stream::materialize(in, it, it + room, nb); vp::count("materialize_range"); }
        VP_EQ(in.pos - before, len, "materialize-consumed", "elements consumed by materialize into a range from " << at << " of " << m.size()); for (size_t i = 0; i < len; ++i) { m[at + i] = (*in.want)[before + i]; known[at + i] = 1; } at += len;
        VP_CHECK(it == v.begin() + at, "materialize-iterator", "materialize() returned an iterator at " << (it - v.begin()) << ", expected " << at);
        const V& cv = v; // between the steps: what was just written, and its neighbours
        for (unsigned k = 0; k < 4 && m.size(); ++k) { size_t i = k == 0 ? (at ? at - 1 : 0) : k == 1 ? std::min(at, m.size() - 1) : r(m.size()); if (known[i]) VP_EQ(cv[i], m[i], "materialize-content", "element " << i << " of " << m.size() << " after writing up to " << at); if (r.chance(1, 6)) { v[i] = m[i] = r.next(); known[i] = 1; } }
        if (len == 0 && !once && r.chance(1, 3)) once = true;
    } while (in.pos < in.want->size());
    VP_CHECK(in.empty(), "stream-does-not-end", "the stream after materialize"); VP_EQ((size_t)v.size(), m.size(), "materialize-size", "size of the target");
    if (r.chance(1, 3)) v.flush(); const V& cv = v;
    if (r.chance(1, 2)) { typename stream::streamify_traits<typename V::const_iterator>::stream_type s = stream::streamify(cv.begin(), cv.end()); for (size_t i = 0; i < m.size(); ++i, ++s) { VP_CHECK(!s.empty(), "stream-ends-early", "reading the target"); if (known[i]) VP_EQ(*s, m[i], "materialize-content", "element " << i << " of " << m.size() << " (written from " << lo << " on, " << n << " elements) read with a stream"); } VP_CHECK(s.empty(), "stream-does-not-end", "reading the target"); }
    else for (size_t i = 0; i < m.size(); ++i) if (known[i]) VP_EQ(cv[i], m[i], "materialize-content", "element " << i << " of " << m.size() << " (written from " << lo << " on, " << n << " elements)");
    vp::count("elements_materialized", n);
}
VP_SCENARIO(pipelines, 480, 8000) {
    vp::Rng& r = ctx.rng; vp::MonStat before = vp::monitor_stat();
    {
        Builder b(ctx); size_t n = r.boundary(N, r.chance(1, 4) ? 16 : 5); Any a = b.node((unsigned)r(4), n, (unsigned)r(4)); size_t len = a.want->size();
        switch (r(8)) {
        case 0: stream::discard(a); VP_EQ(a.pos, len, "stream-discard", "elements discarded"); break;
        case 1: { std::vector<u64> out(len + 3, 5); std::vector<u64>::iterator e = stream::materialize(a, out.begin()); VP_CHECK(e == out.begin() + len && std::equal(a.want->begin(), a.want->end(), out.begin()) && out[len] == 5, "materialize-memory", "into an std::vector"); break; }
        case 2: { std::vector<u64> out; stream::materialize(a, std::back_inserter(out)); VP_CHECK(out == *a.want, "materialize-memory", "with an insert iterator"); break; }
        case 3: { std::list<u64> out(len + r(5), 5); size_t room = r(out.size() + 1); std::list<u64>::iterator end = out.begin(); std::advance(end, room); std::list<u64>::iterator e = stream::materialize(a, out.begin(), end); size_t w = std::min(room, len); VP_EQ(a.pos, w, "materialize-consumed", "elements consumed for a range of " << room); VP_CHECK((size_t)std::distance(out.begin(), e) == w && std::equal(a.want->begin(), a.want->begin() + w, out.begin()), "materialize-memory", "into a list range"); for ( ; e != out.end(); ++e) VP_EQ(*e, (u64)5, "materialize-memory", "behind the range"); break; }
        case 4: { size_t i = 0; for ( ; !a.empty(); ++a, ++i) { if (r.chance(1, 5)) *a; *a; if (r.chance(1, 10)) a.operator -> (); } VP_EQ(i, len, "stream-length", "elements seen"); break; }
        case 5: into_vector<V1>(ctx, a); break; case 6: into_vector<V2>(ctx, a); break; default: into_vector<V4>(ctx, a);
        }
        if (a.pos == len) for (size_t i = 0; i < b.stages.size(); ++i) if (b.stages[i] == a.n) b.stages[i]->finish(len);
        vp::count("pipelines"); if (len == 0) vp::count("empty_pipelines"); if (len > N) vp::count("multi_block_pipelines");
    }
    VP_EQ((u64)vp::monitor_stat().live_bytes, before.live_bytes, "stream-leak", "external bytes held after the pipeline"); vp::nontrivial(ctx.h);
}
// elements of any size, from a vector to itself or to another one
template <class V> static void self(vp::Ctx& ctx) {
    typedef typename V::value_type T; typedef typename T::key_type K; vp::Rng& r = ctx.rng; const size_t B = V::block_type::size; V v; std::vector<T> m; size_t n = r.boundary(B, 8) + 1; uint32_t serial = 0;
    v.resize(n); for (size_t i = 0; i < n; ++i) { T t((K)(vp::mix(++serial) | 1), serial); v[i] = t; m.push_back(t); }
    for (unsigned step = 0; step < 4; ++step) {
        size_t len, from, to; if (r.chance(1, 3)) { from = r(n); len = r(n - from + 1); to = from; } else { size_t mid = r(n + 1); from = r(mid + 1); len = std::min(mid - from, n - mid); len = r.chance(1, 2) ? len : r(len + 1); to = mid + r(n - mid - len + 1); if (r.chance(1, 3)) std::swap(from, to); }
        if (r.chance(1, 2)) for (unsigned k = 0; k < 4; ++k) { size_t i = r(n); T t((K)(vp::mix(++serial) | 1), serial); v[i] = t; m[i] = t; }
        unsigned_type nb = r.chance(1, 2) ? 0 : 1 + r(6), nb2 = r.chance(1, 2) ? 0 : 1 + r(6); std::vector<T> src(m.begin() + from, m.begin() + from + len); typename V::iterator e;
        if (r.chance(1, 2)) { typename stream::streamify_traits<typename V::iterator>::stream_type s = stream::streamify(v.begin() + from, v.begin() + from + len, nb); if (len) VP_CHECK(s.operator -> ()->ident() == src[0].ident(), "stream-content", "first element"); e = stream::materialize(s, v.begin() + to, nb2); VP_CHECK(s.empty(), "stream-does-not-end", "after materialize"); }
        else { const V& cv = v; typename stream::streamify_traits<typename V::const_iterator>::stream_type s = stream::streamify(cv.begin() + from, cv.begin() + from + len, nb); e = stream::materialize(s, v.begin() + to, v.begin() + to + len, nb2); VP_CHECK(s.empty(), "stream-does-not-end", "after materialize"); }
        VP_EQ((size_t)(e - v.begin()), to + len, "materialize-iterator", "iterator returned"); std::copy(src.begin(), src.end(), m.begin() + to); ctx.note(from * 7 + to * 3 + len);
        const V& cv = v; for (size_t i = 0; i < n; ++i) VP_CHECK(cv[i] == m[i] && cv[i].intact(), i >= to && i < to + len ? "materialize-content" : "materialize-outside", "element " << i << " of " << n << " is " << cv[i] << ", expected " << m[i] << " after copying [" << from << "," << from + len << ") to " << to << ", " << B << " per block");
        vp::count("self_copies");
    }
    // copies of the small-range stream are streams of their own
    { size_t from = r(n), len = r.chance(1, 2) ? n - from : r(std::min<size_t>(n - from + 1, B)); typedef stream::vector_iterator2stream_sr<typename V::iterator> S; S a(stream::streamify_sr(v.begin() + from, v.begin() + from + len)); size_t i = 0, k = r(len + 1); for ( ; i < k; ++i, ++a) VP_CHECK(*a == m[from + i] && a.operator -> ()->intact(), "stream-content", "streamify_sr element " << i); { S b(a); for ( ; i < len; ++i, ++b) VP_CHECK(!b.empty() && *b == m[from + i], "stream-content", "copied streamify_sr element " << i << " of " << len); VP_CHECK(b.empty(), "stream-does-not-end", "copied streamify_sr"); } vp::count("stream_copies"); }
    vp::nontrivial(ctx.h);
}
typedef Rec<uint32_t, 4> R12; typedef Rec<uint64_t, 116> R128; typedef Rec<uint32_t, 492> R500;
VP_SCENARIO_T(self, self_u64, 100, 2000, stxxl::vector<U64, 2, lru_pager<2>, BS>);
VP_SCENARIO_T(self, self_r12, 100, 2000, stxxl::vector<R12, 1, lru_pager<1>, BS, SR>);
VP_SCENARIO_T(self, self_r128, 100, 2000, stxxl::vector<R128, 4, random_pager<2>, BS, striping>);
VP_SCENARIO_T(self, self_r500, 100, 2000, stxxl::vector<R500, 3, lru_pager<2>, BS>);
