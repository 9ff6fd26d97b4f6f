// C20: sorter, run creators and run mergers against a sorted copy.
#include "vp.h"
#include "vp_monitor.h"
#include "records.h"
#include <stxxl/sorter>
#include <stxxl/stream>
#include <stxxl/vector>
#include <algorithm>
using namespace stxxl;

template <class T> struct VecStream { typedef T value_type; const std::vector<T>& v; size_t i; VecStream(const std::vector<T>& v_) : v(v_), i(0) { } bool empty() const { return i == v.size(); } const T& operator * () const { if (empty()) vp::fail("stream-overread", "an empty input stream is read"); return v[i]; } VecStream& operator ++ () { if (empty()) vp::fail("stream-overread", "an empty input stream is advanced"); ++i; return *this; } const T* operator -> () const { return &v[i]; } };

// what is expected of one sorted sequence
template <class T, class C>
struct Expect {
    std::vector<T> e; std::vector<char> seen; size_t pos; bool ids; std::string w;
    Expect(const std::vector<T>& in, const C& c, const std::string& w_) : e(in), pos(0), ids(sizeof(T) != 8), w(w_) { // identities are positions in the input
        seen.assign(in.size(), 0); src = in; std::sort(e.begin(), e.end(), c); }
    std::vector<T> src;
    void next(const T& x) {
        VP_CHECK(pos < e.size(), "emits-more", "emits more than " << e.size() << " elements" << w);
        VP_CHECK(x.key() == e[pos].key(), "wrong-order", "element " << pos << " of " << e.size() << " has key " << (uint64_t)x.key() << ", expected " << (uint64_t)e[pos].key() << w);
        VP_CHECK(x.intact(), "damaged", "element " << pos << " is damaged" << w);
        if (ids) { uint64_t id = x.ident(); VP_CHECK(id < src.size() && src[id] == x, "foreign-element", "element " << pos << " (number " << id << ") is not one of the input" << w); VP_CHECK(!seen[id], "emitted-twice", "element number " << id << " is emitted twice" << w); seen[id] = 1; }
        ++pos;
    }
    void end() { VP_EQ(pos, e.size(), "lost", "elements emitted" << w); }
    void restart() { pos = 0; std::fill(seen.begin(), seen.end(), 0); }
};
template <class T> static void generate(vp::Rng& r, std::vector<T>& m, size_t n, unsigned d) { uint64_t p = r.next(); size_t at = m.size(); for (size_t i = 0; i < n; ++i) m.push_back(T(dist_key<typename T::key_type>(r, d, i, n, p), (uint32_t)(at + i))); }

// CM: comparisons with and without state
template <class C> struct MakeCmp { static C make(vp::Rng&) { return C(); } static void repair(const C&, std::vector<typename C::T_>&) { } };
template <class T> struct LessT : Less<T> { typedef T T_; }; template <class T> struct GreaterT : Greater<T> { typedef T T_; };
template <class T> struct RotT : Rot<T> { typedef T T_; explicit RotT(typename T::key_type o) : Rot<T>(o) { } };
template <class T> struct MakeCmp<RotT<T> > { static RotT<T> make(vp::Rng& r) { return RotT<T>((typename T::key_type)r.next()); }
    static void repair(const RotT<T>& c, std::vector<T>& m) { typedef typename T::key_type K; for (size_t i = 0; i < m.size(); ++i) if (m[i].key() == c.off || m[i].key() == (K)(c.off - 1)) m[i] = T((K)(c.off + 1), (uint32_t)i); } };

template <class S> // S: a sorter type
struct SorterTest {
    typedef typename S::value_type T; typedef typename S::cmp_type C; static const size_t BS = S::block_size; typedef typed_block<BS, T> block_type; typedef typename S::runs_creator_type RC; typedef typename S::alloc_strategy_type A;
    vp::Ctx& ctx; vp::Rng& r; size_t N; uint64_t D;
    SorterTest(vp::Ctx& c) : ctx(c), r(c.rng), N(block_type::size), D(config::get_instance()->disks_number()) { }
    size_t mem_blocks() { return r.chance(1, 3) ? 2 + r(4) : r.range(2, 40); }
    size_t merge_blocks() { return r.chance(1, 3) ? 4 * D + 1 + r(6) : r.chance(1, 6) ? r(4 * D + 3) : 4 * D + 3 + r(60); }
    // creators of runs leave room for the workspace of the parallel sort, mergers need none
    size_t raw(size_t blocks) { return blocks * BS + (r.chance(1, 2) ? r(BS) : 0); }
    size_t bytes(size_t blocks) { return blocks * BS * sort_memory_usage_factor() + (r.chance(1, 2) ? r(BS) : 0); }
    size_t count(size_t mb) { // numbers of elements around the sizes of blocks, runs and pairs of runs
        size_t run = mb / 2 * N; size_t maxruns = r.chance(1, 8) ? 120 : r.chance(1, 2) ? 4 : 16; size_t cap = (ctx.thorough ? 600 : 150) * N;
        size_t n = r.chance(1, 4) ? r.boundary(N, 3) : r.chance(1, 4) ? r(N * 8) : r.boundary(run, maxruns); return n > cap ? cap - r(N) : n; }
    bool fits(size_t nruns, size_t mm) { return mm > 0 && nruns + 2 * D <= mm - 1; }

    // ---- histories of one sorter
    void sorter_history() {
        vp::MonStat before = vp::monitor_stat();
        {
            C cmp = MakeCmp<C>::make(r); size_t mb = mem_blocks(), mm = merge_blocks(); if (r.chance(1, 3)) mm = mb; size_t mbytes = bytes(mb), mmbytes = raw(mm); bool same = r.chance(1, 4); if (same) { mm = mbytes / BS; mmbytes = mbytes; }
            if (r.chance(1, 20)) { try { S bad(cmp, r(2 * BS * sort_memory_usage_factor())); vp::fail("accepts-too-little", "a sorter accepts less memory than two blocks"); } catch (bad_parameter&) { vp::count("refused_memory"); } }
            S* sp = same ? new S(cmp, mbytes) : new S(cmp, mbytes, mmbytes); S& s = *sp; ctx.note(mb); ctx.note(mm);
            size_t rounds = 1 + r(3), last = 0;
            for (size_t round = 0; round < rounds; ++round) {
                std::vector<T> in; generate(r, in, round && r.chance(1, 2) ? last : count(mb), (unsigned)r(DIST_COUNT)); last = in.size(); MakeCmp<C>::repair(cmp, in); ctx.note(in.size());
                std::ostringstream ws; ws << " (" << in.size() << " elements of " << sizeof(T) << " bytes, " << N << " per block, memory " << mb << " and " << mm << " blocks, " << D << " disks, round " << round << ")"; std::string w = ws.str();
                VP_EQ((uint64_t)s.size(), 0u, "sorter-size", "size of a cleared sorter" << w);
                size_t stop = r.chance(1, 8) ? r(in.size() + 1) : in.size();
                for (size_t i = 0; i < stop; ++i) { s.push(in[i]); if (r.chance(1, 50)) VP_EQ((uint64_t)s.size(), i + 1, "sorter-size", "size while pushing" << w); }
                VP_EQ((uint64_t)s.size(), stop, "sorter-size", "size after pushing" << w); vp::count("pushed", stop);
                if (stop < in.size()) { // forget the input
                    if (r.chance(1, 3)) { s.finish_clear(); VP_EQ((uint64_t)s.size(), 0u, "sorter-size", "size after finish_clear() while pushing" << w); VP_EQ((uint64_t)vp::monitor_stat().live_bytes, before.live_bytes, "sorter-leak", "external bytes held after finish_clear() while pushing" << w); ctx.note(1); s.clear(); }
                    else if (r.chance(1, 2)) { s.clear(); ctx.note(2); } else { ctx.note(3); break; } // destroyed while it takes input
                    vp::count("inputs_dropped"); VP_EQ((uint64_t)s.size(), 0u, "sorter-size", "size after clear()" << w); VP_EQ((uint64_t)vp::monitor_stat().live_bytes, before.live_bytes, "sorter-leak", "external bytes held after clear()" << w); continue; }
                if (r.chance(1, 4)) { s.finish(); VP_EQ((uint64_t)s.size(), in.size(), "sorter-size", "size after finish()" << w); ctx.note(4); vp::count("finished"); }
                Expect<T, C> x(in, cmp, w); size_t el_run = mb / 2 * N, nruns = in.size() <= N ? 0 : (in.size() + el_run - 1) / el_run;
                bool reuse = r.chance(1, 3);
                for (;;) { // switch to output, with more memory if it was not enough
                    bool must = fits(nruns, mm) || mm >= 4 * D + 3 || in.size() <= N;
                    try { if (reuse) s.sort_reuse(); else s.sort(); VP_CHECK(must, "merger-memory", "a merger accepts too little memory" << w); if (!fits(nruns, mm) && nruns) vp::count("recursive_merges"); break; }
                    catch (bad_parameter&) { VP_CHECK(!must, "merger-refuses", "a merger refuses enough memory" << w); vp::count("refused_memory"); VP_EQ((uint64_t)s.size(), in.size(), "sorter-size", "size after a refused sort()" << w); mm = 4 * D + 3 + r(20); mmbytes = raw(mm); if (reuse || r.chance(1, 2)) s.set_merger_memory_to_use(mmbytes); else { s.sort(mmbytes); break; } }
                }
                if (nruns > 1) vp::count("external_runs", nruns); else vp::count("small_inputs");
                size_t passes = 1 + r(3);
                for (size_t p = 0; p < passes; ++p) {
                    if (p > 0) { if (r.chance(1, 4)) { s.finish(); } unsigned q = (unsigned)r(3); x.restart(); try { if (q == 0) s.rewind(); else if (q == 1) s.sort(); else { size_t nm = merge_blocks(); if (nm >= 4 * D + 3) { mm = nm; s.sort(raw(nm)); } else s.sort(); } } catch (bad_parameter&) { vp::fail("merger-refuses", "a merger refuses enough memory at rewinding" + w); } vp::count("rewinds"); ctx.note(10 + q); }
                    size_t take = p + 1 == passes || r.chance(1, 2) ? in.size() : r(in.size() + 1);
                    for (size_t i = 0; i < take; ++i) {
                        VP_CHECK(!s.empty(), "sorter-empty", "empty after " << i << " of " << in.size() << " elements" << w); if (r.chance(1, 50)) VP_EQ((uint64_t)s.size(), in.size() - i, "sorter-size", "size while reading" << w);
                        if (r.chance(1, 20)) VP_CHECK(s->key() == (*s).key(), "sorter-arrow", "operator -> differs" << w);
                        x.next(*s); ++s; }
                    VP_EQ((uint64_t)s.size(), in.size() - take, "sorter-size", "size after reading" << w); VP_EQ(s.empty(), take == in.size(), "sorter-empty", "empty() after reading" << w); if (take == in.size()) x.end(); vp::count("emitted", take); ctx.note(take);
                }
                unsigned q = (unsigned)r(4);
                if (q == 0) { s.finish_clear(); VP_EQ((uint64_t)s.size(), 0u, "sorter-size", "size after finish_clear()" << w); VP_EQ((uint64_t)vp::monitor_stat().live_bytes, before.live_bytes, "sorter-leak", "external bytes held after finish_clear()" << w); s.clear(); vp::count("clears"); }
                else if (q == 1) { s.finish(); s.clear(); vp::count("clears"); } else if (q == 2) { s.clear(); vp::count("clears"); } else break;
                VP_EQ((uint64_t)vp::monitor_stat().live_bytes, before.live_bytes, "sorter-leak", "external bytes held after clear()" << w);
            }
            delete sp;
        }
        VP_EQ((uint64_t)vp::monitor_stat().live_bytes, before.live_bytes, "sorter-leak", "external bytes held after the sorter was destroyed");
        vp::nontrivial(ctx.h);
    }
    // ---- run creators and mergers on their own
    template <class SR> void runs_ok(const SR& sr, const std::vector<T>& in, size_t maxrun, C cmp, const std::string& w) {
        VP_EQ((uint64_t)sr->elements, in.size(), "runs-elements", "elements in the runs" << w); uint64_t sum = sr->small_run.size(); VP_EQ(sr->runs.size(), sr->runs_sizes.size(), "runs-sizes", "runs and sizes of runs" << w);
        for (size_t i = 0; i < sr->runs.size(); ++i) { sum += sr->runs_sizes[i]; if (maxrun) VP_CHECK(sr->runs_sizes[i] <= maxrun, "runs-sizes", "a run holds " << sr->runs_sizes[i] << " elements, memory allows " << maxrun << w); VP_EQ(sr->runs[i].size(), (size_t)div_ceil(sr->runs_sizes[i], N), "runs-blocks", "blocks of run " << i << w); }
        VP_EQ(sum, in.size(), "runs-elements", "sum of the run sizes" << w); VP_CHECK(stream::check_sorted_runs(sr, cmp), "runs-unsorted", "check_sorted_runs() fails" << w); vp::count("runs_checked", sr->runs.size());
    }
    template <class SR> void merge(SR& sr, const std::vector<T>& in, C cmp, const std::string& w) {
        typedef stream::runs_merger<SR, C, A> M; size_t nruns = sr->runs.size(), mm = merge_blocks(); bool small = !sr->small_run.empty() || in.empty(); bool must = small || fits(nruns, mm) || mm >= 4 * D + 3; M* m = NULL; ctx.note(mm);
        size_t mmb = mm * BS + (r.chance(1, 2) ? r(BS) : 0);
        try { if (r.chance(1, 2)) m = new M(sr, cmp, mmb); else { m = new M(cmp, r.chance(1, 2) ? mmb : 0); m->set_memory_to_use(mmb); m->initialize(sr); } VP_CHECK(must, "merger-memory", "a merger accepts " << mm << " blocks for " << nruns << " runs" << w); }
        catch (bad_parameter&) { VP_CHECK(!must, "merger-refuses", "a merger refuses " << mm << " blocks for " << nruns << " runs" << w); vp::count("refused_memory"); delete m; mm = 4 * D + 3; m = new M(sr, cmp, mm * BS); }
        if (sr->runs.size() < nruns) vp::count("recursive_merges");
        M* m2 = r.chance(1, 4) && mm >= 4 * D + 3 ? new M(sr, cmp, (mm + r(10)) * BS + BS) : NULL; // a second reader of the same runs
        Expect<T, C> x(in, cmp, w + " merged with " + std::to_string(mm) + " blocks"), x2(in, cmp, w + " merged again");
        size_t take = r.chance(1, 5) ? r(in.size() + 1) : in.size();
        for (size_t i = 0; i < take; ++i) { VP_CHECK(!m->empty(), "merger-empty", "empty after " << i << " elements" << w); if (r.chance(1, 50)) VP_EQ((uint64_t)m->size(), in.size() - i, "merger-size", "size while merging" << w); x.next(**m); ++*m; if (m2 && !m2->empty()) { x2.next(**m2); ++*m2; if (!m2->empty() && r.chance(1, 3)) { x2.next(**m2); ++*m2; } } }
        if (take == in.size()) { VP_CHECK(m->empty(), "merger-empty", "not empty after all elements" << w); x.end(); } vp::count("emitted", take);
        if (r.chance(1, 4)) { m->deallocate(); m->initialize(sr); x.restart(); while (!m->empty()) { x.next(**m); ++*m; } x.end(); vp::count("rewinds"); }
        if (m2) { while (!m2->empty()) { x2.next(**m2); ++*m2; } x2.end(); vp::count("second_readers"); delete m2; }
        delete m;
    }
    void creators() {
        vp::MonStat before = vp::monitor_stat();
        {
            C cmp = MakeCmp<C>::make(r); size_t mb = mem_blocks(), mbytes = bytes(mb); int kind = (int)r(4); ctx.note(kind); ctx.note(mb);
            std::vector<T> in; generate(r, in, count(mb), (unsigned)r(DIST_COUNT)); MakeCmp<C>::repair(cmp, in); ctx.note(in.size());
            std::ostringstream ws; ws << " (creator " << kind << ", " << in.size() << " elements of " << sizeof(T) << " bytes, " << N << " per block, memory " << mb << " blocks, " << D << " disks)"; std::string w = ws.str();
            if (kind == 0) { // from a stream
                typedef stream::runs_creator<VecStream<T>, C, BS, A> R; VecStream<T> st(in); if (r.chance(1, 20)) { try { R bad(st, cmp, r(2 * BS * sort_memory_usage_factor())); vp::fail("accepts-too-little", "a run creator accepts less than two blocks"); } catch (bad_parameter&) { vp::count("refused_memory"); } }
                typename R::sorted_runs_type res; { R c(st, cmp, mbytes); res = c.result(); VP_CHECK(res.get() == c.result().get(), "result-twice", "result() gives two results" << w); } VP_EQ(st.i, in.size(), "stream-left", "elements taken from the input" << w);
                runs_ok(res, in, mb / 2 * 2 * N, cmp, w); merge(res, in, cmp, w); vp::count("stream_creators"); }
            else if (kind == 1) { // by pushing, reusing the creator
                RC c(cmp, mbytes); typename RC::sorted_runs_type res;
                if (r.chance(1, 3)) { size_t k = r(in.size() + 1); for (size_t i = 0; i < k; ++i) c.push(in[i]); if (r.chance(1, 2)) c.result(); if (r.chance(1, 2)) c.deallocate(); if (r.chance(1, 2)) c.allocate(); else { c.allocate(); c.clear(); } VP_EQ((uint64_t)c.size(), 0u, "creator-size", "size after a new start" << w); VP_EQ((uint64_t)vp::monitor_stat().live_bytes, before.live_bytes, "sorter-leak", "external bytes held after clear()" << w); vp::count("creators_reused"); }
                for (size_t i = 0; i < in.size(); ++i) c.push(in[i]); VP_EQ((uint64_t)c.size(), in.size(), "creator-size", "size before result()" << w); res = c.result(); VP_EQ((uint64_t)c.size(), in.size(), "creator-size", "size after result()" << w); if (r.chance(1, 2)) c.deallocate();
                runs_ok(res, in, mb / 2 * N, cmp, w); merge(res, in, cmp, w); vp::count("push_creators"); }
            else if (kind == 2) { // sorted sequences
                typedef stream::runs_creator<stream::from_sorted_sequences<T>, C, BS, A> R; typename R::sorted_runs_type res; size_t runs = 0, longest = 0;
                { R c(cmp, mbytes); size_t i = 0; bool called = false;
                  while (i < in.size()) { size_t len = std::min(in.size() - i, r.chance(1, 6) ? (size_t)0 : r.chance(1, 2) ? r.boundary(N, 5) : 1 + (size_t)r(3 * N)); if (len) ++runs; longest = std::max(longest, len); std::vector<T> q(in.begin() + i, in.begin() + i + len); std::sort(q.begin(), q.end(), cmp); for (size_t k = 0; k < len; ++k) c.push(q[k]); c.finish(); i += len; if (r.chance(1, 10) && !called) { called = true; VP_EQ((uint64_t)c.result()->elements, i, "runs-elements", "elements after an early result()" << w); } }
                  if (r.chance(1, 6)) { in.clear(); runs = longest = 0; vp::count("inputs_dropped"); } else res = c.result(); }
                if (res.valid()) { VP_EQ(res->runs.size(), runs, "runs-count", "runs made of sorted sequences" << w); runs_ok(res, in, longest, cmp, w); merge(res, in, cmp, w); vp::count("sequence_creators"); } }
            else { // sort a stream
                typedef stream::sort<VecStream<T>, C, BS, A> St; VecStream<T> st(in); size_t mm = std::max((size_t)4 * D + 3, merge_blocks()), mmb = raw(mm); bool one = r.chance(1, 2) && mb >= 4 * D + 3;
                St* so = one ? new St(st, cmp, mbytes) : new St(st, cmp, mbytes, mmb); Expect<T, C> x(in, cmp, w + " stream::sort"); while (!so->empty()) { if (r.chance(1, 20)) VP_CHECK((*so)->key() == (**so).key(), "sorter-arrow", "operator -> differs" << w); x.next(**so); ++*so; } x.end(); delete so; vp::count("stream_sorts"); vp::count("emitted", in.size()); }
        }
        VP_EQ((uint64_t)vp::monitor_stat().live_bytes, before.live_bytes, "sorter-leak", "external bytes held after runs and mergers were destroyed");
        vp::nontrivial(ctx.h);
    }
    // ---- sorting a range of random access iterators
    void ranges() {
        vp::MonStat before = vp::monitor_stat();
        {
            C cmp = MakeCmp<C>::make(r); size_t mb = std::max((size_t)4 * D + 3, mem_blocks()) , mbytes = bytes(mb); std::vector<T> in; generate(r, in, count(mb), (unsigned)r(DIST_COUNT)); MakeCmp<C>::repair(cmp, in); size_t lo = r(in.size() + 1), hi = r.range(lo, in.size()); if (r.chance(1, 2)) { lo = 0; hi = in.size(); }
            std::vector<T> part; for (size_t i = lo; i < hi; ++i) part.push_back(T(in[i].key(), (uint32_t)(i - lo))), in[i] = part.back(); ctx.note(in.size()); ctx.note(lo); ctx.note(hi); ctx.note(mb);
            std::ostringstream ws; ws << " (sort<>() of [" << lo << "," << hi << ") of " << in.size() << " elements, memory " << mb << " blocks)"; std::string w = ws.str(); Expect<T, C> x(part, cmp, w);
            if (r.chance(1, 2)) { std::vector<T> v(in); stxxl::sort<BS>(v.begin() + lo, v.begin() + hi, cmp, mbytes, A()); for (size_t i = 0; i < in.size(); ++i) if (i < lo || i >= hi) VP_CHECK(v[i] == in[i], "sort-outside", "element " << i << " changed" << w); else x.next(v[i]); }
            else { typedef stxxl::vector<T, 2, lru_pager<2>, BS, A> V; V v(in.size()); for (size_t i = 0; i < in.size(); ++i) v[i] = in[i]; stxxl::sort<BS>(v.begin() + lo, v.begin() + hi, cmp, mbytes, A()); const V& cv = v; for (size_t i = 0; i < in.size(); ++i) if (i < lo || i >= hi) VP_CHECK(cv[i] == in[i], "sort-outside", "element " << i << " changed" << w); else x.next(cv[i]); }
            x.end(); vp::count("range_sorts");
        }
        VP_EQ((uint64_t)vp::monitor_stat().live_bytes, before.live_bytes, "sorter-leak", "external bytes held after sorting a range");
        vp::nontrivial(ctx.h);
    }
};
template <class S> static void sorter_scn(vp::Ctx& ctx) { SorterTest<S>(ctx).sorter_history(); }
template <class S> static void creators_scn(vp::Ctx& ctx) { SorterTest<S>(ctx).creators(); }
template <class S> static void ranges_scn(vp::Ctx& ctx) { SorterTest<S>(ctx).ranges(); }
