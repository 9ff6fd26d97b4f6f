// C24: algorithms and streams give back what they took, also when they are abandoned half way.
#include "c24_held.h"
#include <stxxl/vector>
#include <stxxl/sort>
#include <stxxl/ksort>
#include <stxxl/stable_ksort>
#include <stxxl/scan>
#include <stxxl/random_shuffle>
#include <stxxl/random>
#include <stxxl/sorter>
#include <stxxl/stream>
#include <stxxl/sequence>
#include <stxxl/bits/mng/buf_ostream.h>
#include <stxxl/bits/mng/buf_istream.h>
using namespace stxxl;
typedef Rec<uint32_t, 56> R64; static const size_t BS = 4096, N = typed_block<4096, R64>::size;
typedef stxxl::vector<R64, 2, lru_pager<2>, 4096> V; static uint64_t disks() { return config::get_instance()->disks_number(); }
static std::vector<R64> input(vp::Rng& r, size_t n) { unsigned d = (unsigned)r(DIST_COUNT); uint64_t p = r.next(); std::vector<R64> v; for (size_t i = 0; i < n; ++i) v.push_back(R64(dist_key<uint32_t>(r, d, i, n, p), (uint32_t)i)); return v; }
static size_t bytes(vp::Rng& r, size_t blocks) { return blocks * BS * sort_memory_usage_factor() + r(BS); }

VP_SCENARIO(held_sort, 100, 5000) {
    vp::Rng& r = ctx.rng; Held held; unsigned kind = (unsigned)r(6); std::string w = " (algorithm " + std::to_string(kind) + ")"; ctx.note(kind);
    {
        size_t n = r.boundary(N, r.chance(1, 2) ? 12 : 120); std::vector<R64> in = input(r, n); V v(n); for (size_t i = 0; i < n; ++i) v[i] = in[i]; v.flush(); size_t lo = r.chance(1, 2) ? 0 : r(n + 1), hi = r.chance(1, 2) ? n : r.range(lo, n), mb = 4 * disks() + 3 + r(30); ctx.note(n); ctx.note(lo); ctx.note(hi); uint64_t own = (n + N - 1) / N * BS; held.exact(own, "by the vector" + w);
        switch (kind) {
        case 0: stxxl::sort(v.begin() + lo, v.begin() + hi, Less<R64>(), bytes(r, mb)); break;
        case 1: stxxl::ksort(v.begin() + lo, v.begin() + hi, KeyX<R64>(), bytes(r, mb)); break;
        case 2: { for (size_t i = 0; i < n; ++i) v[i] = R64((uint32_t)r.next(), (uint32_t)i); V u(n); for (size_t i = 0; i < n; ++i) u[i] = v[i]; v.flush(); own *= 2; if (n > 20 * N) { stxxl::stable_ksort(v.begin(), v.end(), (2 * mb + 80) * BS * 4); vp::count("stable_sorts"); } held.exact(own, "by two vectors, one sorted stably"); own /= 2; break; }
        case 3: { random_number32 rn; stxxl::random_shuffle(v.begin() + lo, v.begin() + hi, rn, (unsigned_type)(40 + r(40)) * BS); break; }
        case 4: { struct Add { void operator () (R64& x) { x.k ^= 1; } } f; stxxl::for_each_m(v.begin() + lo, v.begin() + hi, f, 2 + r(5)); break; }
        default: { struct Gen { uint32_t i; R64 operator () () { return R64(++i, i); } } g = { 0 }; stxxl::generate(v.begin() + lo, v.begin() + hi, g, 1 + r(5)); stxxl::find(v.begin() + lo, v.begin() + hi, R64(77, 77), 1 + r(4)); } }
        held.exact(own, "after the algorithm" + w); if (r.chance(1, 2)) { v.resize(n / 2, true); held.exact((n / 2 + N - 1) / N * BS, "after shrinking the result" + w); } vp::count("algorithms");
    }
    held.none("after the vector was destroyed" + w); vp::nontrivial(ctx.h); vp::cov("algorithm", w);
}
typedef stxxl::sorter<R64, Less<R64>, 4096> so_t;
VP_SCENARIO(held_sorter, 150, 8000) { // the content is held once, with at most one partly filled block for each run
    vp::Rng& r = ctx.rng; Held held; size_t mb = r.range(2, 30), mm = 4 * disks() + 3 + r(20); std::string tr;
    {
        so_t s(Less<R64>(), bytes(r, mb), bytes(r, mm)); int rounds = (int)r.range(1, 3);
        while (rounds--) {
            size_t n = r.boundary(N, r.chance(1, 2) ? 10 : 150), run = mb / 2 * N; std::vector<R64> in = input(r, n); ctx.note(n); tr += " " + std::to_string(n);
            auto limit = [&](size_t k) { return (k / N + k / run + 2) * BS; };
            for (size_t i = 0; i < n; ++i) { s.push(in[i]); if (r.chance(1, 500)) held.atmost(limit(i + 1) + run / N * BS, "while pushing into a sorter," + tr); }
            unsigned end = (unsigned)r(7); tr += (char)('a' + end); ctx.note(end);
            if (end == 0) break; // destroyed while taking input
            if (end == 1) { s.clear(); held.exact(0, "after clear() while pushing," + tr); vp::count("cleared"); continue; }
            if (end == 2) { s.finish(); held.atmost(limit(n), "after finish()," + tr); }
            s.sort(); held.atmost(limit(n) , "after sort()," + tr); if (n > N) held.atleast(n / N * BS, "after sort()," + tr);
            for (int pass = (int)r.range(1, 3); pass--; ) { size_t take = r.chance(1, 2) ? n : r(n + 1); for (size_t i = 0; i < take && !s.empty(); ++i) ++s; held.atmost(limit(n), "after reading," + tr); if (n > N) held.atleast(n / N * BS, "after reading, as it can be rewound," + tr); if (pass) { s.rewind(); vp::count("rewound"); } }
            if (end == 3) break;
            if (end == 4) { s.finish_clear(); held.exact(0, "after finish_clear()," + tr); s.clear(); } else if (end == 5) { s.finish(); held.atmost(limit(n), "after finish() while reading," + tr); s.clear(); } else s.clear();
            held.exact(0, "after clear()," + tr); vp::count("cleared"); vp::count("sorter_rounds");
        }
    }
    held.none("after the sorter was destroyed," + tr); vp::nontrivial(ctx.h);
}
VP_SCENARIO(held_runs, 150, 8000) { // run creators and mergers, abandoned anywhere
    vp::Rng& r = ctx.rng; Held held; size_t mb = r.range(2, 24), mm = 4 * disks() + 3 + r(20), n = r.boundary(N, r.chance(1, 2) ? 8 : 150); std::vector<R64> in = input(r, n); unsigned kind = (unsigned)r(4), quit = (unsigned)r(6); ctx.note(kind); ctx.note(quit); ctx.note(n); std::string w = " (creator " + std::to_string(kind) + ", abandoned at " + std::to_string(quit) + ", " + std::to_string(n) + " elements)"; Less<R64> cmp;
    auto limit = [&](size_t run) { return (n / N + n / run + 3) * BS; };
    {
        typedef stream::runs_creator<VecStream<R64>, Less<R64>, 4096> RS; typedef stream::runs_creator<stream::use_push<R64>, Less<R64>, 4096> RP; typedef stream::runs_creator<stream::from_sorted_sequences<R64>, Less<R64>, 4096> RQ; VecStream<R64> st(in);
        if (kind == 0) { RS c(st, cmp, bytes(r, mb)); if (quit > 0) { RS::sorted_runs_type res = c.result(); held.atmost(limit(mb / 2 * N), "by sorted runs" + w); if (quit > 2) { stream::runs_merger<RS::sorted_runs_type, Less<R64>, STXXL_DEFAULT_ALLOC_STRATEGY> m(res, cmp, mm * BS); size_t take = quit == 3 ? r(n + 1) : n; for (size_t i = 0; i < take; ++i) ++m; } } }
        else if (kind == 1) { RP::sorted_runs_type res; { RP c(cmp, bytes(r, mb)); size_t stop = quit == 0 ? r(n + 1) : n; for (size_t i = 0; i < stop; ++i) c.push(in[i]); if (quit == 1) { c.clear(); held.exact(0, "after clear() of a run creator" + w); } else if (quit > 1) { res = c.result(); if (quit == 2) c.deallocate(); held.atmost(limit(mb / 2 * N), "by sorted runs" + w); } }
            if (res.valid()) { VP_CHECK(n <= N || vp::monitor_stat().live_bytes - held.live >= n / N * BS, "holds-too-little", "sorted runs do not outlive their creator" << w); if (quit > 3) { stream::runs_merger<RP::sorted_runs_type, Less<R64>, STXXL_DEFAULT_ALLOC_STRATEGY> m(res, cmp, mm * BS); size_t take = quit == 4 ? r(n + 1) : n; for (size_t i = 0; i < take; ++i) ++m; if (r.chance(1, 3)) m.deallocate(); if (r.chance(1, 3)) { RP::sorted_runs_type other = res; res = RP::sorted_runs_type(); } } } }
        else if (kind == 2) { RQ::sorted_runs_type res; { RQ c(cmp, bytes(r, mb)); for (size_t i = 0; i < n; ) { size_t len = std::min(n - i, 1 + (size_t)r(3 * N)); std::sort(in.begin() + i, in.begin() + i + len, cmp); for (size_t k = 0; k < len; ++k) { c.push(in[i + k]); if (quit == 0 && r.chance(1, 100)) { i = n; len = 0; } if (len == 0) break; } if (len) { c.finish(); i += len; } } if (quit > 0) res = c.result(); }
            if (res.valid() && quit > 2) { stream::runs_merger<RQ::sorted_runs_type, Less<R64>, STXXL_DEFAULT_ALLOC_STRATEGY> m(res, cmp, mm * BS); size_t take = quit == 3 ? r(n + 1) : n; for (size_t i = 0; i < take; ++i) ++m; } }
        else { typedef stream::sort<VecStream<R64>, Less<R64>, 4096> S; S s(st, cmp, bytes(r, mb + 4 * disks() + 3)); size_t take = quit < 3 ? r(n + 1) : n; for (size_t i = 0; i < take; ++i) ++s; }
        vp::count("stream_runs"); if (quit < 3) vp::count("abandoned");
    }
    held.none("after runs and mergers were gone" + w); vp::nontrivial(ctx.h);
}
VP_SCENARIO(held_pipeline, 80, 4000) { // vectors, streams and buffered readers and writers, abandoned anywhere
    vp::Rng& r = ctx.rng; Held held; size_t n = r.boundary(N, 20); std::vector<R64> in = input(r, n); unsigned kind = (unsigned)r(6); ctx.note(kind); ctx.note(n); std::string w = " (pipeline " + std::to_string(kind) + ", " + std::to_string(n) + " elements)"; uint64_t one = (n + N - 1) / N * BS;
    {
        V v(n); for (size_t i = 0; i < n; ++i) v[i] = in[i]; v.flush(); size_t stop = r(n + 1);
        switch (kind) {
        case 0: { typedef stream::streamify_traits<V::const_iterator>::stream_type S; const V& c = v; S s = stream::streamify(c.begin(), c.end(), (unsigned_type)r(6)); for (size_t i = 0; i < stop; ++i) ++s; break; }
        case 1: { V o(n); stream::streamify_traits<V::iterator>::stream_type s = stream::streamify(v.begin(), v.end()); stream::materialize(s, o.begin(), r(5)); held.exact(2 * one, "after materializing" + w); break; }
        case 2: { V::bufreader_type b(v); for (size_t i = 0; i < stop; ++i) ++b; break; }
        case 3: { V o; { V::bufwriter_type b(o); for (size_t i = 0; i < stop; ++i) b << in[i]; } VP_EQ((size_t)o.size(), stop, "writer-size", "size" << w); held.exact(one + o.capacity() / N * BS, "after buffered writing" + w); break; }
        case 4: { V o(n); if (n) { typedef typed_block<4096, R64> B; buf_ostream<B, V::bids_container_iterator> b(o.begin().bid(), 2 + r(3)); for (size_t i = 0; i < n; ++i) b << in[i]; b.fill(in[0]); } break; }
        default: { sequence<R64, 4096> q; for (size_t i = 0; i < n; ++i) q.push_back(in[i]); { sequence<R64, 4096>::stream s = q.get_stream(); for (size_t i = 0; i < stop; ++i) ++s; } { sequence<R64, 4096>::reverse_stream s = q.get_reverse_stream(); for (size_t i = 0; i < stop; ++i) ++s; } held.atmost(one + one + 3 * BS, "by a vector and a sequence" + w); } }
        held.exact(one, "by the vector after the pipeline" + w); vp::count("pipelines");
    }
    held.none("after the vector was destroyed" + w); vp::nontrivial(ctx.h);
}
