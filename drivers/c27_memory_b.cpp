#include "c27_memory.h"
// vectors, stacks, queues: the same history with n and with 4n elements, within the buffers they were given
using namespace stxxl; using namespace mem;
namespace {
const int grow = 4;
template <unsigned B, unsigned P, unsigned N> void vectors(vp::Ctx& ctx)
{
    warm(); typedef stxxl::vector<u64, P, lru_pager<N>, B> V; const u64 per = B / 8; const long long budget = (long long)N * P * B; u64 base = N * P * ctx.rng.range(2, 5); bool shadow = ctx.rng.chance(1, 2), random = ctx.rng.chance(1, 2); ctx.note(base * 4 + shadow * 2 + random); long long small = 0;
    for (int f = 1; f <= grow; f *= grow) {
        u64 blocks = base * (u64)f, n = blocks * per - ctx.rng(per); vp::Rng q(ctx.rng.next()); Meter m; { V v; if (shadow) v.resize(n); for (u64 i = 0; i < n; ++i) if (shadow) v[i] = i; else v.push_back(i);
            within("vector", "filling", m, budget, (long long)blocks); m.restart();
            if (random) for (int i = 0; i < 400; ++i) v[q(n)] = 7; else { u64 x = 0; for (typename V::const_iterator i = v.begin(); i != v.end(); ++i) x += *i; VP_CHECK(x > 0, "wrong content", "sum"); }
            within("vector", random ? "random access" : "scanning", m, budget, (long long)blocks);
            if (ctx.rng.chance(1, 2)) { V w(v); within("vector", "copying", m, 2 * budget + 8 * (long long)B, 2 * (long long)blocks, PER_BLOCK, SLACK + 2 * B); w.swap(v); }
            m.restart(); v.clear(); for (u64 i = 0; i < n / 2; ++i) v.push_back(i); within("vector", "again", m, budget, (long long)blocks);
            if (f == 1) small = m.top(); else VP_CHECK(m.top() - small <= PER_BLOCK * (long long)(blocks - base) + SLACK / 3, "memory grows vector", m.top() << " bytes for " << blocks << " blocks, " << small << " for " << base); }
        left("vector", "gone", m, 0, 0); }
    vp::nontrivial(ctx.h); vp::count("vectors");
}
// a sequence of pushes and pops that goes up to n and comes down to nothing, with oscillation on the way
template <class S, class Q> void ups_and_downs(S& s, u64 n, Q push, vp::Rng& q, bool drain)
{
    u64 size = 0; for (u64 i = 0; i < n; ) { u64 up = q.range(1, n / 3 + 1); for (u64 j = 0; j < up; ++j, ++i, ++size) push(s, i); u64 down = q(std::min<u64>(size, up / 2) + 1); for (u64 j = 0; j < down; ++j, --size) s.pop(); }
    if (drain) while (!s.empty()) s.pop();
}
template <class S> struct Push { void operator () (S& s, u64 x) const { s.push(x); } };
template <class S, class Make> void linear(vp::Ctx& ctx, const char* what, long long budget, unsigned B, Make mk, u64 least)
{
    warm(); const u64 per = B / 8; u64 base = least * ctx.rng.range(2, 4); long long small = 0; bool drain = ctx.rng.chance(1, 2); ctx.note(base * 2 + drain);
    for (int f = 1; f <= grow; f *= grow) {
        u64 blocks = base * (u64)f, n = blocks * per - ctx.rng(per); vp::Rng q(ctx.rng.next()); Meter m;
        mk([&](S& s) { ups_and_downs(s, n, Push<S>(), q, drain); });
        within(what, "up and down", m, budget, (long long)blocks * 2); if (f == 1) small = m.top(); else VP_CHECK(m.top() - small <= PER_BLOCK * 2 * (long long)(blocks - base) + SLACK / 3, std::string("memory grows ") + what, m.top() << " bytes for " << blocks << " blocks, " << small << " for " << base);
        left(what, "gone", m, 0, 0);
    }
    vp::nontrivial(ctx.h); vp::count("linear_containers");
}
template <unsigned B> void stacks(vp::Ctx& ctx)
{
    typedef typename STACK_GENERATOR<u64, external, normal, 4, B>::result S1; typedef typename STACK_GENERATOR<u64, external, grow_shrink, 4, B>::result S2; typedef typename STACK_GENERATOR<u64, external, grow_shrink2, 1, B>::result S3; typedef typename STACK_GENERATOR<u64, migrating, normal, 2, B, std::stack<u64>, 2000>::result S4;
    switch (ctx.rng(4)) {
    case 0: linear<S1>(ctx, "normal_stack", 2 * 4 * B, B, [](std::function<void (S1&)> f) { S1 s; f(s); }, 16); break;
    case 1: linear<S2>(ctx, "grow_shrink_stack", 2 * 4 * B, B, [](std::function<void (S2&)> f) { S2 s; f(s); }, 16); break;
    case 2: { u64 r = ctx.rng.range(1, 6), w = ctx.rng.range(1, 6), g = ctx.rng(r + 1); linear<S3>(ctx, "grow_shrink_stack2", (long long)(1 + r + w) * (B + ALIGN), B, [=](std::function<void (S3&)> f) { read_write_pool<typename S3::block_type> p(r, w); S3 s(p, g); f(s); }, 16); break; }
    default: linear<S4>(ctx, "migrating_stack", 2 * 2 * B + 2000 * 16, B, [](std::function<void (S4&)> f) { S4 s; f(s); }, 16); break;
    }
}
template <unsigned B> void queues(vp::Ctx& ctx)
{
    typedef stxxl::queue<u64, B> Q; u64 r = ctx.rng.range(1, 6), w = ctx.rng.range(4, 8); bool own = ctx.rng.chance(1, 2);
    linear<Q>(ctx, own ? "queue" : "queue with a pool", (long long)(2 + r + w) * (B + ALIGN), B, [=](std::function<void (Q&)> f) { if (own) { Q q((int)w, (int)r); f(q); } else { read_write_pool<typename Q::block_type> p(r, w); Q q(p); f(q); } }, 16);
}
template <unsigned B> void sequences(vp::Ctx& ctx)
{
    warm(); typedef stxxl::sequence<u64, B> S; const u64 per = B / 8; u64 r = ctx.rng.range(1, 6), w = ctx.rng.range(4, 8), base = ctx.rng.range(30, 60); const long long budget = (long long)(2 + r + w) * (B + ALIGN); ctx.note(base * 100 + r * 10 + w); long long small = 0;
    for (int f = 1; f <= grow; f *= grow) {
        u64 blocks = base * (u64)f, n = blocks * per - ctx.rng(per); Meter m; { S s((int)w, (int)r); u64 x = 0; int way = (int)ctx.rng(3);
            for (u64 i = 0; i < n; ++i) if (way == 0 || (way == 2 && (i & 1))) s.push_back(i); else s.push_front(i);
            within("sequence", "pushing", m, budget, (long long)blocks); m.restart();
            if (ctx.rng.chance(1, 2)) { typename S::stream st = s.get_stream(); while (!st.empty()) { x += *st; ++st; } within("sequence", "stream", m, budget + (2 + (long long)(r + w)) * (B + ALIGN), (long long)blocks); }
            m.restart(); while (!s.empty()) { x += s.front(); if (way == 1) s.pop_back(); else s.pop_front(); } within("sequence", "popping", m, budget, (long long)blocks); VP_CHECK(x > 0, "wrong content", "sum");
            if (f == 1) small = m.top(); else VP_CHECK(m.top() - small <= PER_BLOCK * (long long)(blocks - base) + SLACK / 3, "memory grows sequence", m.top() << " bytes for " << blocks << " blocks, " << small << " for " << base); }
        left("sequence", "gone", m, 0, 0); }
    vp::nontrivial(ctx.h); vp::count("linear_containers");
}
template <unsigned B> void deques(vp::Ctx& ctx)
{
    warm(); typedef stxxl::vector<u64, 1, lru_pager<4>, B> V; typedef stxxl::deque<u64, V> D; const u64 per = B / 8; const long long budget = 4 * B; u64 base = ctx.rng.range(20, 50); ctx.note(base);
    for (int f = 1; f <= grow; f *= grow) {
        u64 blocks = base * (u64)f, n = blocks * per; Meter m; { D d; for (u64 i = 0; i < n; ++i) if (i % 3) d.push_back(i); else d.push_front(i); within("deque", "pushing", m, 2 * budget + 8 * (long long)B, 4 * (long long)blocks); m.restart();
            left("deque", "filled", m, budget, 4 * (long long)blocks); while (d.size() > 5) { d.pop_front(); d.pop_back(); } within("deque", "popping", m, budget, 4 * (long long)blocks); }
        left("deque", "gone", m, 0, 0); }
    vp::nontrivial(ctx.h); vp::count("linear_containers");
}
void vectors_a(vp::Ctx& c) { vectors<16384, 1, 8>(c); } void vectors_b(vp::Ctx& c) { vectors<32768, 4, 2>(c); }
void stacks_a(vp::Ctx& c) { stacks<16384>(c); } void stacks_b(vp::Ctx& c) { stacks<32768>(c); }
void queues_a(vp::Ctx& c) { queues<16384>(c); } void queues_b(vp::Ctx& c) { queues<32768>(c); }
}
VP_SCENARIO(vectors_small, 9, 120) { vectors_a(ctx); }
VP_SCENARIO(vectors_large, 9, 120) { vectors_b(ctx); }
VP_SCENARIO(stacks_small, 15, 180) { stacks_a(ctx); }
VP_SCENARIO(stacks_large, 9, 120) { stacks_b(ctx); }
VP_SCENARIO(queues_small, 9, 120) { queues_a(ctx); }
VP_SCENARIO(queues_large, 9, 120) { queues_b(ctx); }
VP_SCENARIO(sequences_, 12, 120) { sequences<16384>(ctx); }
VP_SCENARIO(deques_, 9, 90) { deques<16384>(ctx); }
