// C04: I/O statistics against the driver's own log of requests and of the time the system calls took.
#include "io_files.h"
#include <stxxl/vector>
#include <stxxl/timer>
#include <algorithm>
#include <memory>
#include <map>
#include <chrono>
using namespace stxxl;

namespace {
typedef std::vector<std::pair<double, double> > Ivs;
double total(const Ivs& v) { double s = 0; for (auto& i : v) s += i.second - i.first; return s; }
double measure(Ivs v) { std::sort(v.begin(), v.end()); double s = 0, e = -1; for (auto& i : v) { double a = std::max(i.first, e); if (i.second > a) { s += i.second - a; e = i.second; } } return s; }

stats_data snap() { return stats_data(*stats::get_instance()); }
struct Log { std::atomic<uint64_t> nr, nw, vr, vw; Log() : nr(0), nw(0), vr(0), vw(0) { } void add(bool w, uint64_t b) { if (w) { ++nw; vw += b; } else { ++nr; vr += b; } } };
void counts_equal(const stats_data& d, Log& l, const char* where) {
    VP_EQ((uint64_t)d.get_reads(), (uint64_t)l.nr, "stats-reads", where << ": number of reads");
    VP_EQ((uint64_t)d.get_writes(), (uint64_t)l.nw, "stats-writes", where << ": number of writes");
    VP_EQ((uint64_t)d.get_read_volume(), (uint64_t)l.vr, "stats-read-volume", where << ": bytes read");
    VP_EQ((uint64_t)d.get_written_volume(), (uint64_t)l.vw, "stats-write-volume", where << ": bytes written");
}
const double EPS = 2e-3;
void sane_times(const stats_data& d, double wall, double tol, const char* where) {
#define NONNEG(g) VP_CHECK(d.g() >= -EPS, "stats-negative-time", where << ": " #g " is " << d.g())
    NONNEG(get_read_time); NONNEG(get_write_time); NONNEG(get_pread_time); NONNEG(get_pwrite_time); NONNEG(get_pio_time); NONNEG(get_io_wait_time); NONNEG(get_wait_read_time); NONNEG(get_wait_write_time); NONNEG(get_elapsed_time);
    VP_CHECK(d.get_pread_time() <= d.get_read_time() + tol, "stats-parallel-time", where << ": parallel read time " << d.get_pread_time() << " > summed " << d.get_read_time());
    VP_CHECK(d.get_pwrite_time() <= d.get_write_time() + tol, "stats-parallel-time", where << ": parallel write time " << d.get_pwrite_time() << " > summed " << d.get_write_time());
    VP_CHECK(d.get_pio_time() <= d.get_pread_time() + d.get_pwrite_time() + tol, "stats-parallel-time", where << ": parallel I/O time " << d.get_pio_time() << " > " << d.get_pread_time() << " + " << d.get_pwrite_time());
    VP_CHECK(d.get_pio_time() + tol >= std::max(d.get_pread_time(), d.get_pwrite_time()), "stats-parallel-time", where << ": parallel I/O time " << d.get_pio_time() << " below parallel read or write time");
    VP_CHECK(d.get_pio_time() <= d.get_elapsed_time() + tol, "stats-elapsed", where << ": parallel I/O time " << d.get_pio_time() << " > elapsed " << d.get_elapsed_time());
    VP_CHECK(d.get_elapsed_time() <= wall + tol && d.get_elapsed_time() >= 0, "stats-elapsed", where << ": elapsed " << d.get_elapsed_time() << " but the interval took at most " << wall);
    double wsum = d.get_wait_read_time() + d.get_wait_write_time();
    VP_CHECK(d.get_io_wait_time() >= wsum - tol && d.get_io_wait_time() <= wsum + tol, "stats-wait-split", where << ": wait time " << d.get_io_wait_time() << " is not the sum of read and write waits " << wsum);
}

// the system is short of resources now and then, and moves less than asked for
struct DisturbPlan : public vp::FaultPlan {
    std::mutex m; vp::Rng r; std::atomic<uint64_t> again, part;
    explicit DisturbPlan(uint64_t s) : r(s), again(0), part(0) { }
    vp::Fault on_call(const char* op, int, uint64_t size, const void* buf, uint64_t) {
        vp::Fault f; std::string o(op); std::unique_lock<std::mutex> l(m);
        if (o == "io_submit") { if (r.chance(1, 3)) { f.kind = vp::Fault::ERR; f.err = EAGAIN; ++again; } return f; }
        if (!buf || (o != "read" && o != "write" && o != "aio_read" && o != "aio_write") || !r.chance(1, 3)) return f;
        size_t a = size % 4096 || (uintptr_t)buf % 4096 ? 1 : 4096; if (size <= a) return f;
        f.kind = vp::Fault::SHORT; f.len = r.range(1, (size - 1) / a) * a; ++part; return f;
    }
};
// counts and volumes with several threads, queues and cancellations
void counting(vp::Ctx& ctx) {
    vp::Rng& r = ctx.rng;
    Kind kinds[] = { K_SYSCALL, K_SYSCALL_DIRECT, K_LINUXAIO, K_MMAP, K_MEM, K_FPB_SYSCALL, K_LINUXAIO_DIRECT, K_FPB_MMAP };
    std::vector<FileUnderTest> fs; struct G { std::vector<FileUnderTest>& f; ~G() { for (auto& u : f) delete u.f; } } g = { fs };
    unsigned nf = (unsigned)r.range(1, 4), nthr = (unsigned)r.range(1, 4);
    for (unsigned i = 0; i < nf; ++i) { Kind k = kinds[r(8)]; fs.push_back(make_file(ctx, k, (int)(30 + r(3)))); fs.back().f->set_size(64 * 4096); vp::cov("access_method", kind_name[k]); ctx.note(k); }
    ctx.note(nthr);
    // fileperblock files need existing blocks before reading
    { Buf b(4096); memset(b.p, 0, 4096); for (auto& u : fs) if (u.blockwise) for (unsigned i = 0; i < 64; ++i) u.f->awrite(b.p, i * 4096, 4096)->wait(); }
    double w0 = timestamp(); stats_data before = snap();
    Log log; std::atomic<uint64_t> cancelled(0); DisturbPlan dp(r.next());
    {
        std::unique_ptr<PlanGuard> pg(r.chance(1, 2) ? new PlanGuard(&dp) : NULL);
        std::vector<std::thread> th; struct J { std::vector<std::thread>& t; ~J() { for (auto& x : t) x.join(); } } j = { th };
        for (unsigned t = 0; t < nthr; ++t) {
            uint64_t seed = r.next(); unsigned n = (unsigned)r.range(4, 40);
            th.emplace_back([&fs, &log, &cancelled, seed, n] {
                vp::Rng q(seed); std::vector<std::unique_ptr<Buf> > bufs; struct P { request_ptr r; bool w; uint64_t n; }; std::vector<P> pend;
                for (unsigned i = 0; i < n; ++i) {
                    FileUnderTest& u = fs[q(fs.size())]; uint64_t bytes = u.blockwise ? 4096 : 4096 * q.range(1, 4); if (u.align == 1) bytes -= q(4000);
                    uint64_t off = q(60) * 4096; bool w = q.chance(1, 2); bufs.emplace_back(new Buf(4096 * 4)); memset(bufs.back()->p, 1, 4096 * 4);
                    P p = { w ? u.f->awrite(bufs.back()->p, off, bytes) : u.f->aread(bufs.back()->p, off, bytes), w, bytes };
                    if (q.chance(1, 6)) { if (p.r->cancel()) { ++cancelled; p.r->wait(); continue; } }
                    log.add(w, bytes); pend.push_back(p);
                    if (q.chance(1, 4)) { for (auto& x : pend) x.r->wait(q.chance(1, 2)); pend.clear(); }
                }
                for (auto& x : pend) x.r->wait();
            });
        }
    }
    double w1 = timestamp();
    stats_data d = snap() - before;
    counts_equal(d, log, "requests");
    sane_times(d, timestamp() - w0, 0.05, "requests"); (void)w1;
    vp::count("requests_logged", log.nr + log.nw); vp::count("requests_cancelled", cancelled); vp::count("submissions_repeated", dp.again); vp::count("partial_transfers", dp.part);
    // printed report agrees
    std::ostringstream os; os << d; std::string s = os.str();
    auto num = [&](const char* key) -> uint64_t { size_t p = s.find(key); VP_CHECK(p != std::string::npos, "stats-print", "no line '" << key << "'"); p = s.find(':', p); return strtoull(s.c_str() + p + 1, NULL, 10); };
    VP_EQ(num("total number of reads"), (uint64_t)log.nr, "stats-print", "printed reads"); VP_EQ(num("total number of writes"), (uint64_t)log.nw, "stats-print", "printed writes");
    VP_EQ(num("number of bytes read from disks"), (uint64_t)log.vr, "stats-print", "printed bytes read"); VP_EQ(num("number of bytes written to disks"), (uint64_t)log.vw, "stats-print", "printed bytes written");
    vp::nontrivial(vp::hash_combine(ctx.h, log.nr * 1000 + log.nw));
}

// each system call takes a planned time; the reported times must lie between what the calls took and what the callers saw
struct SleepPlan : public vp::FaultPlan {
    std::mutex m; unsigned us_lo, us_hi; vp::Rng r; Ivs rd, wr; std::map<const char*, std::pair<double, double> > by_buf; uint64_t calls;
    SleepPlan(uint64_t s, unsigned a, unsigned b) : us_lo(a), us_hi(b), r(s), calls(0) { }
    vp::Fault on_call(const char* op, int, uint64_t, const void* buf, uint64_t) {
        vp::Fault f; std::string o(op);
        if (o == "io_submit") { return f; }
        bool w = o == "write"; if (!w && o != "read") return f;
        unsigned us; { std::unique_lock<std::mutex> l(m); us = (unsigned)r.range(us_lo, us_hi); ++calls; }
        double a = timestamp(); std::this_thread::sleep_for(std::chrono::microseconds(us)); double b = timestamp();
        std::unique_lock<std::mutex> l(m); (w ? wr : rd).push_back(std::make_pair(a, b)); by_buf[(const char*)buf] = std::make_pair(a, b);
        return f;
    }
};

// false: less waiting was accounted than expected, but a caller may have been suspended before it began to wait
bool timing_once(vp::Ctx& ctx, bool last) {
    vp::Rng& r = ctx.rng; bool serial = r.chance(1, 2); unsigned nf = serial ? 1 : (unsigned)r.range(1, 4); ctx.note(nf * 2 + serial);
    std::vector<FileUnderTest> fs; struct G { std::vector<FileUnderTest>& f; ~G() { for (auto& u : f) delete u.f; } } g = { fs };
    for (unsigned i = 0; i < nf; ++i) { fs.push_back(make_file(ctx, r.chance(1, 3) ? K_SYSCALL_DIRECT : K_SYSCALL, (int)(30 + i))); fs.back().f->set_size(64 * 4096); }
    SleepPlan plan(r.next(), 500, 6000); unsigned n = (unsigned)r.range(4, 24); unsigned style = (unsigned)r(4); ctx.note(style);
    struct Q { request_ptr q; bool w; double t0, t1, wa, wb; std::unique_ptr<Buf> b; bool waited; }; std::vector<Q> qs(n);
    Ivs waits_r, waits_w; Log log;
    double w0 = timestamp(); stats_data before = snap();
    {
        PlanGuard pg(&plan);
        auto submit = [&](Q& q) { q.b.reset(new Buf(4096)); memset(q.b->p, 3, 4096); q.w = r.chance(1, 2); log.add(q.w, 4096); file* f = fs[r(nf)].f; q.t0 = timestamp(); q.q = q.w ? f->awrite(q.b->p, r(64) * 4096, 4096) : f->aread(q.b->p, r(64) * 4096, 4096); };
        auto dowait = [&](Q& q, bool measured) { q.wa = timestamp(); q.q->wait(measured); q.wb = q.t1 = timestamp(); q.waited = measured; if (measured) (q.w ? waits_w : waits_r).push_back(std::make_pair(q.wa, q.wb)); };
        if (serial) for (auto& q : qs) { submit(q); dowait(q, r.chance(3, 4)); }
        else if (style < 3) { for (auto& q : qs) submit(q); for (auto& q : qs) dowait(q, style != 0); }
        else { // waiting in several threads at once
            for (auto& q : qs) submit(q);
            std::vector<std::thread> th; std::vector<Ivs> wr(3), ww(3);
            for (unsigned t = 0; t < 3; ++t) th.emplace_back([&, t] { for (unsigned i = t; i < n; i += 3) { Q& q = qs[i]; q.wa = timestamp(); q.q->wait(); q.wb = q.t1 = timestamp(); q.waited = true; (q.w ? ww : wr)[t].push_back(std::make_pair(q.wa, q.wb)); } });
            for (auto& x : th) x.join();
            for (unsigned t = 0; t < 3; ++t) { waits_r.insert(waits_r.end(), wr[t].begin(), wr[t].end()); waits_w.insert(waits_w.end(), ww[t].begin(), ww[t].end()); }
        }
    }
    stats_data d = snap() - before; double wall = timestamp() - w0;
    double tol = serial ? EPS : 0.04;
    counts_equal(d, log, serial ? "timed serial" : "timed parallel");
    sane_times(d, wall, tol, serial ? "timed serial" : "timed parallel");
    Ivs ur, uw, ua, la; for (auto& q : qs) { (q.w ? uw : ur).push_back(std::make_pair(q.t0, q.t1)); ua.push_back(std::make_pair(q.t0, q.t1)); }
    la = plan.rd; la.insert(la.end(), plan.wr.begin(), plan.wr.end());
#define BETWEEN(val, lo, hi, t, what) VP_CHECK((val) >= (lo) - (t) && (val) <= (hi) + (t), "stats-time", what << " is " << (val) << ", but the system calls took " << (lo) << " and the callers saw " << (hi) << (serial ? " (serial)" : " (parallel)") << " with " << n << " requests")
    BETWEEN(d.get_read_time(), total(plan.rd), total(ur), EPS, "summed read time"); BETWEEN(d.get_write_time(), total(plan.wr), total(uw), EPS, "summed write time");
    BETWEEN(d.get_pread_time(), measure(plan.rd), measure(ur), tol, "parallel read time"); BETWEEN(d.get_pwrite_time(), measure(plan.wr), measure(uw), tol, "parallel write time");
    BETWEEN(d.get_pio_time(), measure(la), measure(ua), tol, "parallel I/O time");
    // waits: at least until the system call of the request was over
    double lr = 0, lw = 0; for (auto& q : qs) if (q.waited) { double e = plan.by_buf[q.b->p].second; double x = std::max(0.0, e - q.wa - 1e-3); (q.w ? lw : lr) += x; }
    if (!last && (d.get_wait_read_time() < lr - EPS || d.get_wait_write_time() < lw - EPS || d.get_io_wait_time() < lr + lw - EPS)) { vp::count("timings_repeated"); return false; }
    if (plan.by_buf.size() == n) { BETWEEN(d.get_wait_read_time(), lr, total(waits_r), EPS, "read wait time"); BETWEEN(d.get_wait_write_time(), lw, total(waits_w), EPS, "write wait time"); BETWEEN(d.get_io_wait_time(), lr + lw, total(waits_r) + total(waits_w), EPS, "wait time"); vp::count("wait_time_checks"); }
    vp::count("timed_requests", n); vp::count(serial ? "serial_timings" : "parallel_timings"); vp::nontrivial(vp::hash_combine(ctx.h, n * 64 + log.nr));
    return true;
}

// the same run again, up to six times: what is missing each time was not accounted
template <class F> void retry(vp::Ctx& ctx, F f) { vp::Rng saved = ctx.rng; for (int a = 0; ; ++a) { ctx.rng = saved; if (f(ctx, a == 5)) return; } }
void timing(vp::Ctx& ctx) { retry(ctx, timing_once); }
// wait_any is accounted as a wait
bool timing_any_once(vp::Ctx& ctx, bool last) {
    vp::Rng& r = ctx.rng; FileUnderTest u = make_file(ctx, K_SYSCALL, 30); struct G { file* f; ~G() { delete f; } } g = { u.f }; u.f->set_size(64 * 4096);
    SleepPlan plan(r.next(), 2000, 5000); unsigned n = (unsigned)r.range(1, 6); std::vector<std::unique_ptr<Buf> > b; std::vector<request_ptr> q; double hi = 0;
    stats_data before = snap();
    { PlanGuard pg(&plan);
      for (unsigned i = 0; i < n; ++i) { b.emplace_back(new Buf(4096)); q.push_back(u.f->awrite(b[i]->p, i * 4096, 4096)); }
      while (!q.empty()) {
          double a = timestamp(); std::vector<request_ptr>::iterator it = wait_any(q.begin(), q.end()); double e = timestamp(); hi += e - a; (*it)->wait(false); q.erase(it); }
    }
    stats_data d = snap() - before;
    // polls may find requests finished without waiting, but all but a sliver of the time was spent inside wait_any
    VP_CHECK(d.get_io_wait_time() <= hi + EPS, "stats-time", "wait_any() accounted " << d.get_io_wait_time() << " s of waiting, the calls took " << hi);
    if (!last && d.get_io_wait_time() < hi - 0.01) { vp::count("timings_repeated"); return false; }
    VP_CHECK(d.get_io_wait_time() >= hi - 0.01, "stats-time", "wait_any() accounted " << d.get_io_wait_time() << " s of waiting, the calls took " << hi);
    vp::count("wait_any_timings"); vp::nontrivial(vp::hash_combine(ctx.h, n)); return true;
}
void timing_any(vp::Ctx& ctx) { retry(ctx, timing_any_once); }

void fill(stats_data& s, Log& l, FileUnderTest& u, vp::Rng& r) {
    Buf b(8192); memset(b.p, 1, 8192); unsigned n = (unsigned)r.range(0, 6);
    stats_data a = snap(); for (unsigned i = 0; i < n; ++i) { bool w = r.chance(1, 2); uint64_t len = r.range(1, 8192); if (w) u.f->awrite(b.p, r(8192), len)->wait(); else u.f->aread(b.p, r(8192), len)->wait(); l.add(w, len); } s = snap() - a;
}
#define ALLTIMES(X) X(get_read_time) X(get_write_time) X(get_pread_time) X(get_pwrite_time) X(get_pio_time) X(get_io_wait_time) X(get_wait_read_time) X(get_wait_write_time) X(get_elapsed_time)
#define ALLCOUNTS(X) X(get_reads) X(get_writes) X(get_read_volume) X(get_written_volume) X(get_cached_reads) X(get_cached_writes) X(get_cached_read_volume) X(get_cached_written_volume)
void arithmetic(vp::Ctx& ctx) {
    vp::Rng& r = ctx.rng; FileUnderTest u = make_file(ctx, K_SYSCALL, 30), wb = make_file(ctx, K_WBTL, 31); struct G { file* f, * g; ~G() { delete f; delete g; } } g = { u.f, wb.f }; u.f->set_size(32768); wb.f->set_size(64 * 4096);
    std::vector<stats_data> v; Log logs[6]; unsigned n = (unsigned)r.range(2, 6);
    stats_data zero; 
#define Z(gt) VP_EQ((double)zero.gt(), 0.0, "stats-arithmetic", "default " #gt);
    ALLTIMES(Z) ALLCOUNTS(Z)
    for (unsigned i = 0; i < n; ++i) { stats_data s; fill(s, logs[i], u, r); v.push_back(s); counts_equal(s, logs[i], "interval"); }
    { // cached transfers: blocks of the buffer being filled, and of the one before it
        stats_data a = snap(); Buf b(4096); uint64_t nr = 0, nw = 0, all = r.range(2, 4 + 4 / 2);
        for (uint64_t i = 0; i < all; ++i) {
            memset(b.p, (int)(i % 250) + 1, 4096); wb.f->awrite(b.p, i * 4096, 4096)->wait(); ++nw;
            if (r.chance(1, 4) || i + 1 == all) for (unsigned q = (unsigned)r.range(1, 4); q > 0; --q) { uint64_t back = r(std::min<uint64_t>(i + 1, 4)), x = i - back; memset(b.p, 0, 4096); wb.f->aread(b.p, x * 4096, 4096)->wait(); ++nr; if (i / 4 != x / 4) vp::count("cached_in_previous_buffer"); VP_EQ((int)(unsigned char)b.p[0], (int)(x % 250) + 1, "stats-cached", "cached block"); }
        }
        stats_data d = snap() - a; v.push_back(d);
        VP_EQ((uint64_t)d.get_cached_writes(), nw, "stats-cached", "cached writes"); VP_EQ((uint64_t)d.get_cached_written_volume(), nw * 4096, "stats-cached", "cached bytes written");
        VP_EQ((uint64_t)d.get_cached_reads(), nr, "stats-cached", "cached reads"); VP_EQ((uint64_t)d.get_cached_read_volume(), nr * 4096, "stats-cached", "cached bytes read");
        VP_EQ((uint64_t)d.get_reads(), (uint64_t)0, "stats-cached", "reads that were answered from the write buffers"); vp::count("cached_transfers", nr + nw); delete g.g; g.g = NULL; } // and nothing is under way any more
    v.push_back(snap());
    for (unsigned k = 0; k < 20; ++k) {
        stats_data& a = v[r(v.size())]; stats_data& b = v[r(v.size())]; stats_data s = a + b, d = a - b, back = (a + b) - b;
#define S(gt) VP_CHECK(s.gt() == a.gt() + b.gt(), "stats-arithmetic", #gt " of a sum is " << s.gt() << ", expected " << a.gt() + b.gt()); VP_CHECK(d.gt() == a.gt() - b.gt(), "stats-arithmetic", #gt " of a difference is " << d.gt() << ", expected " << a.gt() - b.gt());
        ALLTIMES(S) ALLCOUNTS(S)
#define E(gt) VP_CHECK(back.gt() == a.gt(), "stats-arithmetic", #gt " of (a+b)-b differs");
        ALLCOUNTS(E) vp::count("snapshot_operations", 3);
    }
    // components agree with the live object
    stats* st = stats::get_instance(); stats_data now(*st);
#define L(gt) VP_CHECK(now.gt() == st->gt(), "stats-arithmetic", #gt " of a snapshot differs from the statistics object");
    L(get_read_time) L(get_write_time) L(get_pread_time) L(get_pwrite_time) L(get_pio_time) L(get_io_wait_time) L(get_wait_read_time) L(get_wait_write_time) ALLCOUNTS(L)
    if (r.chance(1, 4)) {
        st->reset(); double t = timestamp(); stats_data z(*st);
#define R(gt) VP_CHECK(z.gt() == 0, "stats-reset", #gt " is " << z.gt() << " after reset");
        ALLCOUNTS(R) R(get_read_time) R(get_write_time) R(get_pread_time) R(get_pwrite_time) R(get_pio_time) R(get_io_wait_time) R(get_wait_read_time) R(get_wait_write_time)
        VP_CHECK(z.get_elapsed_time() >= 0 && z.get_elapsed_time() < 5.0, "stats-reset", "elapsed " << z.get_elapsed_time() << " right after reset"); (void)t; vp::count("resets");
        Log l; stats_data s; fill(s, l, u, r); counts_equal(s, l, "after reset"); Log l2; l2.nr = (uint64_t)l.nr; l2.nw = (uint64_t)l.nw; l2.vr = (uint64_t)l.vr; l2.vw = (uint64_t)l.vw; counts_equal(snap(), l2, "totals after reset");
    }
    vp::nontrivial(vp::hash_combine(ctx.h, vp::hash_combine(logs[0].vr, logs[0].vw + n)));
}

// transfers of containers: statistics against what was submitted for managed blocks
void containers(vp::Ctx& ctx) {
    vp::Rng& r = ctx.rng; typedef stxxl::VECTOR_GENERATOR<uint64_t, 2, 2, 4096>::result V;
    stats_data a = snap(); vp::MonStat m0 = vp::monitor_stat();
    { V v; size_t n = r.range(1, 40000); for (size_t i = 0; i < n; ++i) v.push_back(i); v.flush(); uint64_t s = 0; for (unsigned i = 0; i < 50; ++i) s += v[r(n)]; const V& cv = v; for (size_t i = 0; i < n; i += 500) s += cv[i]; ctx.note(n + (s & 0)); }
    vp::MonStat m1 = vp::monitor_stat(); stats_data d = snap() - a;
    Log l; l.nr = m1.reads - m0.reads; l.nw = m1.writes - m0.writes; l.vr = l.nr * 4096; l.vw = l.nw * 4096;
    counts_equal(d, l, "vector"); vp::count("container_transfers", l.nr + l.nw); vp::nontrivial(ctx.h);
}
}
VP_SCENARIO(counting, 400, 6000) { counting(ctx); }
VP_SCENARIO(timing, 320, 4000) { timing(ctx); }
VP_SCENARIO(timing_any, 64, 600) { timing_any(ctx); }
VP_SCENARIO(arithmetic, 600, 6000) { arithmetic(ctx); }
VP_SCENARIO(containers, 120, 1200) { containers(ctx); }
