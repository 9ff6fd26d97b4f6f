// C02: life cycle of I/O requests, observed through gate-controlled files and completion handlers.
#include "io_files.h"
#include <stxxl/bits/io/request_queue_impl_1q.h>
#include <stxxl/bits/io/request_queue_impl_qwqr.h>
#include <condition_variable>
#include <memory>
#include <chrono>
using namespace stxxl;

namespace {
struct Rec {
    std::atomic<int> served, handler, handler_done, bad_arg; std::atomic<const request*> arg; bool write; bool fails; bool cancelled; request_ptr req; char buf[64];
    Rec() : served(0), handler(0), handler_done(0), bad_arg(0), arg(NULL), write(false), fails(false), cancelled(false) { }
};
// a file whose transfers are let through one by one
class GateFile : public disk_queued_file {
public:
    std::mutex m; std::condition_variable cv; std::vector<char> open; bool all_open; unsigned in_serve; std::vector<Rec*>& recs;
    GateFile(int q, std::vector<Rec*>& r, bool allopen) : disk_queued_file(q, -1), all_open(allopen), in_serve(0), recs(r) { }
    void release(size_t i) { std::unique_lock<std::mutex> l(m); if (open.size() <= i) open.resize(i + 1, 0); open[i] = 1; cv.notify_all(); }
    void release_all() { std::unique_lock<std::mutex> l(m); all_open = true; cv.notify_all(); }
    void serve(void*, offset_type off, size_type, request::request_type) {
        std::unique_lock<std::mutex> l(m);
        ++in_serve;
        while (!all_open && !(off < open.size() && open[off])) cv.wait(l);
        --in_serve;
        bool f = recs[off]->fails;
        ++recs[off]->served;
        l.unlock();
        vp::jitter_point();
        if (f) STXXL_THROW(io_error, "injected failure of request " << off);
    }
    void set_size(offset_type) { } offset_type size() { return 0; } void lock() { } const char* io_type() const { return "gate"; }
};
struct Handler { Rec* r; explicit Handler(Rec* x) : r(x) { } void operator () (request* q) { ++r->handler; r->arg = q; vp::jitter_point(); ++r->handler_done; } };

void chk(bool ok, const char* key, const std::string& m) { if (!ok) vp::fail_async(key, m); }
// true if the wait reported an error
bool do_wait(request_ptr& q) { try { q->wait(); return false; } catch (io_error&) { return true; } }
bool safe_poll(request_ptr& q) { try { return q->poll(); } catch (io_error&) { return true; } }
void after_wait(Rec& r, bool err, const char* how) {
    if (r.cancelled) return;
    chk(r.served == 1, "req-wait-early", std::string(how) + " returned but the transfer was served " + std::to_string(r.served) + " times");
    chk(r.handler_done == 1 && r.handler == 1, "req-handler", std::string(how) + " returned but the completion handler ran " + std::to_string(r.handler) + " times (" + std::to_string(r.handler_done) + " finished)");
    chk(r.arg == r.req.get(), "req-handler-arg", "completion handler got another request");
    chk(err == r.fails, "req-error", std::string(how) + (err ? " threw for a request that did not fail" : " did not throw for a failed request"));
    chk(safe_poll(r.req), "req-poll", "poll() false after wait");
}

struct Set {
    std::vector<Rec*> recs; std::vector<GateFile*> files; std::vector<size_t> fileof;
    ~Set() {
        for (auto f : files) f->release_all();
        for (auto r : recs) if (!r->req.empty()) do_wait(r->req);
        // workers may hold their reference a moment longer
        for (auto r : recs) delete r;
        for (auto f : files) delete f;
    }
    void submit(vp::Ctx& c, size_t fi, bool write, bool fails) {
        (void)c;
        Rec* r = new Rec; r->write = write; r->fails = fails; size_t id = recs.size(); recs.push_back(r); fileof.push_back(fi);
        if (write) r->req = files[fi]->awrite(r->buf, id, 64, Handler(r)); else r->req = files[fi]->aread(r->buf, id, 64, Handler(r));
    }
};

// waiters on gated requests: nobody wakes early, everybody wakes at the end
void gated(vp::Ctx& ctx) {
    vp::Rng& r = ctx.rng;
    Set s; unsigned nf = (unsigned)r.range(1, 3);
    // submission below holds a stable vector: reserve so the serving threads may index it
    s.recs.reserve(64);
    for (unsigned i = 0; i < nf; ++i) s.files.push_back(new GateFile((int)(40 + r(3)), s.recs, false));
    unsigned n = (unsigned)r.range(1, 16);
    for (unsigned i = 0; i < n; ++i) s.submit(ctx, r(nf), r.chance(1, 2), r.chance(1, 8));
    // only one waiter thread uses a request_ptr object at a time, each has copies
    std::vector<std::thread> th; std::atomic<unsigned> finished(0);
    std::atomic<bool> anydone(false), alldone(false);
    struct Join { std::vector<std::thread>& t; Set& s; ~Join() { for (auto f : s.files) f->release_all(); for (auto& x : t) x.join(); } };
    std::vector<size_t> cancel_ids;
    {
        Join j = { th, s };
        std::vector<request_ptr> all; for (auto x : s.recs) all.push_back(x->req);
        size_t a = r(n), b = r.range(a + 1, n);
        // cancel some first: they may or may not still be queued
        unsigned nc = r.chance(1, 2) ? (unsigned)r(n + 1) : 0;
        for (unsigned i = 0; i < nc; ++i) { size_t k = r(n); Rec& x = *s.recs[k]; if (x.cancelled) continue; if (x.req->cancel()) { x.cancelled = true; vp::count("cancelled"); VP_CHECK(x.served == 0, "req-cancel-served", "a cancelled request had been served"); VP_CHECK(safe_poll(x.req), "req-cancel-poll", "a cancelled request is not reported as finished"); VP_CHECK(!x.req->cancel(), "req-cancel-twice", "request cancelled twice"); } else vp::count("cancel_refused"); }
        bool range_has_cancelled = false; for (size_t i = a; i < b; ++i) range_has_cancelled |= s.recs[i]->cancelled;
        th.emplace_back([&, a, b] { // wait_any on a range
            std::vector<request_ptr> mine(all.begin() + a, all.begin() + b); bool err = false; size_t k = 0; std::vector<request_ptr>::iterator it = mine.begin();
            try { if (a & 1) it = wait_any(mine.begin(), mine.end()); else it = mine.begin() + wait_any(&mine[0], mine.size()); k = it - mine.begin(); } catch (io_error&) { err = true; }
            anydone = true;
            if (!err) { chk(k < mine.size(), "req-wait-any-index", "wait_any returned the end although requests were given"); if (k < mine.size()) { Rec& x = *s.recs[a + k]; chk(x.cancelled || x.served == 1, "req-wait-any-early", "wait_any named a request that has not been served"); chk(safe_poll(mine[k]), "req-wait-any-poll", "wait_any named an unfinished request"); } }
            else { bool some = false; for (size_t i = a; i < b; ++i) some |= s.recs[i]->fails && s.recs[i]->served == 1; chk(some, "req-wait-any-error", "wait_any threw but no request of the range has failed"); }
            vp::count("wait_any_returns"); ++finished; });
        bool anyfail = false; for (auto x : s.recs) anyfail |= x->fails && !x->cancelled;
        if (!anyfail) th.emplace_back([&] { std::vector<request_ptr> mine(all); try { if (mine.size() & 1) wait_all(mine.begin(), mine.end()); else wait_all(&mine[0], mine.size()); } catch (io_error&) { chk(false, "req-error", "wait_all threw although nothing failed"); } alldone = true; for (auto x : s.recs) after_wait(*x, false, "wait_all"); vp::count("wait_all_returns"); ++finished; });
        for (unsigned w = 0; w < 2; ++w) { size_t k = r(n); th.emplace_back([&, k] { request_ptr q = all[k]; bool e = do_wait(q); after_wait(*s.recs[k], e, "wait"); vp::count("wait_returns"); ++finished; }); }
        th.emplace_back([&] { std::vector<request_ptr> mine(all); std::vector<char> done(mine.size(), 0); for (unsigned it = 0; it < 40; ++it) { for (size_t i = 0; i < mine.size(); ++i) { bool p = safe_poll(mine[i]); chk(p || !done[i], "req-poll-back", "poll() went back to unfinished"); if (p) { done[i] = 1; chk(s.recs[i]->cancelled || s.recs[i]->served == 1, "req-poll-early", "poll() true before the transfer was served"); } } vp::jitter_point(); std::this_thread::yield(); } vp::count("poll_rounds", 40); ++finished; });
        // nothing has been let through yet
        std::this_thread::sleep_for(std::chrono::microseconds(300));
        if (!range_has_cancelled) VP_CHECK(!anydone, "req-wait-any-early", "wait_any returned before any request was served");
        unsigned ncanc = 0; for (auto x : s.recs) ncanc += x->cancelled;
        if (ncanc < n) VP_CHECK(!alldone, "req-wait-all-early", "wait_all returned before the requests were served");
        std::vector<size_t> order; for (size_t i = 0; i < n; ++i) order.push_back(i);
        for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[r(i)]);
        // the queues serve in their own order, so let the gates open in arbitrary order
        for (size_t i = 0; i < n; ++i) { s.files[s.fileof[order[i]]]->release(order[i]); if (r.chance(1, 3)) vp::jitter_point(); ctx.note(order[i]); }
        // late cancellation attempts
        for (unsigned i = 0; i < n / 2; ++i) { size_t k = r(n); Rec& x = *s.recs[k]; (void)x; }
        for (auto& t : th) t.join();
        th.clear();
    }
    for (size_t i = 0; i < n; ++i) { Rec& x = *s.recs[i]; bool e = do_wait(x.req); after_wait(x, e, "wait"); if (x.cancelled) { chk(x.served == 0, "req-cancel-served", "a cancelled request was served"); chk(x.handler == 0, "req-cancel-handler", "completion handler ran for a cancelled request"); } }
    for (auto f : s.files) VP_EQ(f->get_request_nref(), (unsigned_type)0, "req-file-refs", "requests still counted by their file after all were finished");
    vp::count("requests", n); vp::nontrivial(ctx.h);
}

// threads submit and cancel at once; every request ends in exactly one way
void cancel_stress(vp::Ctx& ctx) {
    vp::Rng& r = ctx.rng; Kind kinds[] = { K_MEM, K_SYSCALL, K_LINUXAIO, K_MMAP }; Kind k = kinds[r(4)];
    vp::cov("cancel_access_method", kind_name[k]);
    FileUnderTest u = make_file(ctx, k, 50);
    struct G { stxxl::file* f; ~G() { delete f; } } g = { u.f };
    const unsigned T = 3, N = 150; u.f->set_size(T * N * 4096);
    std::vector<Rec> recs(T * N); std::vector<std::thread> th; uint64_t seed = r.next();
    static Buf* wb = new Buf(4096), * rb = new Buf(3 * 150 * 4096);
    memset(wb->p, 'w', 4096);
    std::atomic<unsigned> cancelled(0), refused(0);
    for (unsigned t = 0; t < T; ++t) th.emplace_back([&, t] {
        vp::Rng rr(seed + t);
        for (unsigned i = 0; i < N; ++i) {
            Rec& x = recs[t * N + i]; x.write = rr.chance(1, 2);
            uint64_t off = (t * N + i) * 4096ull;
            x.req = x.write ? u.f->awrite(wb->p, off, 4096, Handler(&x)) : u.f->aread((char*)rb->p + off, off, 4096, Handler(&x));
            if (rr.chance(2, 3)) { if (rr.chance(1, 2)) std::this_thread::yield(); unsigned who = (unsigned)rr(3);
                if (who == 0 && i) { Rec& y = recs[t * N + rr(i)]; if (!y.cancelled && !y.req.empty()) { if (y.req->cancel()) { y.cancelled = true; ++cancelled; } else ++refused; } }
                else { if (x.req->cancel()) { x.cancelled = true; ++cancelled; } else ++refused; } }
        }
        for (unsigned i = 0; i < N; ++i) { Rec& x = recs[t * N + i]; if (do_wait(x.req)) vp::fail_async("req-error", "a request of the cancellation stress failed"); }
    });
    for (auto& x : th) x.join();
    std::vector<char> content; Buf b(4096);
    for (unsigned i = 0; i < T * N; ++i) {
        Rec& x = recs[i];
        if (x.cancelled) VP_CHECK(x.handler == 0, "req-cancel-handler", "completion handler ran for a cancelled request");
        else VP_CHECK(x.handler == 1 && x.handler_done == 1, "req-handler", "completion handler ran " << x.handler << " times for a completed request");
        if (x.write && k != K_MEM) { u.f->aread(b.p, i * 4096ull, 4096)->wait(); bool w = b.p[0] == 'w' && b.p[4095] == 'w'; bool z = b.p[0] == 0 && b.p[4095] == 0; VP_CHECK(x.cancelled ? z : w, "req-cancel-data", (x.cancelled ? "a cancelled write changed the file" : "a write whose cancellation was refused did not reach the file")); }
    }
    VP_EQ(u.f->get_request_nref(), (unsigned_type)0, "req-file-refs", "requests still counted by their file");
    vp::count("stress_requests", T * N); vp::count("stress_cancelled", cancelled); vp::count("stress_cancel_refused", refused);
    vp::nontrivial(vp::hash_combine(ctx.h, cancelled * 1000 + refused));
}

struct OwnReq : public serving_request { OwnReq(const completion_handler& h, stxxl::file* f, void* b, offset_type o, size_type n, request_type t) : serving_request(h, f, b, o, n, t) { } void finish_cancelled() { completed(true); } };
// queue objects of our own: shutdown serves everything, priorities lose nothing
template <class Q> void queue_shutdown(vp::Ctx& ctx) {
    vp::Rng& r = ctx.rng; std::vector<Rec*> recs; recs.reserve(200);
    struct Del { std::vector<Rec*>& v; ~Del() { for (auto x : v) { if (!x->req.empty()) do_wait(x->req); delete x; } } };
    GateFile* f = new GateFile(77, recs, false); struct D2 { GateFile* f; ~D2() { delete f; } } d2 = { f }; Del d = { recs };
    unsigned n = (unsigned)r.range(0, 60);
    {
        std::unique_ptr<Q> q(new Q()); std::vector<request_ptr> ps;
        q->set_priority_op(r.chance(1, 3) ? request_queue::READ : r.chance(1, 2) ? request_queue::WRITE : request_queue::NONE);
        for (unsigned i = 0; i < n; ++i) {
            Rec* x = new Rec; x->write = r.chance(1, 2); recs.push_back(x);
            x->req = request_ptr(new OwnReq(Handler(x), f, x->buf, i, 64, x->write ? request::WRITE : request::READ));
            request_ptr p = x->req; q->add_request(p);
            if (r.chance(1, 10)) { size_t c = r(i + 1); Rec* y = recs[c]; if (!y->cancelled && y->served == 0 && r.chance(1, 2)) { request_ptr yp = y->req; bool was = q->cancel_request(yp); if (was) { y->cancelled = true; recs[c]->cancelled = true; } } }
        }
        if (r.chance(1, 2)) f->release_all(); else { for (unsigned i = 0; i < n; ++i) f->release(i); }
        std::thread late([&] { vp::jitter_point(); f->release_all(); });
        q.reset(); // shutdown
        late.join();
    }
    for (unsigned i = 0; i < n; ++i) {
        Rec& x = *recs[i];
        if (x.cancelled) { VP_CHECK(x.served == 0, "req-cancel-served", "request removed from the queue was served"); dynamic_cast<OwnReq*>(x.req.get())->finish_cancelled(); vp::count("queue_cancelled"); }
        else { VP_CHECK(x.served == 1, "queue-shutdown", "request " << i << " of " << n << " was served " << x.served << " times before the queue shut down"); VP_CHECK(x.handler == 1, "req-handler", "handler ran " << x.handler << " times"); }
    }
    for (unsigned i = 0; i < n; ++i) do_wait(recs[i]->req);
    VP_EQ(f->get_request_nref(), (unsigned_type)0, "req-file-refs", "requests still counted by their file");
    vp::count("queue_shutdowns"); ctx.note(n); vp::nontrivial(ctx.h);
}

// the same on real files, many queues, several waiters each
void real_files(vp::Ctx& ctx) {
    vp::Rng& r = ctx.rng; std::vector<FileUnderTest> fs; struct G { std::vector<FileUnderTest>& f; ~G() { for (auto& u : f) delete u.f; } } g = { fs };
    unsigned nf = (unsigned)r.range(1, 3);
    for (unsigned i = 0; i < nf; ++i) { Kind k = (Kind)r(K_FPB_SYSCALL); fs.push_back(make_file(ctx, k, (int)(60 + r(2)))); fs[i].f->set_size(64 * 4096); vp::cov("request_access_method", kind_name[k]); }
    unsigned n = (unsigned)r.range(1, 40); std::vector<Rec> recs(n); std::vector<std::unique_ptr<Buf> > bufs;
    for (unsigned i = 0; i < n; ++i) { bufs.emplace_back(new Buf(4096)); memset(bufs[i]->p, i, 4096); Rec& x = recs[i]; x.write = r.chance(1, 2); FileUnderTest& u = fs[r(nf)]; uint64_t off = i * 4096ull; x.req = x.write ? u.f->awrite(bufs[i]->p, off, 4096, Handler(&x)) : u.f->aread(bufs[i]->p, off, 4096, Handler(&x)); x.served = 1; }
    std::vector<request_ptr> all; for (auto& x : recs) all.push_back(x.req);
    // repeatedly wait for any of the rest
    std::vector<size_t> left; for (size_t i = 0; i < n; ++i) left.push_back(i);
    std::thread other([&] { for (size_t i = n; i > 0; --i) { request_ptr q = all[i - 1]; bool e = do_wait(q); after_wait(recs[i - 1], e, "wait"); } });
    while (!left.empty()) {
        std::vector<request_ptr> q; for (auto i : left) q.push_back(all[i]);
        size_t k = wait_any(&q[0], q.size()); chk(k < q.size(), "req-wait-any-index", "wait_any returned no request"); if (k >= q.size()) break;
        chk(q[k]->poll(), "req-wait-any-poll", "wait_any named an unfinished request"); size_t idx; chk(poll_any(&q[0], q.size(), idx) && idx <= k, "req-poll-any", "poll_any does not see what wait_any reported");
        left.erase(left.begin() + k); vp::count("wait_any_returns");
    }
    other.join();
    for (auto& u : fs) VP_EQ(u.f->get_request_nref(), (unsigned_type)0, "req-file-refs", "requests still counted by their file");
    vp::count("requests", n); ctx.note(n); vp::nontrivial(ctx.h);
}
// a failing request among pending ones: wait_any must not leave anything behind
void any_with_failure(vp::Ctx& ctx) {
    vp::Rng& r = ctx.rng; Set s; s.recs.reserve(16);
    s.files.push_back(new GateFile(45, s.recs, false)); s.files.push_back(new GateFile(46, s.recs, false));
    unsigned n = (unsigned)r.range(1, 5); for (unsigned i = 0; i < n; ++i) s.submit(ctx, 0, r.chance(1, 2), false);
    s.submit(ctx, 1, r.chance(1, 2), true);
    bool before = r.chance(1, 2);
    if (before) { s.files[1]->release(n); do_wait(s.recs[n]->req); }
    std::thread t([&] { std::vector<request_ptr> q; for (auto x : s.recs) q.push_back(x->req); bool err = false; try { wait_any(q.begin(), q.end()); } catch (io_error&) { err = true; } chk(err, "req-error", "wait_any did not report the failed request"); });
    if (!before) { vp::jitter_point(); s.files[1]->release(n); }
    t.join();
    for (unsigned i = 0; i < n; ++i) s.files[0]->release(i);
    for (unsigned i = 0; i < n; ++i) { bool e = do_wait(s.recs[i]->req); after_wait(*s.recs[i], e, "wait"); }
    vp::count("wait_any_failures"); vp::nontrivial(ctx.h ^ before ^ n * 2);
}
// cancelling a queued request completes it for everybody who waits for it, while the transfer in front of it still runs
void cancel_wakes(vp::Ctx& ctx) {
    vp::Rng& r = ctx.rng; Set s; s.files.push_back(new GateFile((int)(90 + r(2)), s.recs, false)); GateFile* f = s.files[0];
    s.submit(ctx, 0, r.chance(1, 2), false);
    bool serving = false; for (unsigned i = 0; i < 20000 && !serving; ++i) { { std::unique_lock<std::mutex> l(f->m); serving = f->in_serve > 0; } if (!serving) usleep(1000); }
    VP_CHECK(serving, "req-not-served", "a queued request was not started within 20 s");
    unsigned n = (unsigned)r.range(1, 5); for (unsigned i = 0; i < n; ++i) s.submit(ctx, 0, r.chance(1, 2), false);
    size_t victim = 1 + r(n); unsigned how = (unsigned)r(3); vp::cov("cancel_wakes", how == 0 ? "wait_any" : how == 1 ? "wait" : "wait_all"); ctx.note(how);
    std::vector<request_ptr> set; if (how == 0) { for (size_t i = r.chance(1, 2) ? 0 : 1; i < s.recs.size(); ++i) if (i == victim || r.chance(1, 2)) set.push_back(s.recs[i]->req); } else set.push_back(s.recs[victim]->req);
    std::atomic<int> done(0); size_t got = 0; unsigned W = (unsigned)r.range(1, 3); std::vector<std::thread> th;
    for (unsigned w = 0; w < W; ++w) th.emplace_back([&, w] {
        try {
            if (how == 0) { std::vector<request_ptr> c(set); std::vector<request_ptr>::iterator it = wait_any(c.begin(), c.end()); if (it == c.end() || it->get() != s.recs[victim]->req.get()) vp::fail_async("req-any", "wait_any() returned a request that is neither done nor cancelled"); }
            else if (how == 1) s.recs[victim]->req->wait();
            else { std::vector<request_ptr> c(set); wait_all(c.begin(), c.end()); }
        } catch (std::exception& e) { vp::fail_async("req-error", std::string("waiting for a cancelled request threw ") + e.what()); }
        ++done; });
    (void)got;
    if (r.chance(3, 4)) usleep((unsigned)r(2000)); // mostly let them block first
    bool early = done > 0, c = s.recs[victim]->req->cancel(); if (c) s.recs[victim]->cancelled = true;
    bool woke = false; for (unsigned i = 0; i < 20000 && !woke; ++i) { woke = done == (int)W; if (!woke) usleep(1000); }
    f->release_all(); for (auto& t : th) t.join();
    VP_CHECK(!early, "req-wait-early", "a waiter returned although the request was neither served nor cancelled");
    VP_CHECK(c, "req-cancel-queued", "cancel() refused a request that had not been started");
    VP_CHECK(woke, "req-cancel-lost-wakeup", "waiters of a cancelled request were not woken up within 20 s");
    VP_CHECK(s.recs[victim]->served == 0, "req-cancel-served", "a cancelled request was served");
    VP_CHECK(s.recs[victim]->handler == 0, "req-handler", "completion handler of a cancelled request ran");
    vp::count("cancel_wakeups"); vp::nontrivial(ctx.h);
}
// several threads wait for overlapping sets: the end of one wait must not disturb the others
void shared_waiters(vp::Ctx& ctx) {
    vp::Rng& r = ctx.rng; Set s; unsigned W = (unsigned)r.range(2, 6), C = (unsigned)r.range(1, 3); // requests: C common ones, one private one per thread
    s.files.push_back(new GateFile(92, s.recs, false)); // common
    for (unsigned w = 0; w < W; ++w) s.files.push_back(new GateFile(93 + (int)w, s.recs, false));
    std::vector<unsigned> order; for (unsigned i = 0; i < C + W; ++i) order.push_back(i); for (unsigned i = C + W; i > 1; --i) std::swap(order[i - 1], order[r(i)]);
    std::vector<size_t> id(C + W); for (unsigned i : order) { id[i] = s.recs.size(); s.submit(ctx, i < C ? 0 : i - C + 1, r.chance(1, 2), false); }
    std::unique_ptr<std::atomic<int>[]> done(new std::atomic<int>[W]); for (unsigned w = 0; w < W; ++w) done[w] = 0;
    std::vector<std::thread> th;
    for (unsigned w = 0; w < W; ++w) th.emplace_back([&, w] {
        std::vector<request_ptr> c; for (unsigned i = 0; i < C; ++i) c.push_back(s.recs[id[i]]->req); c.insert(c.begin() + w % (C + 1), s.recs[id[C + w]]->req);
        try { std::vector<request_ptr>::iterator it = wait_any(c.begin(), c.end()); if (it == c.end() || !(*it)->poll()) vp::fail_async("req-any", "wait_any() returned an unfinished request"); } catch (std::exception& e) { vp::fail_async("req-error", e.what()); }
        ++done[w]; });
    struct J { Set& s; std::vector<std::thread>& t; ~J() { for (auto f : s.files) f->release_all(); for (auto& x : t) x.join(); } };
    std::string lost; bool early = false;
    {
        J j = { s, th };
        auto all_done = [&](std::vector<unsigned> const& v) { for (unsigned i = 0; i < 20000; ++i) { bool a = true; for (unsigned w : v) a &= done[w] != 0; if (a) return true; usleep(1000); } return false; };
        usleep((unsigned)r(3000));
        std::vector<unsigned> first, rest; for (unsigned w = 0; w < W; ++w) (w + 1 < W && r.chance(1, 2) ? first : rest).push_back(w);
        for (unsigned w : first) s.files[w + 1]->release(id[C + w]);
        if (!all_done(first)) lost = "after their own request was finished";
        for (unsigned w : rest) early |= done[w] != 0;
        if (lost.empty()) { s.files[0]->release_all(); if (!all_done(rest)) lost = "after a request shared with other waiters was finished"; }
    }
    VP_CHECK(!early, "req-wait-any-early", "wait_any() returned although none of its requests was served");
    VP_CHECK(lost.empty(), "req-wait-any-lost-wakeup", "threads in wait_any() were not woken up within 20 s " << lost << " (" << W << " threads, " << C << " shared requests)");
    for (unsigned i = 0; i < C + W; ++i) { s.recs[i]->req->wait(); }
    vp::count("shared_waits", W); vp::nontrivial(ctx.h);
}
}
VP_SCENARIO(shared_waiters, 200, 4000) { shared_waiters(ctx); }
VP_SCENARIO(cancel_wakes, 60, 1200) { cancel_wakes(ctx); }
VP_SCENARIO(gated_requests, 1200, 20000) { gated(ctx); }
VP_SCENARIO(cancel_stress, 240, 6000) { cancel_stress(ctx); }
VP_SCENARIO(shutdown_qwqr, 400, 6000) { queue_shutdown<request_queue_impl_qwqr>(ctx); }
VP_SCENARIO(shutdown_1q, 400, 6000) { queue_shutdown<request_queue_impl_1q>(ctx); }
VP_SCENARIO(real_files, 600, 10000) { real_files(ctx); }
VP_SCENARIO(any_with_failure, 200, 3000) { any_with_failure(ctx); }
