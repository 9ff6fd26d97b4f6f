// C03: injected failures and partial transfers are reported to exactly the request they hit.
#include "io_files.h"
#include <map>
#include <memory>
#include <stxxl/mng>
#include <fcntl.h>
using namespace stxxl;

namespace {
struct Script { // what happens to the system calls of one request
    const char* lo; size_t n; uint64_t off; int fd_any; bool err, zero, sub_err, hit; int errn; unsigned shorts, calls, at, eagains; vp::Rng r; size_t align; uint64_t lastcall; bool whole, seek_err;
    Script() : lo(NULL), n(0), off(0), err(false), zero(false), sub_err(false), hit(false), errn(0), shorts(0), calls(0), at(0), eagains(0), r(1), align(1), whole(false), seek_err(false) { }
};
struct Plan : public vp::FaultPlan {
    std::mutex m; std::map<const char*, Script*> by_buf; std::map<uint64_t, Script*> by_off; std::atomic<uint64_t> injected_err, injected_short, injected_again, eintr; bool size_err; bool setup_err; unsigned setup_again; std::vector<long> setup_sizes;
    Plan() : injected_err(0), injected_short(0), injected_again(0), eintr(0), size_err(false), setup_err(false), setup_again(0) { }
    Script* find(const void* b) { std::map<const char*, Script*>::iterator it = by_buf.upper_bound((const char*)b); if (it == by_buf.begin()) return NULL; --it; return (const char*)b < it->second->lo + it->second->n ? it->second : NULL; }
    vp::Fault on_call(const char* op, int, uint64_t size, const void* buf, uint64_t off) {
        vp::Fault f; std::unique_lock<std::mutex> l(m);
        std::string o(op);
        if (o == "ftruncate") { if (size_err) { f.kind = vp::Fault::ERR; f.err = ENOSPC; ++injected_err; } return f; }
        if (o == "io_setup") { setup_sizes.push_back((long)size); if (setup_again) { --setup_again; f.kind = vp::Fault::ERR; f.err = EAGAIN; ++injected_again; } return f; }
        Script* s = NULL;
        if (o == "lseek") { if (size == SEEK_SET) { std::map<uint64_t, Script*>::iterator it = by_off.find(off); if (it != by_off.end() && it->second->seek_err) { it->second->hit = true; f.kind = vp::Fault::ERR; f.err = it->second->errn; ++injected_err; } } return f; }
        if (o == "mmap") { std::map<uint64_t, Script*>::iterator it = by_off.find(off); if (it != by_off.end()) s = it->second; }
        else if (buf) s = find(buf);
        if (!s) return f;
        if (o == "io_submit") {
            if (s->sub_err) { s->hit = true; f.kind = vp::Fault::ERR; f.err = s->errn; ++injected_err; return f; }
            if (s->eagains) { --s->eagains; f.kind = vp::Fault::ERR; f.err = EAGAIN; ++injected_again; }
            return f;
        }
        unsigned c = s->calls++;
        if (s->err && c >= s->at) { s->hit = true; f.kind = vp::Fault::ERR; f.err = s->errn; ++injected_err; return f; }
        if (s->zero && c >= s->at && o != "mmap") { s->hit = true; f.kind = o == "aio_read" || o == "aio_write" ? vp::Fault::SHORT : vp::Fault::ZERO; f.len = 0; ++injected_err; return f; }
        if (s->shorts && o != "mmap") { --s->shorts; f.kind = vp::Fault::SHORT; f.len = size > s->align ? s->r.range(1, (size - 1) / s->align) * s->align : size; if (f.len < size) ++injected_short; return f; }
        return f;
    }
};

struct Req { Script sc; uint64_t off; bool write; std::unique_ptr<Buf> buf; request_ptr req; std::string want; std::atomic<int> handler; Req() : off(0), write(false), handler(0) { } };
struct H { Req* r; void operator () (request*) { ++r->handler; } };

void faults(vp::Ctx& ctx) {
    vp::Rng& r = ctx.rng;
    Kind kinds[] = { K_SYSCALL, K_SYSCALL, K_SYSCALL_DIRECT, K_LINUXAIO, K_LINUXAIO, K_LINUXAIO_DIRECT, K_MMAP }; Kind k = kinds[r(7)];
    vp::cov("faulted_access_method", kind_name[k]); ctx.note(k);
    FileUnderTest u = make_file(ctx, k, (int)(30 + r(2)));
    struct G { stxxl::file* f; ~G() { delete f; } } g = { u.f };
    const unsigned B = 24; const size_t blk = 4096 * 2; std::string model(B * blk, 0);
    u.f->set_size(B * blk);
    unsigned rounds = (unsigned)r.range(2, 6); uint64_t tag = r.next();
    for (unsigned round = 0; round < rounds; ++round) {
        Plan plan; std::vector<std::unique_ptr<Req> > rq; unsigned n = (unsigned)r.range(1, 12);
        std::vector<unsigned> perm; for (unsigned i = 0; i < B; ++i) perm.push_back(i); for (unsigned i = B; i > 1; --i) std::swap(perm[i - 1], perm[r(i)]);
        // in half of the rounds the file ends early, and grows by the writes
        const unsigned keep = k != K_MMAP && r.chance(1, 2) ? (unsigned)r(B) : B;
        if (keep < B) { u.f->set_size(keep * blk); model.replace(keep * blk, std::string::npos, (B - keep) * blk, 0); vp::count("rounds_growing_the_file"); }
        for (unsigned i = 0; i < n; ++i) {
            Req* q = new Req; rq.emplace_back(q); q->off = perm[i] * blk; q->write = perm[i] >= keep || r.chance(1, 2); q->buf.reset(new Buf(blk));
            Script& s = q->sc; s.lo = q->buf->p; s.n = blk; s.off = q->off; s.r = vp::Rng(r.next()); s.align = u.align > 1 ? 512 : 1;
            unsigned w = (unsigned)r(10);
            static const int errs[] = { EIO, ENOSPC, EFBIG, EINVAL, EACCES, ENOMEM };
            s.errn = errs[r(6)]; s.at = 0;
            if (w == 0) s.err = true;
            else if (w == 1) { s.shorts = (unsigned)r.range(1, 3); s.err = true; s.at = (k == K_LINUXAIO || k == K_LINUXAIO_DIRECT) ? 1 : s.shorts; if (k == K_LINUXAIO || k == K_LINUXAIO_DIRECT) s.shorts = 1; }
            else if (w == 2 && (k == K_LINUXAIO || k == K_LINUXAIO_DIRECT)) s.sub_err = true;
            else if (w == 8 && r.chance(1, 3)) s.seek_err = true;
            else if (w == 3 && k != K_MMAP) { s.shorts = (unsigned)r(2); s.zero = true; s.at = s.shorts; }
            else if (w == 4) s.eagains = (unsigned)r.range(1, 3);
            else if (w < 8) s.shorts = (unsigned)r.range(1, 5);
            plan.by_buf[s.lo] = &s; plan.by_off[s.off] = &s;
            if (q->write) { fill_unique(q->buf->p, blk, ++tag); q->want.assign(q->buf->p, blk); } else { memset(q->buf->p, 0xA5, blk); q->want = model.substr(q->off, blk); }
        }
        std::vector<bool> threw(n);
        {
            PlanGuard pg(&plan);
            for (auto& q : rq) { H h = { q.get() }; q->req = q->write ? u.f->awrite(q->buf->p, q->off, blk, h) : u.f->aread(q->buf->p, q->off, blk, h); }
            for (unsigned i = 0; i < n; ++i) { try { rq[i]->req->wait(); threw[i] = false; } catch (io_error& e) { threw[i] = true; VP_CHECK(std::string(e.what()).size() > 0, "fault-message", "empty error message"); }
                // asking again gives the same answer
                bool again = false; try { VP_CHECK(rq[i]->req->poll(), "fault-poll", "poll() false after wait"); } catch (io_error&) { again = true; }
                VP_EQ(again, (bool)threw[i], "fault-report", "poll() after wait() reports an error"); }
        }
        for (unsigned i = 0; i < n; ++i) {
            Req& q = *rq[i];
            VP_CHECK(q.sc.hit == threw[i], "fault-report", kind_name[k] << " " << (q.write ? "write" : "read") << " request " << i << " of " << n << (threw[i] ? " reported an I/O error although nothing failed" : " did not report the injected failure") << " (errno " << q.sc.errn << ", err " << q.sc.err << ", early end " << q.sc.zero << ", submit " << q.sc.sub_err << ")");
            VP_EQ((int)q.handler, 1, "fault-handler", "completion handler runs");
            if (!threw[i]) {
                if (q.write) model.replace(q.off, blk, q.want); else VP_CHECK(memcmp(q.buf->p, q.want.data(), blk) == 0, "fault-data", kind_name[k] << " read returned wrong data (partial transfers injected)");
                vp::count("requests_unharmed");
            } else { vp::count("failures_reported"); vp::cov("failure", q.sc.sub_err ? "io_submit" : q.sc.zero ? "early end" : q.sc.shorts ? "error" : "error after partial transfer"); }
        }
        vp::count("injected_errors", plan.injected_err); vp::count("injected_partial_transfers", plan.injected_short); vp::count("injected_eagain", plan.injected_again);
        VP_EQ(u.f->get_request_nref(), (unsigned_type)0, "fault-file-refs", "requests still referencing the file");
        // content after the faults: failed writes are repeated, then everything must be right
        for (unsigned i = 0; i < n; ++i) if (threw[i] && rq[i]->write) { fill_unique(rq[i]->buf->p, blk, ++tag); u.f->awrite(rq[i]->buf->p, rq[i]->off, blk)->wait(); model.replace(rq[i]->off, blk, std::string(rq[i]->buf->p, blk)); }
        if (keep < B) { uint64_t end = keep * blk; for (auto& q : rq) if (q->write) end = std::max<uint64_t>(end, q->off + blk); VP_EQ((uint64_t)u.f->size(), end, "fault-size", "size of a file grown by writes"); u.f->set_size(B * blk); }
        for (unsigned b = 0; b < B; ++b) { Buf bb(blk); u.f->aread(bb.p, b * blk, blk)->wait(); VP_CHECK(memcmp(bb.p, model.data() + b * blk, blk) == 0, "fault-data", kind_name[k] << " block " << b << " is wrong after failures of other requests"); }
        // and on disk
        std::string os = slurp(u.path); VP_CHECK(os == model, "fault-data-os", "file content differs after partial transfers");
        for (auto& q : rq) ctx.note(q->sc.err * 8 + q->sc.zero * 4 + q->sc.sub_err * 2 + q->write);
    }
    vp::nontrivial(ctx.h);
}

template <class F> bool throws_io(F f) { try { f(); return false; } catch (io_error&) { return true; } catch (std::bad_alloc&) { return true; } }
void open_failures(vp::Ctx& ctx) {
    vp::Rng& r = ctx.rng; std::string dir = ctx.tmp + "/d" + std::to_string(r.next());
    mkdir(dir.c_str(), 0755);
    unsigned w = (unsigned)r(8); ctx.note(w);
    struct C { std::string d; ~C() { std::string f = d + "/x"; ::unlink(f.c_str()); ::rmdir(d.c_str()); } } c = { dir };
    int base = file::RDWR | (r.chance(1, 2) ? file::DIRECT : 0);
    const char* impls[] = { "syscall", "linuxaio", "mmap" }; const char* impl = impls[r(3)];
    vp::cov("open_failure", std::string(impl) + "/" + std::to_string(w));
    file* f = NULL; bool t = true;
    if (w == 0) t = throws_io([&] { f = create_file(impl, dir + "/nodir/x", base | file::CREAT); });
    else if (w == 1) t = throws_io([&] { f = create_file(impl, dir + "/x", base); });           // does not exist
    else if (w == 2) t = throws_io([&] { f = create_file(impl, dir, base); });                  // a directory
    else if (w == 3) { disk_config cfg(dir + "/x", 0, impl == std::string("mmap") ? "syscall" : impl); cfg.raw_device = true; cfg.direct = disk_config::DIRECT_OFF; t = throws_io([&] { f = create_file(cfg, file::CREAT | file::RDWR, -1); }); }
    else if (w == 4) { t = false; try { f = create_file("nosuchimpl", dir + "/x", base | file::CREAT); } catch (std::runtime_error&) { t = true; } }
    else if (w == 5) { f = create_file(impl, dir + "/x", base | file::CREAT); Plan p; p.size_err = true; { PlanGuard g(&p); t = throws_io([&] { f->set_size(100 * 4096); }); } VP_CHECK(f->size() == 0, "fault-size", "size changed although setting it failed"); vp::count("injected_errors", p.injected_err); f->set_size(8192); VP_EQ(f->size(), (file::offset_type)8192, "fault-size", "size"); delete f; f = NULL; }
    else if (w == 6) { mem_file* m = new mem_file(33); m->set_size(4096); Buf b(4096); memset(b.p, 7, 4096); m->awrite(b.p, 0, 4096)->wait(); t = throws_io([&] { m->set_size(1ull << 62); }); if (t) { VP_EQ(m->size(), (file::offset_type)4096, "fault-size", "size after failed growth"); Buf c2(4096); m->aread(c2.p, 0, 4096)->wait(); VP_CHECK(memcmp(c2.p, b.p, 4096) == 0, "fault-data", "content lost by failed growth"); } delete m; }
    else { // writing through a descriptor opened read-only fails, reading works
        { file* g = create_file(impl, dir + "/x", base | file::CREAT); g->set_size(8192); delete g; }
        f = create_file(impl, dir + "/x", file::RDONLY); Buf b(4096); memset(b.p, 1, 4096); // O_RDONLY
        request_ptr q = f->awrite(b.p, 0, 4096); t = throws_io([&] { q->wait(); }); f->aread(b.p, 0, 4096)->wait(); VP_CHECK(b.p[0] == 0 && b.p[4095] == 0, "fault-data", "failed write changed the file"); }
    delete f;
    VP_CHECK(t, "fault-open", impl << ": case " << w << " continued without an exception");
    vp::count("open_size_failures"); vp::nontrivial(ctx.h);
}
// the kernel grants fewer events than asked for
void setup_negotiation(vp::Ctx& ctx) {
    vp::leak_exempt();
    vp::Rng& r = ctx.rng; static int q = -5000; --q;
    Plan p; unsigned fails = (unsigned)r(5); p.setup_again = fails; int want = (int)r.range(1, 128);
    std::string path = ctx.tmp + "/aio" + std::to_string(r.next());
    linuxaio_file* f = new linuxaio_file(path, file::CREAT | file::RDWR, q, -1, 9, want);
    struct G { file* f; ~G() { delete f; } } g = { f };
    f->set_size(64 * 4096);
    if ((1 << fails) > want) p.setup_again = fails = 0;
    {
        PlanGuard pg(&p); std::vector<std::unique_ptr<Buf> > b; std::vector<request_ptr> rq;
        for (unsigned i = 0; i < 64; ++i) { b.emplace_back(new Buf(4096)); memset(b[i]->p, 'a' + i % 26, 4096); rq.push_back(f->awrite(b[i]->p, i * 4096, 4096)); }
        wait_all(rq.begin(), rq.end());
    }
    VP_EQ(p.setup_sizes.size(), (size_t)fails + 1, "aio-setup", "io_setup calls");
    for (size_t i = 1; i < p.setup_sizes.size(); ++i) VP_CHECK(p.setup_sizes[i] < p.setup_sizes[i - 1], "aio-setup", "more events are asked for after " << p.setup_sizes[i - 1] << " were refused: " << p.setup_sizes[i]);
    std::string s = slurp(path); for (unsigned i = 0; i < 64; ++i) VP_CHECK(s[i * 4096] == (char)('a' + i % 26), "fault-data", "data lost");
    vp::count("setup_negotiations"); vp::count("injected_eagain", p.injected_again); vp::nontrivial(ctx.h ^ (want * 8 + fails));
}
// more data than the disks can hold
void disks_full(vp::Ctx& ctx) {
    if (ctx.cfg != 9) return;
    typedef typed_block<4096, uint64_t> block; block_manager* bm = block_manager::get_instance(); vp::Rng& r = ctx.rng;
    std::vector<BID<4096> > held; size_t total = (1 << 20) * 2 / 4096 + (512 << 10) / 4096; size_t keep = total - r.range(0, 30); bool threw = false;
    block* b = new block; struct D { block* b; std::vector<BID<4096> >& h; block_manager* m; ~D() { delete b; m->delete_blocks(h.begin(), h.end()); } } d = { b, held, bm };
    for (size_t i = 0; i < total + 40; ++i) { BID<4096> x; try { bm->new_block(striping(), x, i); } catch (bad_ext_alloc&) { threw = true; if (held.size() >= total - 3) break; continue; } held.push_back(x); if (held.size() > keep) (*b)[0] = i; b->write(x)->wait(); }
    VP_CHECK(threw, "fault-full", "no exception although " << held.size() << " blocks were asked from disks of " << total);
    VP_CHECK(held.size() <= total, "fault-full", "more blocks than the disks hold");
    vp::count("disks_filled"); vp::nontrivial(ctx.h);
}
}
VP_SCENARIO(faults, 1200, 20000) { faults(ctx); }
VP_SCENARIO(open_failures, 240, 1000) { open_failures(ctx); }
VP_SCENARIO(setup_negotiation, 48, 400) { setup_negotiation(ctx); }
VP_SCENARIO(disks_full, 64, 400) { disks_full(ctx); }
