// C01: asynchronous file I/O against a byte model, all access methods.
#include "io_files.h"
#include <list>
#include <set>
#include <memory>
using namespace stxxl;

namespace {
struct Model { std::string b; std::string def; void resize(size_t n, bool zero) { b.resize(n, 0); def.resize(n, zero ? 1 : 0); } };
struct Out { size_t fi; bool write; uint64_t off; size_t len; std::unique_ptr<Buf> buf; std::string snap, sdef; request_ptr req; uint64_t tag; };

// transfers that move fewer bytes than asked for, as the operating system may do at any time
struct ShortPlan : vp::FaultPlan {
    std::mutex m; vp::Rng r; unsigned permille; std::atomic<uint64_t> n;
    ShortPlan(uint64_t seed, unsigned p) : r(seed), permille(p), n(0) { }
    vp::Fault on_call(const char* op, int, uint64_t size, const void* buf, uint64_t) {
        vp::Fault f; std::string o(op);
        if (!buf || (o != "read" && o != "write" && o != "aio_read" && o != "aio_write") || size <= 1) return f;
        std::unique_lock<std::mutex> l(m);
        if (!r.chance(permille, 1000)) return f;
        size_t a = size % 4096 || (uintptr_t)buf % 4096 ? 1 : 4096; // stay legal for direct access
        if (size <= a) return f;
        f.kind = vp::Fault::SHORT; f.len = r.range(1, (size - 1) / a) * a; ++n;
        return f;
    }
};
struct IoTest {
    vp::Ctx& ctx; vp::Rng& r;
    std::vector<FileUnderTest> fs; std::vector<Model> ms; std::list<Out> outs; std::vector<uint64_t> caps;
    std::vector<std::set<uint64_t> > written; uint64_t tag; std::string trace; bool eof_ok;
    IoTest(vp::Ctx& c) : ctx(c), r(c.rng), tag(c.rng.next()) { }
    ~IoTest() { for (auto& o : outs) { try { o.req->wait(); } catch (...) { } } outs.clear(); for (auto& u : fs) delete u.f; }
    void finish(std::list<Out>::iterator it) {
        Out& o = *it;
        o.req->wait();
        VP_CHECK(o.req->poll(), "io-poll", "poll() is false after wait()");
        if (o.write) {
            for (size_t i = 0; i < o.len; ++i) VP_CHECK(o.buf->p[i] == o.snap[i], "io-write-buffer-changed", "the buffer of a write was modified");
        } else {
            for (size_t i = 0; i < o.len; ++i)
                if (o.sdef[i]) VP_CHECK(o.buf->p[i] == o.snap[i], "io-content", kind_name[fs[o.fi].kind] << " read of [" << o.off << ",+" << o.len << ") byte " << i << " (file size " << ms[o.fi].b.size() << ") is " << (int)(unsigned char)o.buf->p[i] << ", expected " << (int)(unsigned char)o.snap[i]);
            vp::count("bytes_compared", o.len);
        }
        outs.erase(it);
    }
    void drain_conflicts(size_t fi, uint64_t off, uint64_t len, bool write) {
        for (auto it = outs.begin(); it != outs.end(); ) {
            auto cur = it++;
            if (cur->fi == fi && cur->off < off + len && off < cur->off + cur->len && (write || cur->write)) finish(cur);
        }
    }
    void drain(size_t fi) { for (auto it = outs.begin(); it != outs.end(); ) { auto cur = it++; if (cur->fi == fi) finish(cur); } }
    void drain_all() { while (!outs.empty()) finish(outs.begin()); }
    void range(size_t fi, uint64_t& off, size_t& len, bool extend) {
        FileUnderTest& u = fs[fi]; uint64_t sz = ms[fi].b.size();
        if (u.blockwise) { uint64_t nb = sz / u.block; off = nb ? r(nb) * u.block : 0; len = nb ? u.block : 0; return; }
        uint64_t lim = extend ? caps[fi] : sz;
        if (u.align > 1) { uint64_t nb = lim / u.align; if (!nb) { len = 0; off = 0; return; } uint64_t a = r(nb); off = a * u.align; uint64_t mx = std::min<uint64_t>(nb - a, 8); len = r.range(1, mx) * u.align; return; }
        if (!lim) { len = 0; off = 0; return; }
        off = r.chance(1, 2) ? r(lim) : std::min<uint64_t>(lim - 1, r.boundary(4096, 10));
        uint64_t mx = lim - off; len = 1 + (r.chance(1, 3) ? r(std::min<uint64_t>(mx, 64)) : r(std::min<uint64_t>(mx, 20000)));
    }
    void write(size_t fi, uint64_t off, size_t len) {
        if (!len) return;
        FileUnderTest& u = fs[fi]; Model& m = ms[fi];
        drain_conflicts(fi, off, len, true);
        bool ext = off + len > m.b.size();
        if (ext) { drain(fi); m.resize(off + len, true); vp::count("extending_writes"); } // implied size: other requests must not depend on the old end
        outs.emplace_back(); Out& o = outs.back();
        o.fi = fi; o.write = true; o.off = off; o.len = len; o.buf.reset(new Buf(len, u.align == 1 ? r(3) * 8 : 0)); o.tag = ++tag;
        fill_unique(o.buf->p, len, o.tag); o.snap.assign(o.buf->p, len);
        m.b.replace(off, len, o.snap); m.def.replace(off, len, std::string(len, 1));
        if (u.blockwise) written[fi].insert(off);
        o.req = u.f->awrite(o.buf->p, off, len);
        vp::count("writes");
        if (ext) finish(--outs.end());
    }
    void read(size_t fi, uint64_t off, size_t len) {
        if (!len) return;
        FileUnderTest& u = fs[fi]; Model& m = ms[fi];
        drain_conflicts(fi, off, len, false);
        outs.emplace_back(); Out& o = outs.back();
        o.fi = fi; o.write = false; o.off = off; o.len = len; o.buf.reset(new Buf(len, u.align == 1 ? r(3) * 8 : 0));
        memset(o.buf->p, 0xA5, len);
        o.snap = m.b.substr(off, len); o.sdef = m.def.substr(off, len);
        if (o.snap.size() < len) { vp::count("reads_across_eof"); o.snap.resize(len, 0); o.sdef.resize(len, 1); }
        o.req = u.f->aread(o.buf->p, off, len);
        vp::count("reads");
    }
    void set_size(size_t fi, uint64_t n) {
        FileUnderTest& u = fs[fi]; Model& m = ms[fi];
        drain(fi);
        if (u.blockwise) { n = n / u.block * u.block; if (u.kind == K_WBTL && n < m.b.size()) return; }
        u.f->set_size(u.kind == K_WBTL ? n * 6 + 8 * u.block : n);
        if (u.blockwise) { for (auto it = written[fi].lower_bound(n); it != written[fi].end(); ) it = written[fi].erase(it); if (n < m.b.size()) { /* blocks beyond keep their own files */ } }
        bool zero = u.kind != K_MEM && !u.blockwise;
        m.resize(n, zero);
        vp::count("set_sizes");
    }
    void run() {
        unsigned nf = (unsigned)r.range(1, 3); unsigned nq = (unsigned)r.range(1, 3);
        for (unsigned i = 0; i < nf; ++i) {
            Kind k = (Kind)r(K_COUNT);
            size_t blk = 4096 * r.range(1, 3);
            fs.push_back(make_file(ctx, k, (int)(10 + r(nq)), r.chance(1, 8) && k != K_WBTL ? (int)file::SYNC : 0, blk));
            ms.push_back(Model()); caps.push_back(4096 * 40); written.push_back(std::set<uint64_t>());
            vp::cov("access_method", kind_name[k]); ctx.note(k);
            set_size(i, fs[i].align > 1 ? fs[i].align * r.range(1, 12) : r.boundary(4096, 12));
        }
        std::unique_ptr<ShortPlan> sp; std::unique_ptr<PlanGuard> pg;
        struct Cnt { std::unique_ptr<ShortPlan>& p; ~Cnt() { if (p) vp::count("partial_transfers", p->n); } } cnt = { sp };
        struct Dr { IoTest& t; ~Dr() { for (auto& o : t.outs) { try { o.req->wait(); } catch (...) { } } } };
        if (r.chance(2, 5)) { sp.reset(new ShortPlan(r.next(), (unsigned)r.range(50, 600))); pg.reset(new PlanGuard(sp.get())); }
        Dr dr = { *this };
        unsigned ops = (unsigned)r.range(20, 90);
        for (unsigned o = 0; o < ops; ++o) {
            size_t fi = r(nf); FileUnderTest& u = fs[fi]; Model& m = ms[fi];
            unsigned op = (unsigned)r(20); ctx.note(op);
            uint64_t off; size_t len;
            bool ext = u.kind == K_SYSCALL || u.kind == K_SYSCALL_DIRECT || u.kind == K_LINUXAIO || u.kind == K_LINUXAIO_DIRECT;
            if (op < 7) { range(fi, off, len, ext && r.chance(1, 5)); write(fi, off, len); }
            else if (op < 14) { range(fi, off, len, false);
                // reading across the end of file
                if (ext && len && r.chance(1, 4)) { size_t extra = u.align > 1 ? u.align * r.range(1, 3) : r.range(1, 9000); uint64_t sz = m.b.size(); if (sz % u.align == 0 && off + len < sz) len = (size_t)(sz - off); if ((sz - off) % u.align == 0) len = (size_t)(sz - off) + extra; }
                read(fi, off, len); }
            else if (op == 14 && outs.size()) { auto it = outs.begin(); std::advance(it, r(outs.size())); finish(it); }
            else if (op == 15 && r.chance(1, 2)) { uint64_t n = u.align > 1 ? u.align * r(14) : r.boundary(4096, 14); set_size(fi, n); }
            else if (op == 16) { drain(fi); uint64_t s = u.f->size(); VP_EQ(s, (uint64_t)(u.kind == K_WBTL ? m.b.size() * 6 + 8 * u.block : m.b.size()), "io-size", kind_name[u.kind] << " file size"); }
            else if (op == 17) { // discard: its own range becomes undefined, nothing else changes
                range(fi, off, len, false);
                if (len && (u.align > 1 || (u.kind != K_MEM))) {
                    drain_conflicts(fi, off, len, true);
                    if (!(u.kind == K_FPB_SYSCALL || u.kind == K_FPB_MMAP) || written[fi].count(off)) {
                        u.f->discard(off, len);
                        for (size_t i = 0; i < len; ++i) m.def[off + i] = 0;
                        if (ext || u.kind == K_MMAP) for (size_t i = 0; i < len; ++i) m.def[off + i] = 0;
                        written[fi].erase(off); vp::count("discards");
                    }
                }
                else if (len) { drain_conflicts(fi, off, len, true); u.f->discard(off, len); for (size_t i = 0; i < len; ++i) m.def[off + i] = 0; vp::count("discards"); }
            }
            else if (op == 18) { // synchronous interface
                range(fi, off, len, false);
                if (len) { drain_conflicts(fi, off, len, true); Buf b(len); if (r.chance(1, 2)) { fill_unique(b.p, len, ++tag); m.b.replace(off, len, std::string(b.p, len)); m.def.replace(off, len, std::string(len, 1)); u.f->serve(b.p, off, len, request::WRITE); if (u.blockwise) written[fi].insert(off); }
                    else { memset(b.p, 0xA5, len); u.f->serve(b.p, off, len, request::READ); for (size_t i = 0; i < len; ++i) if (m.def[off + i]) VP_CHECK(b.p[i] == m.b[off + i], "io-content", kind_name[u.kind] << " synchronous read differs at " << off + i); } vp::count("sync_ops"); }
            }
            else if (op == 19 && r.chance(1, 3)) { // content as the operating system sees it
                if (u.raw_path) { drain(fi); os_check(fi); }
            }
        }
        drain_all();
        for (size_t fi = 0; fi < fs.size(); ++fi) {
            FileUnderTest& u = fs[fi]; Model& m = ms[fi];
            VP_EQ(u.f->get_request_nref(), (unsigned_type)0, "io-request-refs", "requests still referencing the file");
            if (u.raw_path) os_check(fi);
            // full read back
            size_t step = u.blockwise ? u.block : (u.align > 1 ? u.align : 10000);
            for (uint64_t p = 0; p < m.b.size(); p += step) { size_t l = (size_t)std::min<uint64_t>(step, m.b.size() - p); if (u.align > 1 && l % u.align) continue; read(fi, p, l); if (outs.size() > 10) drain_all(); }
            drain_all();
        }
        // removal and unlink
        for (size_t fi = 0; fi < fs.size(); ++fi) {
            FileUnderTest& u = fs[fi];
            if (u.raw_path && r.chance(1, 2)) {
                VP_CHECK(exists(u.path), "io-file-missing", "file vanished");
                if (r.chance(1, 2)) { u.f->close_remove(); VP_CHECK(!exists(u.path), "io-close-remove", "file still exists after close_remove()"); }
                else { ufs_file_base* b = dynamic_cast<ufs_file_base*>(u.f); b->unlink(); VP_CHECK(!exists(u.path), "io-unlink", "file still visible after unlink()"); Model& m = ms[fi]; if (m.b.size() >= 4096) { read(fi, 0, 4096); drain_all(); } }
            }
        }
        vp::nontrivial(ctx.h);
    }
    void os_check(size_t fi) {
        Model& m = ms[fi]; std::string s = slurp(fs[fi].path);
        VP_EQ(s.size(), m.b.size(), "io-os-size", kind_name[fs[fi].kind] << " size of the file in the file system");
        for (size_t i = 0; i < s.size(); ++i) if (m.def[i]) VP_CHECK(s[i] == m.b[i], "io-os-content", kind_name[fs[fi].kind] << " file content on disk differs at " << i);
        vp::count("os_level_checks");
    }
};

// many threads, disjoint regions of shared files: last write wins per region
struct Region { uint64_t off; size_t len; uint64_t tag; };
void parallel_regions(vp::Ctx& ctx) {
    vp::Rng& r = ctx.rng;
    Kind k = (Kind)r(K_COUNT); vp::cov("access_method_threads", kind_name[k]);
    FileUnderTest u = make_file(ctx, k, 20);
    struct G { stxxl::file* f; ~G() { delete f; } } g = { u.f };
    const unsigned T = 4, N = 8; size_t blk = 4096;
    u.f->set_size(T * N * blk * (k == K_WBTL ? 6 : 1));
    std::atomic<unsigned> bad(0); std::vector<std::thread> th; uint64_t seed = r.next(); unsigned ops = ctx.scale(60, 300);
    for (unsigned t = 0; t < T; ++t) th.emplace_back([&, t] {
        vp::Rng rr(seed + t); std::vector<uint64_t> tags(N, 0); std::vector<std::unique_ptr<Buf> > bufs; for (unsigned i = 0; i < N; ++i) bufs.emplace_back(new Buf(blk)); std::vector<request_ptr> rq(N);
        Buf exp(blk);
        try {
        for (unsigned o = 0; o < ops; ++o) {
            unsigned i = (unsigned)rr(N); uint64_t off = (i * T + t) * blk;
            if (!rq[i].empty()) { rq[i]->wait(); rq[i] = request_ptr(); }
            if (!tags[i] || rr.chance(1, 2)) { tags[i] = rr.next() | 1; fill_unique(bufs[i]->p, blk, tags[i]); rq[i] = u.f->awrite(bufs[i]->p, off, blk); }
            else { memset(bufs[i]->p, 0, blk); request_ptr q = u.f->aread(bufs[i]->p, off, blk); q->wait(); fill_unique(exp.p, blk, tags[i]); if (memcmp(exp.p, bufs[i]->p, blk)) { ++bad; vp::fail_async("io-content-threads", std::string(kind_name[k]) + ": read by one of several threads returned wrong data"); } vp::count("threaded_reads"); }
        }
        for (unsigned i = 0; i < N; ++i) if (!rq[i].empty()) rq[i]->wait();
        } catch (std::exception& e) { vp::fail_async("io-exception-threads", e.what()); for (unsigned i = 0; i < N; ++i) if (!rq[i].empty()) { try { rq[i]->wait(); } catch (...) { } } }
    });
    for (auto& x : th) x.join();
    vp::nontrivial(ctx.h ^ k);
}
// write-buffered translation layer with regions of different sizes that move through both buffers and the backing file
void wbtl_regions(vp::Ctx& ctx) {
    vp::Rng& r = ctx.rng; size_t wb = 4096 * 4 * r.range(1, 3);
    std::string path = ctx.tmp + "/w" + std::to_string(g_file_no++);
    struct G { stxxl::file* f; ~G() { delete f; } } g = { new wbtl_file(new syscall_file(path, file::CREAT | file::RDWR, 1020), wb, 2, 20) };
    struct Reg { uint64_t off; size_t len; std::string data; bool set; }; std::vector<Reg> rg; uint64_t off = 0;
    unsigned n = (unsigned)r.range(3, 24);
    for (unsigned i = 0; i < n; ++i) { Reg x = { off, 4096 * (size_t)r.range(1, r.chance(1, 3) ? wb / 4096 : 3), std::string(), false }; rg.push_back(x); off += x.len; }
    uint64_t size = off * 8 + 8 * wb, tag = r.next(); g.f->set_size(size); uint64_t live = 0; unsigned ops = (unsigned)r.range(40, 160);
    (void)live;
    for (unsigned o = 0; o < ops; ++o) {
        Reg& x = rg[r(n)]; unsigned op = (unsigned)r(10); ctx.note(op);
        try {
        if (op < 5 || !x.set) { Buf b(x.len); fill_unique(b.p, x.len, ++tag); x.set = false; g.f->awrite(b.p, x.off, x.len)->wait(); x.data.assign(b.p, x.len); x.set = true; vp::count("wbtl_region_writes"); }
        else if (op < 9) { Buf b(x.len); memset(b.p, 0x5A, x.len); g.f->aread(b.p, x.off, x.len)->wait(); VP_CHECK(!memcmp(b.p, x.data.data(), x.len), "io-content", "wbtl region [" << x.off << ",+" << x.len << ") differs from what was last written (operation " << o << ", write blocks of " << wb << ")"); vp::count("wbtl_region_reads"); }
        else { g.f->discard(x.off, x.len); x.set = false; vp::count("wbtl_region_discards"); }
        } catch (io_error& e) { VP_CHECK(std::string(e.what()).find("fragmented") != std::string::npos, "io-exception", e.what()); size += 4 * wb; g.f->set_size(size); vp::count("wbtl_growths"); } // may legally be full: make room
        if (r.chance(1, 30)) { size += wb * r.range(1, 3); g.f->set_size(size); VP_EQ((uint64_t)g.f->size(), size, "io-size", "wbtl size after growing"); }
    }
    for (auto& x : rg) if (x.set) { Buf b(x.len); g.f->aread(b.p, x.off, x.len)->wait(); VP_CHECK(!memcmp(b.p, x.data.data(), x.len), "io-content", "wbtl region [" << x.off << ",+" << x.len << ") differs at the end"); }
    vp::nontrivial(ctx.h);
}
}
VP_SCENARIO(wbtl_regions, 800, 12000) { wbtl_regions(ctx); }
VP_SCENARIO(byte_model, 4000, 60000) { IoTest t(ctx); t.run(); }
VP_SCENARIO(thread_regions, 240, 4000) { parallel_regions(ctx); }
