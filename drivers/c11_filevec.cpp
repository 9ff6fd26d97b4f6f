// C11: vectors bound to files: what is in the file, reopening, growth and shrinking, export.
#include "c10_vector.h"
#include "io_files.h"
#include <stxxl/io>
#include <dirent.h>
using namespace stxxl;
enum { FK_SYSCALL, FK_DIRECT, FK_AIO, FK_AIO_DIRECT, FK_MMAP, FK_MEM, FK_FPB, FK_N };
static const char* const fk_name[FK_N] = { "syscall", "syscall-direct", "linuxaio", "linuxaio-direct", "mmap", "memory", "fileperblock" };
static file* open_fk(int k, const std::string& path, int mode, unsigned q) {
    switch (k) {
    case FK_SYSCALL: return new syscall_file(path, mode, q);
    case FK_DIRECT: return new syscall_file(path, mode | file::DIRECT, q);
    case FK_AIO: return new linuxaio_file(path, mode, -2 - (int)q);
    case FK_AIO_DIRECT: return new linuxaio_file(path, mode | file::DIRECT, -2 - (int)q);
    case FK_MMAP: return new mmap_file(path, mode, q);
    case FK_MEM: return new mem_file(q);
    default: { file* f = new fileperblock_file<syscall_file>(path, mode, q); f->lock(); return f; }
    }
}
template <class T> static void os_check(const std::string& path, const VModel<T>& m, bool exact, const char* when, const std::string& tr) {
    std::string s = slurp(path); size_t want = m.size() * sizeof(T);
    if (exact) VP_EQ(s.size(), want, "file-length", "length of the file " << when << " of a vector of " << m.size() << " elements; " << tr);
    else VP_CHECK(s.size() >= want, "file-length", "file has " << s.size() << " bytes " << when << ", elements need " << want << "; " << tr);
    for (size_t i = 0; i < m.size(); ++i) if (m.def[i]) { T x; memcpy((void*)&x, s.data() + i * sizeof(T), sizeof(T)); VP_CHECK(x == m.v[i], "file-content", "element " << i << " of " << m.size() << " in the file is " << id_of(x) << " expected " << id_of(m.v[i]) << " " << when << "; " << tr); }
    vp::count("os_level_checks"); vp::count("elements_checked_in_file", m.size());
}

template <class V>
static void filevec(vp::Ctx& ctx) {
    typedef typename V::value_type T; vp::Rng& r = ctx.rng; const size_t N = V::block_type::size, P = V::page_size;
    uint64_t live = vp::monitor_stat().live_bytes; std::string tr; static unsigned no = 0; uint64_t id = r(1u << 20);
    std::string path = ctx.tmp + "/v" + std::to_string(no++);
    {
        VModel<T> m; int fam = (int)r(FK_N); std::unique_ptr<file> keep; // a memory file lives on between the vectors
        if (r.chance(1, 3) && fam < FK_MEM) { // a file that is there already
            size_t n = r.boundary(N, 5); std::vector<T> d; m.resize(n); for (size_t i = 0; i < n; ++i) { m.set(i, T(++id)); d.push_back(m.v[i]); }
            std::ofstream o(path.c_str(), std::ios::binary); if (n) o.write((const char*)&d[0], n * sizeof(T)); if (r.chance(1, 2) && sizeof(T) > 1) { size_t junk = r(sizeof(T)); std::string z(junk, 'x'); o.write(z.data(), junk); } o.close(); tr += "pre(" + std::to_string(n) + ")"; vp::count("foreign_files");
        }
        unsigned sessions = (unsigned)r.range(2, 5);
        for (unsigned s = 0; s < sessions; ++s) {
            int k = fam < FK_MEM ? (int)r(FK_MEM) : fam; bool ro = s > 0 && fam < FK_MEM && r.chance(1, 5); vp::cov("file", fk_name[k]); ctx.note(k);
            if (ro && k == FK_MMAP && m.size() % N) k = FK_SYSCALL; // a mapping cannot be read across the end of the file
            bool sync = k < FK_MEM && k != FK_MMAP && r.chance(1, 6);
            if (k != FK_MEM || !keep) keep.reset(open_fk(k, path, (ro ? file::RDONLY : file::RDWR | file::CREAT) | (sync ? file::SYNC : 0), 20 + (unsigned)r(3)));
            size_t n = m.size(); bool sized = k >= FK_MEM || r.chance(1, 3);
            if (sized && !ro && r.chance(1, 3)) { n = r.chance(1, 2) ? r(m.size() + 1) : r.boundary(N, 6); }
            tr += std::string(" |") + fk_name[k] + (ro ? "(ro)" : "") + (sized ? "(" + std::to_string(n) + ")" : "") + " ";
            std::unique_ptr<V> pv; unsigned pg = (unsigned)r.range(2, 5);
            if (!sized) pv.reset(r.chance(1, 2) ? new V(keep.get()) : new V(keep.get(), typename V::size_type(-1), pg)); else pv.reset(new V(keep.get(), n, pg));
            V* v = pv.get(); m.resize(n);
            VP_EQ((size_t)v->size(), n, "reopen-size", "size of the vector on the file; " << tr);
            VP_CHECK(v->get_file() == keep.get(), "file-bound", "get_file()");
            VTest<V> t(ctx); std::unique_ptr<V> other; VModel<T> om;
            if (ro) {
                const V& cv = *v; for (int i = 0; i < 60 && n; ++i) { size_t p = r(n); t.eq(cv[p], m, p, "read-only"); }
                size_t i = 0; for (typename V::const_iterator it = cv.begin(); it != cv.end(); ++it, ++i) t.eq(*it, m, i, "read-only const_iterator"); VP_EQ(i, n, "file-vector-iterator", "elements iterated");
                pv.reset(); keep.reset(); os_check(path, m, s > 0, "after reading", tr); vp::count("read_only_sessions"); continue;
            }
            if (r.chance(2, 3)) t.full_check(*v, m);
            unsigned ops = (unsigned)r.range(2, 25);
            for (unsigned o = 0; o < ops; ++o) {
                unsigned op = (unsigned)r(13); ctx.note(op); tr += (char)('a' + op); size_t sz = m.size();
                switch (op) {
                case 0: case 1: { size_t c = r.chance(1, 2) ? r.range(1, 30) : r.boundary(N, 2); for (size_t i = 0; i < c && m.size() < 8 * N * P; ++i) { T x = T(++id); v->push_back(x); m.push(x); } vp::count("pushed"); break; }
                case 2: if (sz) { size_t c = r.range(1, 60); for (size_t i = 0; i < c; ++i) { size_t p = r(sz); T x = T(++id); (*v)[p] = x; m.set(p, x); } } break;
                case 3: if (sz) { const V& cv = *v; size_t c = r.range(1, 60); for (size_t i = 0; i < c; ++i) { size_t p = r(sz); t.eq(cv[p], m, p, "const operator[]"); } } break;
                case 4: { size_t z = r.chance(1, 2) ? r.boundary(N, 6) : r(sz + 1); bool sh = r.chance(1, 2); if (sh || r.chance(1, 2)) v->resize(z, sh); else v->resize(z); m.resize(z); tr += "(" + std::to_string(z) + (sh ? "s)" : ")"); vp::count(z < sz ? "shrunk" : "grown"); break; }
                case 5: { v->flush(); if (k < FK_MEM) os_check(path, m, false, "after a flush", tr); vp::count("flushes"); break; }
                case 6: v->reserve(sz + r(3 * N)); break;
                case 7: if (sz) { size_t a = r(sz), b = r.range(a, sz - 1); typename V::bufwriter_type bw(v->begin() + a, (unsigned)r.range(1, 4)); for (size_t i = a; i <= b; ++i) { T x = T(++id); bw << x; m.set(i, x); } bw.finish(); vp::count("bufwriter_runs"); } break;
                case 8: if (sz) { size_t a = r(sz); for (typename V::iterator it = v->begin() + a; it != v->end() && r.chance(99, 100); ++it, ++a) { T x = T(++id); *it = x; m.set(a, x); } } break;
                case 9: if (sz && r.chance(1, 2)) { if (r.chance(1, 2)) { v->clear(); m.resize(0); tr += "(clear)"; } else { v->pop_back(); m.resize(sz - 1); } } break;
                case 10: { V c(*v); VP_CHECK(c.get_file() == NULL, "copy-unbound", "a copy of a file-bound vector is bound to a file"); VP_EQ((size_t)c.size(), sz, "copy-size", "size of the copy; " << tr); const V& cc = c; for (size_t i = 0; i < sz; ++i) t.eq(cc[i], m, i, "copy"); if (sz) c[r(sz)] = T(++id); vp::count("copies"); break; }
                case 11: if (other == NULL) { other.reset(new V(r(3 * N))); om.resize(other->size()); for (size_t i = 0; i < om.size(); ++i) { T x = T(++id); (*other)[i] = x; om.set(i, x); } }
                    std::swap(*v, *other); std::swap(m, om); VP_CHECK(other->get_file() == keep.get() && v->get_file() == NULL, "swap-file", "the file of swapped vectors"); t.full_check(*v, m); t.full_check(*other, om); if (r.chance(1, 2)) { v->push_back(T(++id)); m.push(T(id)); other->push_back(T(++id)); om.push(T(id)); }
                    std::swap(*v, *other); std::swap(m, om); vp::count("file_vector_swaps"); break;
                case 12: t.full_check(*v, m); break;
                }
                VP_EQ((size_t)v->size(), m.size(), "file-vector-size", "size; " << tr); vp::count("file_vector_ops");
            }
            pv.reset();
            if (k < FK_MEM) { if (r.chance(1, 2)) keep.reset(); os_check(path, m, true, "after the end", tr); }
            else VP_CHECK(k == FK_FPB || (size_t)keep->size() == m.size() * sizeof(T), "file-length", "memory file has " << keep->size() << " bytes");
            if (k != FK_MEM) keep.reset();
            vp::count("sessions");
        }
    }
    unlink(path.c_str()); if (r.chance(1, 1)) { std::string cmd = path.substr(path.rfind('/') + 1) + "_fpb_"; if (DIR* d = opendir(ctx.tmp.c_str())) { while (dirent* e = readdir(d)) if (!strncmp(e->d_name, cmd.c_str(), cmd.size())) unlink((ctx.tmp + "/" + e->d_name).c_str()); closedir(d); } }
    VP_EQ(vp::monitor_stat().live_bytes, live, "file-vector-leak", "external bytes held afterwards; " << tr);
    vp::nontrivial(ctx.h);
    if (r.chance(1, 40)) vp::sample(tr);
}

template <class V>
static void export_scn(vp::Ctx& ctx) {
    typedef typename V::value_type T; vp::Rng& r = ctx.rng; const size_t N = V::block_type::size; static unsigned no = 0; uint64_t id = r(1u << 20);
    if (ctx.cfg != 6) { vp::count("export_skipped"); return; } // the first disk has one file per block
    std::string pre = "exp" + std::to_string(no++) + "_", tr; vp::monitor_lenient(true);
    {
        V v; VModel<T> m; unsigned ops = (unsigned)r.range(1, 12);
        for (unsigned o = 0; o < ops; ++o) {
            unsigned op = (unsigned)r(5); tr += (char)('a' + op); ctx.note(op);
            if (op <= 1) { size_t c = r.boundary(N, 3); for (size_t i = 0; i < c; ++i) { T x = T(++id); v.push_back(x); m.push(x); } }
            else if (op == 2) { size_t z = r(m.size() + 1); bool sh = r.chance(1, 2); v.resize(z, sh); m.resize(z); }
            else if (op == 3) { v.reserve(m.size() + r(3 * N)); }
            else if (m.size()) { for (int i = 0; i < 20; ++i) { size_t p = r(m.size()); T x = T(++id); v[p] = x; m.set(p, x); } }
        }
        if (r.chance(1, 4)) { size_t z = m.size() / N * N; v.resize(z); m.resize(z); }
        v.flush(); v.export_files(pre);
        size_t nf = (m.size() + N - 1) / N, at = 0, got = 0; std::set<std::string> names;
        if (DIR* d = opendir(ctx.tmp.c_str())) { while (dirent* e = readdir(d)) if (!strncmp(e->d_name, pre.c_str(), pre.size())) names.insert(e->d_name); closedir(d); }
        VP_EQ(names.size(), nf, "export-files", "number of exported files for " << m.size() << " elements; " << tr);
        for (const std::string& nm : names) { // in ascending order
            char want[32]; snprintf(want, sizeof want, "%09u", (unsigned)got++); VP_EQ(nm, pre + want, "export-names", "name of the file");
            std::string s = slurp(ctx.tmp + "/" + nm); VP_CHECK(s.size() % sizeof(T) == 0 && at + s.size() / sizeof(T) <= m.size(), "export-length", nm << " has " << s.size() << " bytes; elements so far " << at << " of " << m.size() << "; " << tr);
            for (size_t i = 0; i < s.size(); i += sizeof(T), ++at) { T x; memcpy((void*)&x, s.data() + i, sizeof(T)); VP_CHECK(!m.def[at] || x == m.v[at], "export-content", "element " << at << " is " << id_of(x) << " expected " << id_of(m.v[at]) << "; " << tr); }
            unlink((ctx.tmp + "/" + nm).c_str());
        }
        VP_EQ(at, m.size(), "export-length", "elements in the exported files; " << tr); vp::count("exports"); vp::count("exported_elements", at);
    }
    vp::nontrivial(ctx.h);
}
VP_SCENARIO(rejects_padding, 6, 40) { // an element size that does not divide the block cannot be mapped to a file
    typedef stxxl::vector<Rec12, 2, lru_pager<2>, 4096> V; std::string p = ctx.tmp + "/pad" + std::to_string(ctx.rng(1u << 30));
    { syscall_file f(p, file::CREAT | file::RDWR, 20); bool threw = false; try { V v(&f, ctx.rng(3000)); } catch (std::runtime_error&) { threw = true; } VP_CHECK(threw, "padding-rejected", "vector of 12 byte elements on a file accepted although its blocks are padded"); }
    unlink(p.c_str()); vp::count("padding_rejected");
}
#define FV(name, q, t, ...) typedef stxxl::vector<__VA_ARGS__> V_ ## name; VP_SCENARIO_T(filevec, name, q, t, V_ ## name)
struct Rec64 { uint64_t a; char pad[48]; uint64_t z; Rec64() { } explicit Rec64(uint64_t v) : a(v), z(~v) { memset(pad, (int)(v * 31), sizeof pad); } bool operator == (const Rec64& o) const { return a == o.a && z == o.z && memcmp(pad, o.pad, sizeof pad) == 0; } bool operator < (const Rec64& o) const { return a < o.a; } };
template <> inline uint64_t id_of(const Rec64& t) { return t.a; }
struct Rec4k { uint64_t a; char pad[4080]; uint64_t z; Rec4k() { } explicit Rec4k(uint64_t v) : a(v), z(~v) { memset(pad, (int)(v * 31), sizeof pad); } bool operator == (const Rec4k& o) const { return a == o.a && z == o.z && memcmp(pad, o.pad, sizeof pad) == 0; } bool operator < (const Rec4k& o) const { return a < o.a; } };
template <> inline uint64_t id_of(const Rec4k& t) { return t.a; }







typedef stxxl::vector<Rec64, 2, lru_pager<2>, 4096, single_disk> VE1; typedef stxxl::vector<uint64_t, 1, lru_pager<2>, 4096, single_disk> VE2; typedef stxxl::vector<Rec12, 2, lru_pager<2>, 4096, single_disk> VE3;
VP_SCENARIO_T(export_scn, export_r64, 600, 12000, VE1);
VP_SCENARIO_T(export_scn, export_u64, 600, 12000, VE2);
VP_SCENARIO_T(export_scn, export_r12, 600, 12000, VE3);
FV(u64_p1, 640, 12000, uint64_t, 1, lru_pager<2>, 4096);
FV(u64_p3, 640, 12000, uint64_t, 3, lru_pager<2>, 4096);
FV(u8_p2, 240, 6000, uint8_t, 2, lru_pager<2>, 4096);
FV(u32_p2_rand, 480, 9000, uint32_t, 2, random_pager<2>, 8192);
FV(r64_p4, 640, 12000, Rec64, 4, lru_pager<2>, 4096);
FV(r64_p1_big, 480, 9000, Rec64, 1, lru_pager<3>, 16384);
FV(r4k, 640, 12000, Rec4k, 2, lru_pager<2>, 8192);
