// C06: configuration lines against a generator that knows what they mean; disk files of child processes.
#include "vp.h"
#include "vp_monitor.h"
#include <stxxl/bits/mng/config.h>
#include <stxxl/mng>
#include <stxxl/vector>
#include <sys/wait.h>
#include <sys/stat.h>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <fstream>
#include <memory>
#include <functional>
#include <set>
#include <map>
using namespace stxxl;

namespace {
struct Want { std::string path, io; uint64_t size; bool autogrow, del, flash, raw, unlink; int direct, queue, qlen; unsigned devid; };
std::string show(const Want& w) { std::ostringstream o; o << w.path << "|" << w.size << "|" << w.io << "|grow" << w.autogrow << " del" << w.del << " dir" << w.direct << " fl" << w.flash << " q" << w.queue << " dev" << w.devid << " raw" << w.raw << " unl" << w.unlink << " ql" << w.qlen; return o.str(); }
Want get(const disk_config& c) { Want w = { c.path, c.io_impl, c.size, c.autogrow, c.delete_on_exit, c.flash, c.raw_device, c.unlink_on_open, (int)c.direct, c.queue, c.queue_length, c.device_id }; return w; }
std::string sp(vp::Rng& r, unsigned max = 3) { return std::string(r.chance(1, 2) ? 0 : r(max), ' '); }

// a size of up to 1 PiB in a random notation
std::string gen_size(vp::Rng& r, uint64_t& bytes) {
    static const char* const u = "KMGTP"; uint64_t n = r.chance(1, 8) ? 0 : r.range(1, 5000); std::ostringstream o; o << n; o << sp(r); unsigned w = (unsigned)r(4); bytes = n;
    if (w == 0) { bytes = n * 1024 * 1024; return o.str(); }                 // default unit MiB
    if (w == 1) { o << (r.chance(1, 2) ? 'b' : 'B'); return o.str(); }
    unsigned k = (unsigned)r(5); char c = u[k]; if (r.chance(1, 2)) c = (char)tolower(c); o << c; uint64_t base = 1000; if (r.chance(1, 2)) { o << (r.chance(1, 2) ? 'i' : 'I'); base = 1024; } if (r.chance(1, 2)) o << (r.chance(1, 2) ? 'b' : 'B');
    for (unsigned i = 0; i <= k; ++i) bytes *= base; return o.str();
}
std::string gen_line(vp::Rng& r, Want& w, bool allow_pid) {
    std::ostringstream o; w.flash = r.chance(1, 3); o << (w.flash ? "flash=" : "disk=");
    static const char pc[] = "abcXYZ019/_-.+ "; std::string p = "/"; unsigned n = (unsigned)r.range(1, 20); for (unsigned i = 0; i < n; ++i) p += pc[r(sizeof pc - 1)];
    w.path = p; if (allow_pid && r.chance(1, 3)) { size_t at = r(p.size()) + 1; std::ostringstream pid; pid << getpid(); w.path = p.substr(0, at) + pid.str() + p.substr(at); p = p.substr(0, at) + "###" + p.substr(at); }
    if (r.chance(1, 6)) { p += "=x"; w.path += "=x"; }
    o << p << "," << sp(r) << gen_size(r, w.size) << sp(r) << "," << sp(r);
    static const char* const ios[] = { "syscall", "linuxaio", "mmap", "memory", "fileperblock_syscall", "fileperblock_mmap", "wbtl", "wincall", "boostfd", "simdisk" }; w.io = ios[r(10)]; o << w.io;
    w.autogrow = true; w.del = w.size == 0; w.direct = 1; w.raw = w.unlink = false; w.queue = file::DEFAULT_QUEUE; w.devid = file::DEFAULT_DEVICE_ID; w.qlen = 0;
    unsigned k = (unsigned)r(5);
    for (unsigned i = 0; i < k; ++i) {
        o << std::string(r.range(1, 2), ' ');
        switch (r(9)) {
        case 0: { static const char* const t[] = { "autogrow", "autogrow=on", "autogrow=yes", "noautogrow", "autogrow=off", "autogrow=no" }; unsigned j = (unsigned)r(6); o << t[j]; w.autogrow = j < 3; break; }
        case 1: o << (r.chance(1, 2) ? "delete" : "delete_on_exit"); w.del = true; break;
        case 2: { static const char* const t[] = { "nodirect", "direct=off", "direct=no", "direct=try", "direct", "direct=on", "direct=yes" }; unsigned j = (unsigned)r(7); o << t[j]; w.direct = j < 3 ? 0 : j == 3 ? 1 : 2; break; }
        case 3: if (w.io != "linuxaio") { w.queue = (int)r(40); o << "queue=" << w.queue; } break;
        case 4: if (w.io == "linuxaio") { w.qlen = (int)r.range(1, 500); o << "queue_length=" << w.qlen; } break;
        case 5: w.devid = (unsigned)r(30); o << (r.chance(1, 2) ? "devid=" : "device_id=") << w.devid; break;
        case 6: if (w.io == "syscall") { o << "raw_device"; w.raw = true; } break;
        case 7: if (w.io == "syscall" || w.io == "linuxaio" || w.io == "mmap" || w.io == "wbtl") { o << (r.chance(1, 2) ? "unlink" : "unlink_on_open"); w.unlink = true; } break;
        default: break;
        }
    }
    if (r.chance(1, 4)) o << sp(r);
    return o.str();
}

void parsing(vp::Ctx& ctx) {
    vp::Rng& r = ctx.rng; disk_config reused;
    for (unsigned i = 0; i < 60; ++i) {
        Want w; std::string line = gen_line(r, w, true); vp::cov("fileio", w.io);
        disk_config fresh; const char* how = "a new"; disk_config* c = &fresh;
        try {
            if (r.chance(1, 3)) fresh = disk_config(line);
            else if (r.chance(1, 2)) { c = &reused; how = "a reused"; c->parse_line(line); }
            else c->parse_line(line);
        } catch (std::exception& e) { VP_CHECK(false, "config-parse", "valid line '" << line << "' is rejected: " << e.what()); }
        VP_EQ(show(get(*c)), show(w), "config-parse", how << " disk_config parsed from '" << line << "'");
        // format and parse again
        std::ostringstream o; o << (c->flash ? "flash=" : "disk=") << c->path << "," << c->size << "B," << c->fileio_string(); disk_config b;
        try { b.parse_line(o.str()); } catch (std::exception& e) { VP_CHECK(false, "config-roundtrip", "'" << o.str() << "', formatted from '" << line << "', is rejected: " << e.what()); }
        VP_EQ(show(get(b)), show(w), "config-roundtrip", "configuration formatted from '" << line << "' and parsed again");
        // the three-argument constructor parses the fileio part alike
        if (w.size) { try { disk_config t(c->path, c->size, c->fileio_string()); t.flash = w.flash; VP_EQ(show(get(t)), show(w), "config-roundtrip", "constructor with fileio '" << c->fileio_string() << "'"); } catch (std::exception& e) { VP_CHECK(false, "config-roundtrip", "'" << c->fileio_string() << "' is rejected: " << e.what()); } }
        vp::count("lines_parsed"); vp::nontrivial(vp::hash_combine(vp::mix(std::hash<std::string>()(show(w))), 1));
    }
    vp::sample(show(get(reused)));
}

void malformed(vp::Ctx& ctx) {
    vp::Rng& r = ctx.rng;
    for (unsigned i = 0; i < 60; ++i) {
        Want w; std::string line; do line = gen_line(r, w, false); while (w.path.find('=') != std::string::npos); std::string bad; const char* what = "";
        size_t eq = line.find('='), c1 = line.find(','), c2 = line.find(',', c1 + 1); std::string head = line.substr(0, c1), sz = line.substr(c1 + 1, c2 - c1 - 1), io = line.substr(c2 + 1);
        unsigned m = (unsigned)r(20); vp::cov("malformation", std::to_string(m));
        switch (m) {
        case 0: { static const char* const t[] = { "dsk", "Disk", "disks", "", " disk", "flas", "#disk", "disk " }; bad = t[r(8)] + line.substr(eq); what = "unknown token"; break; }
        case 1: bad = line.substr(eq + 1); if (bad.find('=') != std::string::npos) continue; what = "no token"; break;
        case 2: { static const char* const t[] = { "", " ", "abc", "x12", "12x", "1 2", "12 QB", "12iB", "0x10", "1.5G", "12MM", "12Bi", "k", "GiB", "-5", " -1 GiB", "1e3", "12,5" }; unsigned j = (unsigned)r(17); bad = head + "," + t[j] + "," + io; what = "bad size"; break; }
        case 3: { static const char* const t[] = { "99999999999999999999", "20000 PiB", "18446744073709551616B", "99999999999999PiB", "18446744073709551615k" }; bad = head + "," + t[r(5)] + "," + io; what = "size too large"; break; }
        case 4: bad = head; what = "fields missing"; break;
        case 5: bad = head + "," + sz; what = "fields missing"; break;
        case 6: bad = head + "," + sz + "," + std::string(r(3), ' '); what = "empty fileio"; break;
        case 7: { static const char* const t[] = { "foo", "deletee", "Delete", "del", "unlinked", "unlink=1", "delete=yes", "raw", "rawdevice", "no", "=", "autogrows", "directt", "flash=1", "queued=3", "noqueue", "devid", "queue", "queue_length" }; bad = line + " " + t[r(19)]; what = "unknown option"; break; }
        case 8: { static const char* const t[] = { "autogrow=", "autogrow=maybe", "autogrow=1", "autogrow=try", "autogrow=On", "noautogrow=off", "autogrow=on=on" }; bad = line + " " + t[r(7)]; what = "bad autogrow"; break; }
        case 9: { static const char* const t[] = { "direct=", "direct=maybe", "direct=0", "nodirect=on", "direct=ON", "direct=trye" }; bad = line + " " + t[r(6)]; what = "bad direct"; break; }
        case 10: { if (w.io == "linuxaio") continue; static const char* const t[] = { "queue=", "queue=x", "queue=1x", "queue=1.5", "queue=99999999999999999999", "queue=4=5", "queue=0x3" }; bad = line + " " + t[r(7)]; what = "bad queue"; break; }
        case 11: { static const char* const t[] = { "devid=", "devid=x", "devid=7x", "device_id=", "device_id=two", "devid=99999999999999999999" }; bad = line + " " + t[r(6)]; what = "bad devid"; break; }
        case 12: { if (w.io != "linuxaio") continue; static const char* const t[] = { "queue_length=", "queue_length=x", "queue_length=3k", "queue=1" }; bad = line + " " + t[r(4)]; what = "bad linuxaio option"; break; }
        case 13: { if (w.io == "linuxaio") continue; bad = line + " queue_length=5"; what = "queue_length without linuxaio"; break; }
        case 14: { if (w.io == "syscall") continue; bad = line + " raw_device"; what = "raw_device without syscall"; break; }
        case 15: { if (w.io == "syscall" || w.io == "linuxaio" || w.io == "mmap" || w.io == "wbtl") continue; bad = line + (r.chance(1, 2) ? " unlink" : " unlink_on_open"); what = "unlink unsupported"; break; }
        default: continue;
        }
        bool threw = false; disk_config c; Want g; try { c.parse_line(bad); g = get(c); } catch (std::exception&) { threw = true; }
        VP_CHECK(threw, "config-malformed", what << ": '" << bad << "' is accepted as " << show(g));
        vp::count("malformed_lines"); vp::nontrivial(vp::hash_combine(std::hash<std::string>()(bad), 2));
    }
}

// runs body in a child process (own singletons); returns its exit status
struct Child {
    std::string log;
    int run(vp::Ctx& ctx, const std::string& dir, const std::function<void(FILE*)>& body, bool quick_exit = false) {
        std::string out = dir + "/report";
        fflush(stdout); fflush(stderr);
        pid_t p = fork(); if (p < 0) throw std::runtime_error("fork");
        if (p == 0) {
            if (chdir((dir + "/cwd").c_str())) _exit(50);
            int fd = open((dir + "/log").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); dup2(fd, 1); dup2(fd, 2);
            FILE* f = fopen(out.c_str(), "w"); int rc = 0;
            try { body(f); } catch (vp::Failure& e) { fprintf(f, "FAIL %s %s\n", e.key.c_str(), e.what()); rc = 51; } catch (std::exception& e) { fprintf(f, "EXC %s\n", e.what()); rc = 52; }
            fclose(f); if (quick_exit) _exit(rc); exit(rc);
        }
        int st; waitpid(p, &st, 0); std::ifstream i(out.c_str()); std::stringstream ss; ss << i.rdbuf(); log = ss.str(); (void)ctx;
        if (WIFSIGNALED(st)) return 1000 + WTERMSIG(st); return WEXITSTATUS(st);
    }
    std::string tail(const std::string& dir) { std::ifstream i((dir + "/log").c_str()); std::stringstream ss; ss << i.rdbuf(); std::string s = ss.str(); return s.size() > 1500 ? s.substr(s.size() - 1500) : s; }
};
struct Scratch { std::string d; Scratch(vp::Ctx& c) { d = c.tmp + "/c" + std::to_string(c.rng.next()); mkdir(d.c_str(), 0755); mkdir((d + "/cwd").c_str(), 0755); mkdir((d + "/home").c_str(), 0755); mkdir((d + "/data").c_str(), 0755); }
    static void rm(const std::string& p) { DIR* x = opendir(p.c_str()); if (!x) { unlink(p.c_str()); return; } while (dirent* e = readdir(x)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string q = p + "/" + n; struct stat s; if (!lstat(q.c_str(), &s) && S_ISDIR(s.st_mode)) rm(q); else unlink(q.c_str()); } closedir(x); rmdir(p.c_str()); }
    ~Scratch() { rm(d); } };
bool ex(const std::string& p) { struct stat s; return lstat(p.c_str(), &s) == 0; }
long long fsize(const std::string& p) { struct stat s; return lstat(p.c_str(), &s) ? -1 : (long long)s.st_size; }
void put(const std::string& p, const std::string& s) { std::ofstream o(p.c_str()); o << s; }
void setorunset(const char* k, bool set, const std::string& v) { if (set) setenv(k, v.c_str(), 1); else unsetenv(k); }

// which of the possible configuration files is used
void search(vp::Ctx& ctx) {
    vp::Rng& r = ctx.rng; Scratch s(ctx); Child c;
    bool env = r.chance(1, 2), host = r.chance(2, 3), home = r.chance(4, 5); unsigned exist = 0; for (unsigned i = 0; i < 5; ++i) if (r.chance(2, 5)) exist |= 1u << i; ctx.note(exist * 8 + env * 4 + host * 2 + home);
    std::string hn = "thishost"; std::string f[5] = { s.d + "/env.cfg", s.d + "/cwd/.stxxl." + hn, s.d + "/cwd/.stxxl", s.d + "/home/.stxxl." + hn, s.d + "/home/.stxxl" };
    for (unsigned i = 0; i < 5; ++i) if (exist >> i & 1) put(f[i], "# comment\n\ndisk=" + s.d + "/data/x" + std::to_string(i) + "," + std::to_string(i + 1) + "KiB,memory\n#disk=no\n");
    int want = 5; bool usable[5] = { env, host, true, home && host, home };
    for (unsigned i = 5; i-- > 0; ) if (usable[i] && (exist >> i & 1)) want = (int)i;
    int rc = c.run(ctx, s.d, [&](FILE* o) {
        setorunset("STXXLCFG", env, f[0]); setorunset("HOSTNAME", host, hn); setorunset("HOME", home, s.d + "/home");
        config* cf = config::get_instance(); cf->check_initialized(); fprintf(o, "%u %llu %s\n", (unsigned)cf->disks_number(), (unsigned long long)cf->disk_size(0), cf->disk_path(0).c_str());
    }, true);
    VP_CHECK(rc == 0, "config-search", "child ended with " << rc << ": " << c.log << c.tail(s.d));
    std::ostringstream w; if (want < 5) w << "1 " << (want + 1) * 1024 << " " << s.d << "/data/x" << want << "\n"; else w << "1 " << 1000 * 1024 * 1024 << " /var/tmp/stxxl\n";
    VP_EQ(c.log, w.str(), "config-search", "configuration used with files " << exist << " (1 $STXXLCFG, 2 ./.stxxl.HOST, 4 ./.stxxl, 8 ~/.stxxl.HOST, 16 ~/.stxxl), STXXLCFG " << env << " HOSTNAME " << host << " HOME " << home);
    vp::count("searches"); vp::cov("config_source", std::to_string(want)); vp::nontrivial(vp::hash_combine(ctx.h, 3));
}

// order, ranges and sizes of several disks, from a file or by add_disk, then files during and after the run
void disks(vp::Ctx& ctx) {
    vp::Rng& r = ctx.rng; Scratch s(ctx); Child c; struct D { std::string path, io; uint64_t size; bool flash, del, unl, grow; long long devid; int queue; std::string line; }; std::vector<D> ds; unsigned n = (unsigned)r.range(1, 5);
    bool by_file = r.chance(1, 2), then_add = by_file && r.chance(1, 4); std::ostringstream cfg; ctx.note(n * 4 + by_file * 2 + then_add);
    for (unsigned i = 0; i < n; ++i) {
        D d; d.path = s.d + (r.chance(1, 3) ? "/data/#d" : "/data/d") + std::to_string(i); static const char* const ios[] = { "syscall", "linuxaio", "mmap", "memory", "syscall", "fileperblock_syscall" }; d.io = ios[r(6)]; d.size = r.range(2, 12) * 64 * 1024; d.flash = r.chance(1, 3);
        bool ufs = d.io == "syscall" || d.io == "linuxaio" || d.io == "mmap"; d.unl = ufs && r.chance(1, 3); d.del = !d.unl && r.chance(1, 2); d.grow = r.chance(1, 2); d.devid = r.chance(1, 4) ? (long long)r(9) : -1; d.queue = d.io != "linuxaio" && r.chance(1, 4) ? (int)r(6) : -1;
        if (d.grow && ufs && r.chance(1, 6)) { d.size = 0; d.del = true; }
        std::ostringstream o; o << (d.flash ? "flash=" : "disk=") << d.path << "," << d.size << "B," << d.io << (d.grow ? (r.chance(1, 2) ? " autogrow" : "") : " noautogrow") << (d.unl ? " unlink" : "") << (d.del ? " delete" : "") << (r.chance(1, 2) ? " nodirect" : ""); if (d.devid >= 0) o << " devid=" << d.devid; if (d.queue >= 0) o << " queue=" << d.queue; d.line = o.str(); cfg << d.line << "\n"; ds.push_back(d); ctx.note(std::hash<std::string>()(d.io) + d.flash + d.unl * 2 + d.del * 4 + d.grow * 8);
        vp::cov("disk_kind", d.io + (d.unl ? " unlink" : "") + (d.del ? " delete" : "") + (d.grow ? "" : " fixed") + (d.flash ? " flash" : ""));
    }
    std::vector<D> order; for (auto& d : ds) if (!d.flash) order.push_back(d); unsigned nreg = (unsigned)order.size(); for (auto& d : ds) if (d.flash) order.push_back(d);
    unsigned nfile = by_file ? (then_add ? (unsigned)r.range(1, n) : n) : 0;
    if (nfile) { std::ostringstream o; for (unsigned i = 0; i < nfile; ++i) o << ds[i].line << "\n"; put(s.d + "/cfg", o.str()); }
    bool use = r.chance(3, 4); unsigned growth = r.chance(1, 2) ? 1 : 0; uint64_t cseed = r.next(); bool keep_alloc = r.chance(1, 3);
    int rc = c.run(ctx, s.d, [&](FILE* o) {
        unsetenv("HOME"); unsetenv("STXXLCFG"); config* cf = config::get_instance();
        if (nfile == n && by_file) { setenv("STXXLCFG", (s.d + "/cfg").c_str(), 1); }
        else { if (nfile) cf->load_config_file(s.d + "/cfg"); for (unsigned i = nfile; i < n; ++i) cf->add_disk(disk_config(ds[i].line)); }
        cf->check_initialized();
        VP_EQ((size_t)cf->disks_number(), (size_t)n, "config-disks", "number of disks");
        uint64_t tot = 0;
        for (unsigned i = 0; i < n; ++i) { VP_EQ(cf->disk_path(i), order[i].path, "config-order", "disk " << i << " of " << n); VP_EQ((uint64_t)cf->disk_size(i), order[i].size, "config-disks", "size of disk " << i); VP_EQ(cf->disk_io_impl(i), order[i].io, "config-disks", "access method of disk " << i); VP_EQ(cf->disk(i).flash, order[i].flash, "config-disks", "flash flag of disk " << i); tot += order[i].size; }
        VP_EQ((uint64_t)cf->total_size(), tot, "config-disks", "total size");
        VP_CHECK(cf->regular_disk_range() == std::make_pair(0u, nreg), "config-ranges", "regular disks [" << cf->regular_disk_range().first << "," << cf->regular_disk_range().second << ") instead of [0," << nreg << ")");
        VP_CHECK(cf->flash_range() == std::make_pair(nreg, n), "config-ranges", "flash disks [" << cf->flash_range().first << "," << cf->flash_range().second << ") instead of [" << nreg << "," << n << ")");
        if (!use) { fprintf(o, "unused\n"); _exit(0); }
        block_manager* bm = block_manager::get_instance(); VP_EQ((uint64_t)bm->get_total_bytes(), tot, "config-disks", "bytes of the block manager"); VP_EQ((uint64_t)bm->get_free_bytes(), tot, "config-disks", "free bytes of the block manager");
        std::set<unsigned> autos, ids; unsigned nauto = 0;
        for (unsigned i = 0; i < n; ++i) { unsigned id = cf->disk(i).device_id; ids.insert(id); if (order[i].devid >= 0) VP_EQ((long long)id, order[i].devid, "config-devid", "device id of disk " << i); else { ++nauto; autos.insert(id); VP_CHECK(id != (unsigned)file::DEFAULT_DEVICE_ID, "config-devid", "disk " << i << " has no device id"); }
            VP_CHECK(id < cf->get_max_device_id(), "config-devid", "device id " << id << " not below the maximum " << cf->get_max_device_id());
            if (order[i].queue >= 0) VP_EQ(cf->disk(i).queue, order[i].queue, "config-queue", "queue of disk " << i); }
        VP_EQ(autos.size(), (size_t)nauto, "config-devid", "distinct automatic device ids");
        // while running
        for (unsigned i = 0; i < n; ++i) { const D& d = order[i]; bool ufs = d.io == "syscall" || d.io == "linuxaio" || d.io == "mmap"; if (ufs) { VP_EQ(ex(d.path), !d.unl, "config-unlink", d.line << ": file visible while running"); if (!d.unl) VP_EQ(fsize(d.path), (long long)d.size, "config-size", d.line << ": file size after opening"); } if (d.io == "memory") VP_CHECK(!ex(d.path), "config-memory", "memory disk created a file"); }
        // use them
        vp::Rng q(cseed); typedef typed_block<65536, uint64_t> blk; std::vector<blk::bid_type> bids; blk* b = new blk; std::vector<unsigned> used(n, 0);
        for (unsigned i = 0; i < n; ++i) { unsigned cap = (unsigned)(order[i].size / 65536), cnt = growth && order[i].grow ? cap + (unsigned)q.range(1, 5) : (unsigned)q.range(0, cap); used[i] = cnt; for (unsigned j = 0; j < cnt; ++j) { blk::bid_type id; bm->new_block(single_disk((int)i), id); bids.push_back(id); for (unsigned k = 0; k < blk::size; ++k) (*b)[k] = bids.size() * 1000003 + k; b->write(id)->wait(); } }
        for (size_t j = 0; j < bids.size(); ++j) { b->read(bids[j])->wait(); for (unsigned k = 0; k < blk::size; k += 511) VP_CHECK((*b)[k] == (j + 1) * 1000003 + k, "config-data", "block content"); }
        if (!keep_alloc) bm->delete_blocks(bids.begin(), bids.end());
        delete b; fprintf(o, "used"); for (unsigned i = 0; i < n; ++i) fprintf(o, " %u", used[i]); fprintf(o, "\n");
    }, false);
    VP_CHECK(rc == 0, rc >= 1000 ? "config-crash" : c.log.compare(0, 4, "FAIL") == 0 ? c.log.substr(5, c.log.find(' ', 5) - 5) : "config-child", "child ended with " << rc << ": " << c.log << "\n" << cfg.str() << c.tail(s.d));
    if (use) {
        std::istringstream is(c.log); std::string wd; is >> wd; std::vector<unsigned> used(n); for (auto& u : used) is >> u;
        // after the end of the program
        for (unsigned i = 0; i < n; ++i) { const D& d = order[i]; bool ufs = d.io == "syscall" || d.io == "linuxaio" || d.io == "mmap";
            if (d.del || d.unl) VP_CHECK(!ex(d.path), "config-cleanup", d.line << ": file still exists after the end of the program");
            else if (ufs) { VP_CHECK(ex(d.path), "config-cleanup", d.line << ": file disappeared"); long long fs = fsize(d.path);
                if (!d.grow) VP_EQ(fs, (long long)d.size, "config-size", d.line << ": size of the disk file after the end of the program");
                else VP_CHECK(fs >= (long long)d.size, "config-size", d.line << ": disk file shrunk to " << fs); }
            if (d.io == "fileperblock_syscall") { VP_CHECK(!ex(d.path + "_fpb_lock"), "config-cleanup", d.line << ": lock file left"); unsigned left = 0; DIR* x = opendir((s.d + "/data").c_str()); std::string pre = "d" + d.path.substr(d.path.rfind("/d") + 2) + "_fpb_"; while (dirent* e = readdir(x)) if (std::string(e->d_name).compare(0, pre.size(), pre) == 0) ++left; closedir(x); if (!keep_alloc) VP_EQ(left, 0u, "config-cleanup", d.line << ": block files left after all blocks were released"); }
            vp::count(d.del ? "deleted_disks" : d.unl ? "unlinked_disks" : "kept_disks"); if (!d.grow) vp::count("fixed_disks"); if (d.size / 65536 < used[i]) vp::count("grown_disks");
        }
    }
    vp::count("disk_setups"); if (nreg < n) vp::count("flash_setups"); vp::nontrivial(vp::hash_combine(ctx.h, 4));
}
}
VP_SCENARIO(parsing, 400, 8000) { parsing(ctx); }
VP_SCENARIO(malformed, 400, 8000) { malformed(ctx); }
VP_SCENARIO(search, 240, 2400) { search(ctx); }
VP_SCENARIO(disks, 400, 6000) { disks(ctx); }
