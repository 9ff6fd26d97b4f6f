#include "vp.h"
#include "vp_monitor.h"
#include <map>
#include <set>
#include <mutex>
#include <algorithm>
#include <cstdio>
#include <iostream>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <typeinfo>
#include <sys/types.h>
#include <sys/stat.h>

namespace vp {
struct Scn { const char* name; ScenarioFn fn; unsigned q, t; };
static std::vector<Scn>& scns() { static std::vector<Scn>* v = new std::vector<Scn>; return *v; }
Reg::Reg(const char* name, ScenarioFn fn, unsigned q, unsigned t) { Scn s = { name, fn, q, t }; scns().push_back(s); }

static std::mutex& mtx() { static std::mutex* m = new std::mutex; return *m; }
static std::map<std::string, uint64_t>& counters() { static std::map<std::string, uint64_t>* m = new std::map<std::string, uint64_t>; return *m; }
static std::map<std::string, std::set<std::string> >& covs() { static std::map<std::string, std::set<std::string> >* m = new std::map<std::string, std::set<std::string> >; return *m; }
static std::set<uint64_t>& hashes() { static std::set<uint64_t>* m = new std::set<uint64_t>; return *m; }
static std::vector<std::string>& samples() { static std::vector<std::string>* m = new std::vector<std::string>; return *m; }
static std::vector<std::pair<std::string, std::string> >& asyncfails() { static std::vector<std::pair<std::string, std::string> >* m = new std::vector<std::pair<std::string, std::string> >; return *m; }

#if defined(__SANITIZE_THREAD__)
extern "C" { void AnnotateIgnoreSyncBegin(const char*, int); void AnnotateIgnoreSyncEnd(const char*, int); void AnnotateIgnoreReadsBegin(const char*, int); void AnnotateIgnoreReadsEnd(const char*, int); void AnnotateIgnoreWritesBegin(const char*, int); void AnnotateIgnoreWritesEnd(const char*, int); }
struct Unseen { Unseen() { AnnotateIgnoreSyncBegin(__FILE__, 0); AnnotateIgnoreReadsBegin(__FILE__, 0); AnnotateIgnoreWritesBegin(__FILE__, 0); } ~Unseen() { AnnotateIgnoreWritesEnd(__FILE__, 0); AnnotateIgnoreReadsEnd(__FILE__, 0); AnnotateIgnoreSyncEnd(__FILE__, 0); } };
#else
struct Unseen { Unseen() { } };
#endif
void count(const char* name, uint64_t n) { Unseen u; std::unique_lock<std::mutex> l(mtx()); counters()[name] += n; }
void cov(const char* dim, const std::string& v) { Unseen u; std::unique_lock<std::mutex> l(mtx()); std::set<std::string>& s = covs()[dim]; if (s.size() < 400) s.insert(v); }
void nontrivial(uint64_t h) { Unseen u; std::unique_lock<std::mutex> l(mtx()); if (hashes().size() < 20000) hashes().insert(h); }
void sample(const std::string& s) { Unseen u; std::unique_lock<std::mutex> l(mtx()); if (samples().size() < 3) samples().push_back(s.substr(0, 400)); }
void fail_async(const std::string& k, const std::string& m) { Unseen u; std::unique_lock<std::mutex> l(mtx()); if (asyncfails().size() < 20) asyncfails().push_back(std::make_pair(k, m)); }
void fail(const std::string& k, const std::string& m) { throw Failure(k, m); }

static std::string esc(const std::string& s) {
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return "\"" + o + "\"";
}
static char cur_msg[512];
static int out_fd = 2;
static void on_alarm(int) {
    ssize_t r = write(out_fd, "\n{\"hang\":1,", 11); r = write(out_fd, cur_msg, strlen(cur_msg)); (void)r; _exit(97);
}
} // namespace vp

extern "C" const char* vp_log_dir() { return NULL; }

extern "C" size_t __attribute__((weak)) __sanitizer_get_current_allocated_bytes();
static size_t heap_now() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
// growth of the heap per run of a scenario; the first runs and the four greatest steps do not count (threads, singletons, memory disks that grow)
struct HeapStat {
    std::vector<long long> d; uint64_t n; HeapStat() : n(0) { }
    bool leaks(long long& avg) { // memory that is lost again and again
        std::sort(d.begin(), d.end()); if (d.size() < 8) return false;
        long long s = 0; for (size_t i = 0; i + 4 < d.size(); ++i) s += d[i];
        avg = s / (long long)(d.size() - 4); return avg > 512 && s > 12288;
    }
};
static std::map<std::string, HeapStat> heapstat;
static bool leak_check_off = false;
namespace vp { void leak_exempt() { leak_check_off = true; } }

int main(int argc, char** argv)
{
    using namespace vp;
    std::string only, outp = "/dev/stderr", tmp = "/tmp", skip;
    uint64_t seed = 1; bool thorough = false; unsigned shard = 0, nshards = 1; int cfg = 0; unsigned limit = 60; bool list = false;
    long only_rep = -1; double mult = 1.0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--list") list = true;
        else if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
        else if (a == "--tier") thorough = std::string(argv[++i]) == "thorough";
        else if (a == "--shard") { sscanf(argv[++i], "%u/%u", &shard, &nshards); }
        else if (a == "--cfg") cfg = atoi(argv[++i]);
        else if (a == "--limit") limit = atoi(argv[++i]);
        else if (a == "--out") outp = argv[++i];
        else if (a == "--tmp") tmp = argv[++i];
        else if (a == "--mult") mult = atof(argv[++i]);
        else if (a == "--only") { only = argv[++i]; size_t p = only.find(':'); if (p != std::string::npos) { only_rep = atol(only.c_str() + p + 1); only = only.substr(0, p); } }
        else { std::cerr << "bad arg " << a << "\n"; return 2; }
    }
    std::sort(scns().begin(), scns().end(), [](const Scn& a, const Scn& b) { return std::string(a.name) < b.name; });
    if (list) { for (size_t i = 0; i < scns().size(); ++i) printf("%s %u %u\n", scns()[i].name, scns()[i].q, scns()[i].t); return 0; }
    FILE* out = fopen(outp.c_str(), "a");
    if (!out) { perror("out"); return 2; }
    out_fd = fileno(out);
    signal(SIGALRM, on_alarm);
    if (const char* j = getenv("VP_JITTER")) set_jitter(atoi(j));
    if (const char* j = getenv("VP_SPURIOUS")) set_spurious(atoi(j));
    if (const char* j = getenv("VP_LOCK_DELAY")) set_lock_delay(atoi(j));
    uint64_t idx = 0, evals = 0; unsigned nviol = 0;
    unsigned maxrep = 0;
    for (size_t i = 0; i < scns().size(); ++i) {
        double r = (thorough ? scns()[i].t : scns()[i].q) * mult;
        unsigned rr = (unsigned)r; if (rr == 0 && r > 0) rr = 1;
        maxrep = std::max(maxrep, rr);
    }
    if (only.size() && only_rep >= 0) maxrep = std::max(maxrep, (unsigned)only_rep + 1);
    for (unsigned rep = 0; rep < maxrep; ++rep)
        for (size_t i = 0; i < scns().size(); ++i) {
            Scn& s = scns()[i];
            double r = (thorough ? s.t : s.q) * mult;
            unsigned rr = (unsigned)r; if (rr == 0 && r > 0) rr = 1;
            if (only.size()) {
                if (only != s.name) continue;
                if (only_rep >= 0 ? rep != (unsigned)only_rep : rep >= rr) continue;
            }
            else {
                if (rep >= rr) continue;
                if ((idx++ + rep) % nshards != shard) continue;
            }
            uint64_t live0 = monitor_stat().live_bytes; (void)live0;
            Ctx c;
            uint64_t h = mix(seed);
            for (const char* p = s.name; *p; ++p) h = hash_combine(h, *p);
            c.rng = Rng(hash_combine(h, rep)); c.thorough = thorough; c.cfg = cfg; c.tmp = tmp; c.h = h;
            snprintf(cur_msg, sizeof cur_msg, "\"scenario\":\"%s\",\"rep\":%u}\n", s.name, rep);
            fprintf(out, "{\"begin\":\"%s\",\"rep\":%u}\n", s.name, rep); fflush(out);
            alarm(limit);
            std::string key, msg; bool bad = false; size_t heap0 = heap_now(), hashes0 = hashes().size(); leak_check_off = false;
            try { s.fn(c); }
            catch (Failure& f) { bad = true; key = f.key; msg = f.what(); }
            catch (std::exception& e) { bad = true; key = std::string("exception:") + typeid(e).name(); msg = e.what(); }
            alarm(0);
            if (!bad && !leak_check_off) { HeapStat& h = heapstat[s.name]; if (++h.n > 2) h.d.push_back((long long)heap_now() - (long long)heap0 - 48 * (long long)(hashes().size() - hashes0)); }
            std::vector<std::pair<std::string, std::string> > af;
            { std::unique_lock<std::mutex> l(mtx()); af.swap(asyncfails()); }
            if (!bad && af.size()) { bad = true; key = af[0].first; msg = af[0].second; }
            ++evals;
            if (bad) {
                ++nviol;
                fprintf(out, "{\"viol\":%s,\"scenario\":\"%s\",\"rep\":%u,\"msg\":%s}\n", esc(key).c_str(), s.name, rep, esc(msg.substr(0, 1500)).c_str());
                fflush(out);
                if (nviol >= 4) goto done;
            }
        }
done:
    if (!only.size() && heap_now()) for (auto& p : heapstat) {
        long long avg = 0; size_t runs = p.second.d.size();
        if (const char* hl = getenv("VP_HEAPLOG")) { p.second.leaks(avg); if (FILE* hf = fopen(hl, "a")) { fprintf(hf, "%s n=%zu avg=%lld\n", p.first.c_str(), runs, avg); fclose(hf); } }
        if (runs >= 8) counters()["heap_balances_checked"] += runs;
        if (!p.second.leaks(avg)) continue;
        ++nviol;
        fprintf(out, "{\"viol\":\"memory-leak\",\"whole\":1,\"scenario\":\"%s\",\"rep\":0,\"msg\":\"internal memory is lost: on average %lld bytes per run in %zu runs of the scenario\"}\n", p.first.c_str(), avg, runs); fflush(out);
    }
    monitor_flush_counts();
    std::ostringstream os;
    os << "{\"evals\":" << evals << ",\"counters\":{";
    bool first = true;
    for (auto& p : counters()) { os << (first ? "" : ",") << esc(p.first) << ":" << p.second; first = false; }
    os << "},\"cov\":{"; first = true;
    for (auto& p : covs()) {
        os << (first ? "" : ",") << esc(p.first) << ":["; first = false; bool f2 = true;
        for (auto& v : p.second) { os << (f2 ? "" : ",") << esc(v); f2 = false; }
        os << "]";
    }
    os << "},\"hashes\":["; first = true;
    for (auto& v : hashes()) { os << (first ? "" : ",") << v; first = false; }
    os << "],\"samples\":["; first = true;
    for (auto& v : samples()) { os << (first ? "" : ",") << esc(v); first = false; }
    os << "]}\n";
    fputs(os.str().c_str(), out); fflush(out);
    snprintf(cur_msg, sizeof cur_msg, "\"scenario\":\"(exit)\",\"rep\":0}\n");
    fprintf(out, "{\"begin\":\"(exit)\",\"rep\":0}\n"); fflush(out);
    alarm(limit);
    set_jitter(0); set_spurious(0);
    return nviol ? 3 : 0;
}
