// Online monitors behind the hooks in the library (guard STXXL_MONITOR_HOOKS).
// External memory life-cycle: allocated regions are disjoint, freed once, and only
// written and read while allocated.
#include "vp.h"
#include "vp_monitor.h"
#include <stxxl/bits/common/monitor_hooks.h>
#include <stxxl/bits/io/file.h>
#include <cstring>
#include <map>
#include <mutex>
#include <atomic>

#if defined(__SANITIZE_THREAD__)
extern "C" { void AnnotateIgnoreSyncBegin(const char*, int); void AnnotateIgnoreSyncEnd(const char*, int); void AnnotateIgnoreReadsBegin(const char*, int); void AnnotateIgnoreReadsEnd(const char*, int); void AnnotateIgnoreWritesBegin(const char*, int); void AnnotateIgnoreWritesEnd(const char*, int); }
// the monitor's own lock must not order the accesses of the monitored code
struct Unseen { Unseen() { AnnotateIgnoreSyncBegin(__FILE__, 0); AnnotateIgnoreReadsBegin(__FILE__, 0); AnnotateIgnoreWritesBegin(__FILE__, 0); } ~Unseen() { AnnotateIgnoreWritesEnd(__FILE__, 0); AnnotateIgnoreReadsEnd(__FILE__, 0); AnnotateIgnoreSyncEnd(__FILE__, 0); } };
#else
struct Unseen { Unseen() { } };
#endif
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);
#endif
namespace vp {
struct Ext { int64_t size; uint64_t writes; };
typedef std::map<int64_t, Ext> extmap;
static std::mutex& mm() { static std::mutex* m = new std::mutex; return *m; }
static std::map<const void*, extmap>& files() { static std::map<const void*, extmap>* m = new std::map<const void*, extmap>; return *m; }
static uint64_t live_bytes = 0, live_blocks = 0, n_alloc = 0, n_free = 0, n_read = 0, n_write = 0, n_fresh_read = 0;
static bool lenient = false;
void monitor_lenient(bool b) { Unseen u; std::unique_lock<std::mutex> l(mm()); lenient = b; }
MonStat monitor_stat() {
    Unseen u; std::unique_lock<std::mutex> l(mm());
    MonStat s = { live_bytes, live_blocks, n_alloc, n_free, n_read, n_write, n_fresh_read }; return s;
}
// requests between their submission and their end, by address of the buffer
struct Flight { const void* req; const void* file; uintptr_t buf; uint64_t size, off, hash; bool write, relays; };
typedef std::multimap<uintptr_t, Flight> flights;
static std::mutex& fm() { static std::mutex* m = new std::mutex; return *m; }
static flights& fl() { static flights* m = new flights; return *m; }
static std::map<const void*, flights::iterator>& byreq() { static std::map<const void*, flights::iterator>* m = new std::map<const void*, flights::iterator>; return *m; }
static uint64_t max_flight = 0, n_flights = 0, n_compared = 0, n_concurrent = 0, n_freed = 0;
// blocks whose buffer was changed during their write: wrong as soon as they are read
static std::map<const void*, std::map<uint64_t, uint64_t> >& tainted() { static std::map<const void*, std::map<uint64_t, uint64_t> >* m = new std::map<const void*, std::map<uint64_t, uint64_t> >; return *m; }
static uint64_t n_overtaken = 0, n_tainted = 0;
static bool taint_take(const void* f, uint64_t off, uint64_t size, bool erase) {
    if (tainted().empty()) return false; std::map<uint64_t, uint64_t>& m = tainted()[f]; bool any = false;
    for (std::map<uint64_t, uint64_t>::iterator i = m.begin(); i != m.end(); ) if (i->first < off + size && i->first + i->second > off) { any = true; if (erase) m.erase(i++); else ++i; } else ++i;
    if (m.empty()) tainted().erase(f);
    return any;
}
static std::atomic<int> in_flight(0);
static thread_local int inside = 0;
struct Locked { Unseen u; std::unique_lock<std::mutex> l; Locked() : l((++inside, fm())) { } ~Locked() { l.unlock(); --inside; } };
__attribute__((no_sanitize("address", "undefined", "thread"))) static uint64_t hash_of(uintptr_t b, uint64_t n) {
    uint64_t h = n; const unsigned char* p = (const unsigned char*)b; for (; n >= 8; n -= 8, p += 8) { uint64_t v; __builtin_memcpy(&v, p, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
    for (; n; --n, ++p) h = (h ^ *p) * 0x100000001B3ull; return h;
}
static std::string what(const Flight& f) { std::ostringstream os; os << (f.write ? "write" : "read") << " of " << f.size << " bytes at " << f.off; return os.str(); }
template <class F> static void overlapping(uintptr_t b, uint64_t n, F fn) { flights& m = fl(); for (flights::iterator i = m.lower_bound(b > max_flight ? b - max_flight : 0); i != m.end() && i->first < b + n; ++i) if (i->first + i->second.size > b) fn(i->second); }
#if defined(__SANITIZE_ADDRESS__)
static void alloc_hook(const volatile void*, size_t) { }
static void free_hook(const volatile void* p) {
    if (!p || inside || in_flight.load(std::memory_order_relaxed) == 0) return;
    ++inside; size_t n = __sanitizer_get_allocated_size(p); --inside;
    if (n < 128) return;
    std::string bad; { Locked l; ++n_freed; overlapping((uintptr_t)p, n, [&](const Flight& f) { bad = what(f); }); }
    if (!bad.empty()) { ++inside; fail_async("monitor:freed-in-flight", "memory is given back during a " + bad + " from or to it"); --inside; }
}
static int hooks = __sanitizer_install_malloc_and_free_hooks(alloc_hook, free_hook);
#endif
void monitor_flush_counts() {
    { uint64_t a, b, c, d, e, g; { Locked l; e = n_overtaken; g = n_tainted; n_overtaken = n_tainted = 0; a = n_flights; b = n_compared; c = n_concurrent; d = n_freed; n_flights = n_compared = n_concurrent = n_freed = 0; } if (a) count("requests_watched", a); if (b) count("written_buffers_compared", b); if (c) count("requests_in_flight_together", c); if (d) count("frees_during_requests", d); if (e) count("reads_during_write_of_block", e); if (g) count("dropped_blocks_changed_during_write", g); }
    MonStat s; { Unseen u; std::unique_lock<std::mutex> l(mm()); MonStat t = { live_bytes, live_blocks, n_alloc, n_free, n_read, n_write, n_fresh_read }; s = t; n_alloc = n_free = n_read = n_write = n_fresh_read = 0; }
    count("ext_allocs", s.allocs); count("ext_frees", s.frees); count("ext_block_reads", s.reads); count("ext_block_writes", s.writes);
    if (s.fresh_reads) count("ext_reads_of_never_written_blocks", s.fresh_reads);
}
}
using namespace vp;
static std::string d(const char* w, int64_t o, int64_t s) { std::ostringstream os; os << w << " region [" << o << ",+" << s << ")"; return os.str(); }

namespace stxxl { namespace monitor {
void on_alloc(const file* f, int64 offset, int64 size) {
    Unseen u; std::unique_lock<std::mutex> l(mm());
    extmap& m = files()[f];
    ++n_alloc; live_bytes += size; ++live_blocks;
    extmap::iterator it = m.lower_bound(offset);
    bool bad = false;
    if (it != m.end() && it->first < offset + (int64_t)size) bad = true;
    if (it != m.begin()) { extmap::iterator p = it; --p; if (p->first + p->second.size > offset) bad = true; }
    if (bad || offset < 0) fail_async("monitor:overlapping-allocation", d("allocator handed out", offset, size) + " overlapping a live allocation");
    Ext e = { (int64_t)size, 0 }; m[offset] = e;
}
void on_free(const file* f, int64 offset, int64 size) {
    Unseen u; std::unique_lock<std::mutex> l(mm());
    extmap& m = files()[f];
    ++n_free;
    extmap::iterator it = m.find(offset);
    if (it == m.end() || it->second.size != size) {
        if (!lenient) fail_async("monitor:bad-free", d("release of", offset, size) + (it == m.end() ? " that is not allocated (released twice?)" : " with a different size"));
        return;
    }
    live_bytes -= size; --live_blocks; m.erase(it);
    { Locked l2; taint_take(f, (uint64_t)offset, (uint64_t)size, true); }
}
void on_submit(const file* f, const void*, uint64 offset, uint64 size, bool write) {
    Unseen u; std::unique_lock<std::mutex> l(mm());
    std::map<const void*, extmap>::iterator fi = files().find(f);
    if (fi == files().end()) return; // not managed by the block manager
    extmap& m = fi->second;
    if (write) ++n_write; else ++n_read;
    extmap::iterator it = m.upper_bound((int64_t)offset);
    bool ok = false;
    if (it != m.begin()) { --it; ok = (int64_t)(offset + size) <= it->first + it->second.size; }
    if (!ok) {
        if (!lenient) fail_async(write ? "monitor:write-to-unallocated" : "monitor:read-of-unallocated", d(write ? "write to" : "read of", offset, size) + " not inside one live allocation");
        return;
    }
    if (write) ++it->second.writes;
    else if (!it->second.writes) ++n_fresh_read;
}
void on_request_begin(const request* r, const file* f, const void* buffer, uint64 offset, uint64 size, bool write) {
    Flight n = { r, f, (uintptr_t)buffer, size, offset, 0, write, !strcmp(f->io_type(), "wbtl") }; std::string bad, key; bool managed;
    { Unseen u; std::unique_lock<std::mutex> l(mm()); managed = files().find(f) != files().end(); if (write) n.hash = hash_of(n.buf, size); }
    { Locked l; ++n_flights; if (!fl().empty()) ++n_concurrent; if (size > max_flight) max_flight = size;
      overlapping(n.buf, size, [&](const Flight& o) { if (o.relays && o.write == write && o.buf <= n.buf && n.buf + n.size <= o.buf + o.size) return; /* wbtl hands the request on */ if (!o.write || !write) { key = "monitor:buffer-in-flight"; bad = what(n) + " is given memory that is in use by a " + what(o); } });
      if (managed && !write) { for (flights::iterator i = fl().begin(); i != fl().end(); ++i) { const Flight& o = i->second; if (o.write && o.file == f && o.off < offset + size && o.off + o.size > offset) { ++n_overtaken; break; } }
          if (taint_take(f, offset, size, false)) { key = "monitor:written-buffer-changed"; bad = what(n) + ": the buffer of the write of these bytes was changed before that write had finished"; } }
      if (managed && write) taint_take(f, offset, size, true);
      byreq()[r] = fl().insert(std::make_pair(n.buf, n)); ++in_flight; }
    if (!bad.empty() && !lenient) fail_async(key, bad);
}
void on_request_end(const request* r, bool canceled) {
    Flight o; { Locked l; std::map<const void*, flights::iterator>::iterator i = byreq().find(r); if (i == byreq().end()) return; o = i->second->second; fl().erase(i->second); byreq().erase(i); --in_flight; if (o.write && !canceled) ++n_compared; }
    if (!o.write || canceled) return;
    bool same, managed; { Unseen u; same = hash_of(o.buf, o.size) == o.hash; } if (same) return;
    { Unseen u; std::unique_lock<std::mutex> l(mm()); std::map<const void*, extmap>::iterator fi = files().find(o.file); managed = fi != files().end();
      if (managed) { extmap::iterator it = fi->second.upper_bound((int64_t)o.off); if (it == fi->second.begin()) return; --it; if (it->first + it->second.size <= (int64_t)o.off) return; } }
    if (!managed) { fail_async("monitor:written-buffer-changed", "the buffer of a " + what(o) + " was changed before the request had finished"); return; }
    Locked l; ++n_tainted; for (flights::iterator i = fl().begin(); i != fl().end(); ++i) { const Flight& q = i->second; if (q.write && q.file == o.file && q.off < o.off + o.size && q.off + q.size > o.off) return; }
    tainted()[o.file][o.off] = o.size;
}
} }
