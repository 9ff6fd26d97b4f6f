// Files of every access method for the I/O layer drivers.
#ifndef IO_FILES_H
#define IO_FILES_H
#include "vp.h"
#include "vp_fault.h"
#include "vp_monitor.h"
#include <stxxl/io>
#include <stxxl/aligned_alloc>
#include <stxxl/bits/io/wbtl_file.h>
#include <stxxl/bits/io/fileperblock_file.h>
#include <stxxl/bits/io/linuxaio_file.h>
#include <stxxl/bits/io/mem_file.h>
#include <stxxl/bits/io/syscall_file.h>
#include <stxxl/bits/io/mmap_file.h>
#include <unistd.h>
#include <sys/stat.h>
#include <fstream>
#include <thread>
#include <atomic>
#include <mutex>

enum Kind { K_SYSCALL, K_SYSCALL_DIRECT, K_LINUXAIO, K_LINUXAIO_DIRECT, K_MMAP, K_MEM, K_FPB_SYSCALL, K_FPB_MMAP, K_WBTL, K_COUNT };
static const char* const kind_name[K_COUNT] = { "syscall", "syscall-direct", "linuxaio", "linuxaio-direct", "mmap", "memory", "fileperblock_syscall", "fileperblock_mmap", "wbtl" };

struct Buf { // exactly sized, aligned heap buffer (redzones from AddressSanitizer)
    char* p; size_t n; void* base;
    explicit Buf(size_t n_, size_t misalign = 0) : n(n_) { if (posix_memalign(&base, 4096, n_ + misalign ? n_ + misalign : 1)) abort(); p = (char*)base + misalign; }
    ~Buf() { free(base); }
    Buf(const Buf&) = delete; Buf& operator = (const Buf&) = delete;
};

struct FileUnderTest {
    Kind kind; std::string path; stxxl::file* f; int queue;
    size_t align;       // granularity of offsets and lengths
    bool blockwise;     // whole fixed blocks only
    size_t block;
    bool raw_path;      // contents visible at path
    FileUnderTest() : f(NULL) { }
};
static std::atomic<unsigned> g_file_no(0);

inline FileUnderTest make_file(vp::Ctx& ctx, Kind k, int queue, int mode_extra = 0, size_t block = 4096) {
    using namespace stxxl;
    FileUnderTest u; u.kind = k; u.queue = queue; u.align = 1; u.blockwise = false; u.block = block; u.raw_path = true;
    u.path = ctx.tmp + "/f" + std::to_string(g_file_no++);
    int mode = file::CREAT | file::RDWR | mode_extra;
    switch (k) {
    case K_SYSCALL: u.f = new syscall_file(u.path, mode, queue); break;
    case K_SYSCALL_DIRECT: u.f = new syscall_file(u.path, mode | file::DIRECT, queue); u.align = 4096; break;
    case K_LINUXAIO: u.f = new linuxaio_file(u.path, mode, u.queue = -2 - queue); break;
    case K_LINUXAIO_DIRECT: u.f = new linuxaio_file(u.path, mode | file::DIRECT, u.queue = -2 - queue); u.align = 4096; break;
    case K_MMAP: u.f = new mmap_file(u.path, mode, queue); u.align = 4096; break;
    case K_MEM: u.f = new mem_file(queue); u.raw_path = false; break;
    case K_FPB_SYSCALL: u.f = new fileperblock_file<syscall_file>(u.path, mode, queue); u.f->lock(); u.blockwise = true; u.raw_path = false; u.align = block; break;
    case K_FPB_MMAP: u.f = new fileperblock_file<mmap_file>(u.path, mode, queue); u.f->lock(); u.blockwise = true; u.raw_path = false; u.align = block; break;
    case K_WBTL: u.f = new wbtl_file(new syscall_file(u.path, mode, 1000 + queue), block * 4, 2, queue); u.blockwise = true; u.raw_path = false; u.align = block; break;
    default: abort();
    }
    return u;
}
inline std::string slurp(const std::string& p) { std::ifstream i(p.c_str(), std::ios::binary); std::stringstream ss; ss << i.rdbuf(); return ss.str(); }
inline bool exists(const std::string& p) { struct stat st; return ::lstat(p.c_str(), &st) == 0; }

// sets and restores the process-wide fault plan
struct PlanGuard { explicit PlanGuard(vp::FaultPlan* p) { vp::set_fault_plan(p); } ~PlanGuard() { vp::set_fault_plan(NULL); } };

inline void fill_unique(char* p, size_t n, uint64_t tag) { for (size_t i = 0; i < n; ++i) p[i] = (char)(vp::mix(tag ^ (i >> 3)) >> ((i & 7) * 8)); }
#endif
