// Link-time wrappers (-Wl,--wrap) around the system calls used by the I/O layer: delays and faults.
#include "vp.h"
#include "vp_fault.h"
#include <unistd.h>
#include <sys/types.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/aio_abi.h>
#include <cstdarg>
#include <cerrno>
#include <atomic>
#include <time.h>
#include <pthread.h>
#include <sched.h>

namespace vp {
static std::atomic<unsigned> g_jitter(0);
static std::atomic<uint64_t> g_jseq(1);
void set_jitter(unsigned us) { g_jitter = us; }
void jitter_point() {
    unsigned j = g_jitter.load(std::memory_order_relaxed);
    if (!j) return;
    uint64_t r = mix(g_jseq.fetch_add(1, std::memory_order_relaxed));
    if (r & 1) return;
    struct timespec ts = { 0, (long)((r >> 8) % (j * 1000ull)) };
    nanosleep(&ts, NULL);
}
static std::atomic<FaultPlan*> g_plan(NULL);
void set_fault_plan(FaultPlan* p) { g_plan = p; }
FaultPlan::~FaultPlan() { }
static Fault consult(const char* op, int fd, uint64_t size, const void* buf = NULL, uint64_t off = 0) {
    FaultPlan* p = g_plan.load();
    if (p) return p->on_call(op, fd, size, buf, off);
    return Fault();
}
} // namespace vp
using namespace vp;

static std::atomic<unsigned> g_spur(0);
static std::atomic<unsigned> g_lockd(0);
namespace vp { void set_spurious(unsigned den) { g_spur = den; } void set_lock_delay(unsigned den) { g_lockd = den; } }
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
// a thread may be suspended before it takes a lock
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    unsigned den = g_lockd.load(std::memory_order_relaxed);
    if (den) {
        uint64_t r = mix(g_jseq.fetch_add(1, std::memory_order_relaxed));
        if (r % den == 0) { int e = errno; if (r & (1 << 20)) sched_yield(); else { struct timespec ts = { 0, (long)((r >> 24) % 60000) }; nanosleep(&ts, NULL); } errno = e; }
    }
    return __real_pthread_mutex_lock(m);
}
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
// POSIX permits wakeups without a notification
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    unsigned den = g_spur.load(std::memory_order_relaxed);
    if (den && mix(g_jseq.fetch_add(1, std::memory_order_relaxed)) % den == 0) {
        pthread_mutex_unlock(m); sched_yield(); pthread_mutex_lock(m); return 0;
    }
    return __real_pthread_cond_wait(c, m);
}
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
off_t __real_lseek(int, off_t, int);
off64_t __real_lseek64(int, off64_t, int);
int __real_ftruncate(int, off_t);
int __real_ftruncate64(int, off64_t);
void* __real_mmap(void*, size_t, int, int, int, off_t);
void* __real_mmap64(void*, size_t, int, int, int, off64_t);
ssize_t __wrap_read(int fd, void* b, size_t n) {
    jitter_point();
    Fault f = consult("read", fd, n, b);
    if (f.kind == Fault::ERR) { errno = f.err; return -1; }
    if (f.kind == Fault::SHORT && f.len < n) n = f.len;
    if (f.kind == Fault::ZERO) return 0;
    return __real_read(fd, b, n);
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
    jitter_point();
    Fault f = consult("write", fd, n, b);
    if (f.kind == Fault::ERR) { errno = f.err; return -1; }
    if (f.kind == Fault::SHORT && f.len < n) n = f.len;
    if (f.kind == Fault::ZERO) return 0;
    return __real_write(fd, b, n);
}
off_t __wrap_lseek(int fd, off_t o, int w) {
    Fault f = consult("lseek", fd, w, NULL, o);
    if (f.kind == Fault::ERR) { errno = f.err; return -1; }
    return __real_lseek(fd, o, w);
}
off64_t __wrap_lseek64(int fd, off64_t o, int w) {
    Fault f = consult("lseek", fd, w, NULL, o);
    if (f.kind == Fault::ERR) { errno = f.err; return -1; }
    return __real_lseek64(fd, o, w);
}
int __wrap_ftruncate(int fd, off_t o) {
    Fault f = consult("ftruncate", fd, o, NULL, o);
    if (f.kind == Fault::ERR) { errno = f.err; return -1; }
    return __real_ftruncate(fd, o);
}
int __wrap_ftruncate64(int fd, off64_t o) {
    Fault f = consult("ftruncate", fd, o, NULL, o);
    if (f.kind == Fault::ERR) { errno = f.err; return -1; }
    return __real_ftruncate64(fd, o);
}
void* __wrap_mmap(void* a, size_t n, int p, int fl, int fd, off_t o) {
    jitter_point();
    Fault f = consult("mmap", fd, n, NULL, o);
    if (f.kind == Fault::ERR) { errno = f.err; return MAP_FAILED; }
    return __real_mmap(a, n, p, fl, fd, o);
}
void* __wrap_mmap64(void* a, size_t n, int p, int fl, int fd, off64_t o) {
    jitter_point();
    Fault f = consult("mmap", fd, n, NULL, o);
    if (f.kind == Fault::ERR) { errno = f.err; return MAP_FAILED; }
    return __real_mmap64(a, n, p, fl, fd, o);
}
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) {
    jitter_point();
    Fault f = consult("read", fd, n, b);
    if (f.kind == Fault::ERR) { errno = f.err; return -1; }
    if (f.kind == Fault::SHORT && f.len < n) n = f.len;
    if (f.kind == Fault::ZERO) return 0;
    return __real_pread(fd, b, n, o);
}
ssize_t __real_pread64(int, void*, size_t, off64_t);
ssize_t __wrap_pread64(int fd, void* b, size_t n, off64_t o) {
    jitter_point();
    Fault f = consult("read", fd, n, b);
    if (f.kind == Fault::ERR) { errno = f.err; return -1; }
    if (f.kind == Fault::SHORT && f.len < n) n = f.len;
    if (f.kind == Fault::ZERO) return 0;
    return __real_pread64(fd, b, n, o);
}
ssize_t __real_pwrite(int, const void*, size_t, off_t);
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) {
    jitter_point();
    Fault f = consult("write", fd, n, b);
    if (f.kind == Fault::ERR) { errno = f.err; return -1; }
    if (f.kind == Fault::SHORT && f.len < n) n = f.len;
    if (f.kind == Fault::ZERO) return 0;
    return __real_pwrite(fd, b, n, o);
}
ssize_t __real_pwrite64(int, const void*, size_t, off64_t);
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off64_t o) {
    jitter_point();
    Fault f = consult("write", fd, n, b);
    if (f.kind == Fault::ERR) { errno = f.err; return -1; }
    if (f.kind == Fault::SHORT && f.len < n) n = f.len;
    if (f.kind == Fault::ZERO) return 0;
    return __real_pwrite64(fd, b, n, o);
}
#if defined(__SANITIZE_THREAD__)
// the kernel orders a submission before its completion event; the race detector cannot see that by itself
void __tsan_acquire(void*);
void __tsan_release(void*);
static void kernel_order_from(void* p) { __tsan_release(p); }
static void kernel_order_to(void* p) { __tsan_acquire(p); }
#else
static void kernel_order_from(void*) { }
static void kernel_order_to(void*) { }
#endif
long __real_syscall(long, ...);
long __wrap_syscall(long nr, ...) {
    va_list ap; va_start(ap, nr);
    long a[6]; for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long);
    va_end(ap);
    if (nr == SYS_io_submit) {
        jitter_point();
        const iocb* sc = ((iocb**)a[2])[0];
        Fault f = consult("io_submit", sc->aio_fildes, sc->aio_nbytes, (const void*)(uintptr_t)sc->aio_buf, sc->aio_offset);
        if (f.kind == Fault::ERR) { errno = f.err; return -1; }
        for (long i = 0; i < a[1]; ++i) kernel_order_from(((iocb**)a[2])[i]);
    }
    else if (nr == SYS_io_setup) {
        Fault f = consult("io_setup", -1, (uint64_t)a[0]);
        if (f.kind == Fault::ERR) { errno = f.err; return -1; }
    }
    long r = __real_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (nr == SYS_io_getevents) {
        jitter_point();
        for (long i = 0; i < r; ++i) {
            io_event* ev = (io_event*)a[3] + i;
            kernel_order_to((void*)(uintptr_t)ev->obj);
            const iocb* cb = (const iocb*)(uintptr_t)ev->obj;
            // the control block lives inside the request and is still valid here
            Fault f = consult(cb->aio_lio_opcode == IOCB_CMD_PREAD ? "aio_read" : "aio_write", cb->aio_fildes, cb->aio_nbytes, (const void*)(uintptr_t)cb->aio_buf, cb->aio_offset);
            if (f.kind == Fault::ERR) ev->res = -f.err;
            else if (f.kind == Fault::SHORT && (int64_t)f.len < ev->res) {
                ev->res = f.len;
                if (cb->aio_lio_opcode == IOCB_CMD_PREAD) // bytes behind the short transfer were not delivered
                    memset((char*)(uintptr_t)cb->aio_buf + f.len, 0xEE, cb->aio_nbytes - f.len);
            }
        }
    }
    return r;
}
}
