#ifndef VP_FAULT_H
#define VP_FAULT_H
#include <stdint.h>
namespace vp {
struct Fault { enum Kind { NONE, ERR, SHORT, ZERO } kind; int err; uint64_t len; Fault() : kind(NONE), err(0), len(0) { } };
struct FaultPlan { virtual ~FaultPlan(); virtual Fault on_call(const char* op, int fd, uint64_t size, const void* buf, uint64_t off) = 0; };
void set_fault_plan(FaultPlan*);
void jitter_point();
}
#endif
