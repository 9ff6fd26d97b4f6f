#ifndef VP_MONITOR_H
#define VP_MONITOR_H
#include <stdint.h>
namespace vp {
struct MonStat { uint64_t live_bytes, live_blocks, allocs, frees, reads, writes, fresh_reads; };
MonStat monitor_stat();
void monitor_flush_counts();
void monitor_lenient(bool);
}
#endif
