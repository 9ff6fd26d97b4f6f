#include "c10_vector.h"
using namespace stxxl;
VEC_SCN(u64_p4_c8, 100, 2000, uint64_t, 4, lru_pager<8>, 4096, SR);
VEC_SCN(u64_p3_r2, 150, 3000, uint64_t, 3, random_pager<2>, 4096, FR);
VEC_SCN(rec12_p2_c2, 150, 3000, Rec12, 2, lru_pager<2>, 4096, RC);
