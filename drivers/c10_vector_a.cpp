#include "c10_vector.h"
using namespace stxxl;
VEC_SCN(u32_p1_c1, 150, 3000, uint32_t, 1, lru_pager<1>, 4096);
VEC_SCN(u32_p1_c3, 150, 3000, uint32_t, 1, lru_pager<3>, 4096, striping);
VEC_SCN(u32_p2_c2, 150, 3000, uint32_t, 2, lru_pager<2>, 4096, RC);
