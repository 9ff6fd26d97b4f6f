#include "c10_vector.h"
using namespace stxxl;
VEC_SCN(rec100_p1_c2, 200, 3000, Rec100, 1, lru_pager<2>, 4096, RC);
VEC_SCN(rec100_p4_r3, 200, 3000, Rec100, 4, random_pager<3>, 4096, striping);
VEC_SCN(rec12_p5_c4, 100, 2000, Rec12, 5, lru_pager<4>, 12288, single_disk);
