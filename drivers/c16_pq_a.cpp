#include "c16_pq.h"
typedef Rec<uint32_t, 8> R16; typedef Rec<uint64_t, 300> R312;
typedef Q<R16, GreaterM<R16>, 4, 16, 8, 2, 4096, 4, 2>::type Q1; typedef Q<R312, LessM<R312>, 8, 8, 8, 1, 4096, 3, 2, SR>::type Q2; typedef Q<U64, XorM<U64>, 32, 64, 16, 2, 4096, 5, 1, FR>::type Q3;
VP_SCENARIO_T(pq_scn, pq_a, 60, 2000, Q1); VP_SCENARIO_T(pq_scn, pq_b, 60, 2000, Q2); VP_SCENARIO_T(pq_scn, pq_c, 60, 2000, Q3);
