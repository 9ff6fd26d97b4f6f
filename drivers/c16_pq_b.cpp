#include "c16_pq.h"
typedef Rec<uint64_t, 52> R64; typedef Rec<uint32_t, 1000> R1K;
typedef Q<R64, GreaterM<R64>, 1, 5, 8, 1, 4096, 2, 3, RC>::type Q4; typedef Q<R1K, LessM<R1K>, 3, 10, 4, 1, 8192, 8, 2, striping>::type Q5; typedef PRIORITY_QUEUE_GENERATOR<R64, LessM<R64>, 1024 * 1024, 64>::result Q6;
VP_SCENARIO_T(pq_scn, pq_d, 60, 2000, Q4); VP_SCENARIO_T(pq_scn, pq_e, 60, 2000, Q5); VP_SCENARIO_T(pq_scn, pq_f, 20, 400, Q6);
