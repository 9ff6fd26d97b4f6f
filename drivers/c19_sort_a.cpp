#include "c19_sort.h"
typedef Vec<Rec<uint64_t, 4>, 1, striping, 4096>::type V1; typedef Vec<Rec<uint32_t, 8>, 2, RC, 4096>::type V2; typedef Vec<Rec<uint32_t, 1000>, 1, FR, 4096>::type V3; typedef Vec<U64, 4, SR, 4096>::type V4;
VP_SCENARIO_T(sort_scn, sort_r16, 500, 10000, V1);
VP_SCENARIO_T(sort_scn, sort_r16b, 500, 10000, V2);
VP_SCENARIO_T(sort_scn, sort_r1008, 500, 10000, V3);
VP_SCENARIO_T(sort_scn, sort_u64, 400, 8000, V4);
