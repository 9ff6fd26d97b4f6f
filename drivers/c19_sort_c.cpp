#include "c19_sort.h"
typedef Vec<Rec<uint64_t, 4>, 1, striping, 4096>::type V1; typedef Vec<Rec<uint32_t, 8>, 2, RC, 4096>::type V2; typedef Vec<Rec<uint32_t, 248>, 1, FR, 4096>::type V3;
VP_SCENARIO_T(stable_scn, stable_r16, 500, 10000, V1);
VP_SCENARIO_T(stable_scn, stable_r16b, 500, 10000, V2);
VP_SCENARIO_T(stable_scn, stable_r256, 500, 10000, V3);
VP_SCENARIO_T(file_scn, file_r16, 500, 10000, V1);
VP_SCENARIO_T(file_scn, file_r256, 500, 10000, V3);
