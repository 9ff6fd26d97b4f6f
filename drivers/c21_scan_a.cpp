#include "c21_scan.h"
typedef Vec<Rec<uint32_t, 8>, 1, striping, 4096, 2>::type V1; typedef Vec<Rec<uint64_t, 20>, 4, RC, 4096, 8>::type V2; typedef RVec<Rec<uint32_t, 1000>, 2, FR, 4096, 3>::type V3;
VP_SCENARIO_T(scan_scn, scan_r16, 120, 3000, V1);
VP_SCENARIO_T(scan_scn, scan_r40, 120, 3000, V2);
VP_SCENARIO_T(scan_scn, scan_r1008, 300, 8000, V3);
VP_SCENARIO_T(perm_scn, perm_r40, 2, 30, V2);
