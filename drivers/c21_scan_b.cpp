#include "c21_scan.h"
typedef Vec<U64, 3, SR, 4096, 1>::type V4; typedef Vec<Rec<uint64_t, 500>, 11, striping, 4096, 2>::type V5; typedef Vec<Rec<uint32_t, 4088>, 1, single_disk, 4096, 4>::type V6;
VP_SCENARIO_T(scan_scn, scan_u64, 120, 3000, V4);
VP_SCENARIO_T(scan_scn, scan_r512, 300, 8000, V5);
VP_SCENARIO_T(scan_scn, scan_r4096, 300, 8000, V6);
VP_SCENARIO_T(scan_file_scn, scan_file, 100, 3000, V4);
VP_SCENARIO_T(perm_scn, perm_r512, 2, 30, V5);
