#include "c20_sorter.h"
typedef sorter<U64, LessT<U64>, 4096, SR> S3; typedef Rec<uint64_t, 100> C_; typedef sorter<C_, RotT<C_>, 8192, FR> S4;
VP_SCENARIO_T(sorter_scn, sorter_c, 150, 3000, S3); VP_SCENARIO_T(sorter_scn, sorter_d, 300, 6000, S4);
VP_SCENARIO_T(creators_scn, creators_c, 150, 3000, S3); VP_SCENARIO_T(creators_scn, creators_d, 300, 6000, S4);
VP_SCENARIO_T(ranges_scn, ranges_d, 150, 3000, S4);
