#include "c20_sorter.h"
typedef Rec<uint32_t, 56> A_; typedef sorter<A_, LessT<A_>, 4096, RC> S1; typedef Rec<uint64_t, 300> B_; typedef sorter<B_, GreaterT<B_>, 4096, striping> S2;
VP_SCENARIO_T(sorter_scn, sorter_a, 300, 6000, S1); VP_SCENARIO_T(sorter_scn, sorter_b, 600, 12000, S2);
VP_SCENARIO_T(creators_scn, creators_a, 300, 6000, S1); VP_SCENARIO_T(creators_scn, creators_b, 600, 12000, S2);
VP_SCENARIO_T(ranges_scn, ranges_b, 150, 3000, S2);
