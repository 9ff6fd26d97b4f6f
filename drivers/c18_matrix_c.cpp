#include "c18_matrix.h"
VP_SCENARIO_T(go, ops_u8, 30, 500, uint8_t, 64, 0);
VP_SCENARIO_T(go, product_u8, 10, 200, uint8_t, 64, 2);
VP_SCENARIO_T(go, product_u64, 8, 200, uint64_t, 64, 2);
VP_SCENARIO_T(go, sparse_u8, 20, 300, uint8_t, 64, 4);
