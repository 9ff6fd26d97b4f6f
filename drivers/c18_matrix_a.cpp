#include "c18_matrix.h"
VP_SCENARIO_T(go, ops_u32, 80, 1200, uint32_t, 32, 0);
VP_SCENARIO_T(go, iterators_u32, 30, 600, uint32_t, 32, 1);
VP_SCENARIO_T(go, product_u32, 80, 1200, uint32_t, 32, 2);
VP_SCENARIO_T(go, vectors_u32, 8, 100, uint32_t, 32, 3);
VP_SCENARIO_T(go, sparse_u32, 60, 900, uint32_t, 32, 4);
VP_SCENARIO_T(go, shared_u32, 40, 600, uint32_t, 32, 5);
