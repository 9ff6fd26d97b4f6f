#include "c18_matrix.h"
VP_SCENARIO_T(go, ops_double, 40, 600, double, 32, 0);
VP_SCENARIO_T(go, iterators_double, 10, 300, double, 32, 1);
VP_SCENARIO_T(go, product_double, 16, 300, double, 32, 2);
VP_SCENARIO_T(go, vectors_double, 6, 100, double, 32, 3);
VP_SCENARIO_T(go, shared_double, 16, 300, double, 32, 5);
