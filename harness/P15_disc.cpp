// P15: optimal-control solver iterations against a reference iteration (discrete-time systems)
// MC_LIBS: -lipopt -llapack -lblas
#include "nloc_suites.h"
MC_SUITE(disc_iterations, "7 algorithms x line searches x horizons 1..5 x shot lengths 1..3 x nonlinearity x start/guess, 3 iterations") { iterations<3, 2, false>(c); }
MC_SUITE(disc_histories, "7 algorithms x line search on/off x all sequences of 3 (quick: optionally after one iteration; thorough: 4) of 14 operations (last one an iteration)") { histories<3, 2, false>(c, c.thorough ? 4 : 3); }
