// P15: optimal-control solver iterations against a reference iteration (continuous-time systems)
// MC_LIBS: -lipopt -llapack -lblas
#include "nloc_suites.h"
MC_SUITE(cont_iterations, "3 discretisations x 7 algorithms x line searches x horizons 1..5 x shot lengths 1..3 x nonlinearity x step x start/guess, 3 iterations") { iterations<2, 1, true>(c); }
MC_SUITE(cont_histories, "7 algorithms x line search on/off x all sequences of 3 (quick: optionally after one iteration; thorough: 4) of 14 operations (last one an iteration)") { histories<2, 1, true>(c, c.thorough ? 4 : 3); }
