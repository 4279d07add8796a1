// P31: generated linearisation of HyQ against differences of a reference model
// MC_FLAGS: -I@R@/ct_rbd/include/ct -I@R@/ct_models -DNDEBUG
// MC_TIER: thorough
// MC_SAN: -Og
// MC_SHARDS: 8
#include <ct/core/core.h>
#include <ct/models/HyQ/codegen/HyQBareModelLinearizedReverse.h>
#include <ct/models/HyQ/codegen/HyQBareModelLinearizedReverse.cpp>
#include "hyq_linear.h"
MC_SUITE(bare_reverse_linearised, "HyQ: generated linearisation at 27 leg configurations x 12 base poses x 1 (thorough 3) velocities, objects fresh, used, copied, cloned") { linearised<ct::models::HyQ::HyQBareModelLinearizedReverse>(c, false); }
