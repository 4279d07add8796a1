// P31: generated linearisation of HyQ against differences of a reference model
// MC_FLAGS: -I@R@/ct_rbd/include/ct -I@R@/ct_models -DNDEBUG
// MC_SAN: -Og
// MC_SHARDS: 8
#include <ct/core/core.h>
#include <ct/models/HyQ/codegen/HyQWithContactModelLinearizedForward.h>
#include <ct/models/HyQ/codegen/HyQWithContactModelLinearizedForward.cpp>
#include "hyq_linear.h"
MC_SUITE(contact_model_linearised, "HyQ: generated linearisation at 27 leg configurations x 12 base poses x 1 (thorough 3) velocities, objects fresh, used, copied, cloned") { linearised<ct::models::HyQ::HyQWithContactModelLinearizedForward>(c, true); }
