// Emission with recorded ageing (own move_p); see emi.cc.
// EXCLUDE: src/util/rng/rng.cc src/util/rng/rng_pool.cc src/species_advance/standard/move_p.cc
#define OWN_MOVE
#include "emi.cc"
