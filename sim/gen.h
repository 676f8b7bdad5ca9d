// Seeded generation of sessions, schedules and fault sequences
#pragma once
#include "model.h"

// Returns a scenario for the n-th simulated session of a property; everything follows from seed
Scenario generate(const std::string &prop, uint64_t seed, bool thorough);
// Which build of the program a seed runs on
std::string variant_of(const std::string &prop, uint64_t seed);
