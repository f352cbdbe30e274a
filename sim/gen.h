// Plan generation: one (property, seed) pair is one explicit plan.
#pragma once
#include "plan.h"
Plan generate(const std::string& prop, uint64_t seed, bool thorough);
bool known_property(const std::string& prop);
const std::vector<std::string>& all_properties();
// The violation classes that contradict the property's statement (bit per VClass).
uint64_t violation_mask(const std::string& prop);
