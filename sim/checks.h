#pragma once
#include "model.h"

struct Viol { std::string cat, detail; };
struct Verdict
{
    std::vector<Viol> v;
    std::string discard;   // not empty: nothing decided, with reason
    uint64_t hash = 0;     // of the main run, for counting distinct executions
    bool nontrivial = false;
};
Verdict evaluate(const Scenario &sc);
// Smallest scenario with a violation of the same category, within a number of evaluations
Scenario minimise(const Scenario &sc, const std::string &cat, long budget);
