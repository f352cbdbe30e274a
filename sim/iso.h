// Runs one plan in a forked copy of this process, so that whatever the library does to the
// process cannot reach the search, the minimiser or the next run.
#pragma once
#include "exec.h"
struct IsoResult {
    std::vector<Viol> viols;
    uint64_t hash = 0;
    rt::Sched recorded;
    std::vector<std::string> trace;
    bool has(int cls) const { for(auto& v : viols) if(v.cls == cls) return true; return false; }
};
IsoResult run_isolated(const Plan& p, bool want_trace = false);
Plan minimise(Plan p, int cls, double seconds, int* tried);
