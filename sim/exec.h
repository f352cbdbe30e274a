#pragma once
#include "plan.h"
#include <map>
#include <string>
#include <vector>

// What can be wrong in a run.
enum VClass {
    V_RESULT,   // a search answered a different set of subscriptions than the expressions define
    V_EXISTS,   // exists disagrees with what search would find
    V_ACCEPT,   // a well-formed insert was refused, or its acknowledgement disagrees with its effect
    V_REFUSE,   // something that must be refused was accepted
    V_VALIDATE, // a search over an event lacking a required variable was answered
    V_CRASH,    // the process died on valid input without an injected reason
    V_HANG,     // a call made no progress within its step bound
    V_MEM,      // memory error
    V_LEAK,     // memory still held after everything was released
    V_RACE,     // two concurrent read-only calls touched the same memory, one writing
    V_REPORT,   // report bookkeeping
    V_DIVERGE,  // repeating a search gave a different report
    V_DEADLOCK, // clients waiting forever
    V_NCLASS
};
const char* vclass_name(int c);

struct Viol { int cls; int op; std::string msg; };

struct RunStats {
    uint64_t ops = 0, inserts = 0, searches = 0, exists = 0, refused = 0, torn = 0;
    uint64_t alloc_faults = 0, kills = 0, crashes = 0, failstops = 0, restarts = 0;
    uint64_t matches = 0, nonempty = 0, switches = 0, accesses = 0, allocs = 0, evaluated = 0, shorted = 0, memoized = 0, sweeps = 0;
    uint64_t splits = 0, undefined_events = 0, stalls = 0, dup_inserts = 0, drops = 0, preempted_ops = 0;
    uint64_t tree_nodes = 0;
    uint64_t max_steps = 0;
};

struct RunResult {
    std::vector<Viol> viols;
    uint64_t hash = 0;
    uint64_t sched_hash = 0;
    RunStats st;
    rt::Sched recorded;
    std::vector<std::string> trace;
};

RunResult run_plan(const Plan& p, bool want_trace = false);
std::string op_name(const Plan& p, int opid);
