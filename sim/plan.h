// A plan is one complete, explicit simulated execution: configurations, expressions, events,
// what every client does, which faults hit it, and the schedule. Everything is data.
#pragma once
#include "model.h"
#include "rt.h"
#include <iosfwd>

enum OpK {
    OP_INSERT,      // betree_insert / betree_insert_with_constants
    OP_MAKESUB,     // betree_make_sub into a slot
    OP_INSERTSUB,   // betree_insert_sub of a slot
    OP_CHANGEB,     // betree_change_boundaries
    OP_SEARCH,      // betree_search / betree_search_with_event
    OP_EXISTS,      // betree_exists / betree_exists_with_event
    OP_BAD,         // an insert that must be refused
    OP_TORN,        // a search over a damaged event text
    OP_DROP,        // betree_free, then the tree is created again empty, with configuration path - 1 unless path is 0
    OP_NKINDS
};
enum BadKind { BAD_SYNTAX, BAD_UNKNOWN_VAR, BAD_MISSING_CONST, BAD_STRING_BOUND, BAD_TYPE };
// OP_BAD / OP_MAKESUB use `path`: 0 betree_insert, 1 betree_insert_with_constants, 2 betree_make_sub, 3 betree_change_boundaries

struct Op {
    int k = OP_SEARCH;
    int tree = 0, expr = -1, event = -1;
    uint64_t id = 0;
    int consts = -1;
    int path = 0;
    int slot = -1;
    int rep = 0;          // event representation: 0 text, 1 API objects, 2 API objects kept and reused, 3 also in other trees
    int report = 0;       // 0 fresh report, 1 the client's accumulating report
    int bad = 0;
    std::string raw;      // raw text (damaged event / refused expression)
    rt::AllocFault fault;
    uint64_t kill_at = 0; // the calling thread dies at its n-th shared access in this call
    uint64_t times = 1;   // the call is made this often in a row
    uint64_t crash_at = 0;// the process dies at the n-th shared access in this call
};

struct Plan {
    std::string prop;
    uint64_t seed = 0;
    int fill = 0xA5, inplace = 0, races = 0;
    int rebuild_perm = 0;            // order in which a restarted process re-inserts acknowledged expressions
    int rebuild_path = 0;            // 0 same path, 1 make_sub + insert_sub, 2 betree_insert
    int sweep = 1;                   // final sweep over every event
    std::vector<Config> configs;
    std::vector<int> trees;          // tree -> config
    std::vector<ExprP> exprs;        // (config of use is given by the op's tree)
    std::vector<int> expr_style;
    std::vector<Event> events;
    std::vector<Consts> consts;
    std::vector<std::vector<Op>> clients; // client 0 runs alone before the others
    rt::Sched sched;
    int64_t clock_span = 0;          // simulated seconds covered by the events' clocks
    int clock_jumps = 0;
};

void save(const Plan& p, std::ostream& o);
bool load(Plan& p, std::istream& in);
std::string describe(const Op& op, const Plan& p);
