#include "exec.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>

extern "C" {
#include "betree.h"
#include "helper.h"
}

const char* vclass_name(int c) {
    static const char* n[] = {"wrong-result", "exists-disagrees", "accept", "refuse", "validate", "process-death", "no-progress", "memory-error", "leak", "race", "report", "divergence", "deadlock"};
    return c >= 0 && c < V_NCLASS ? n[c] : "?";
}

namespace {
// A call may take this many steps, and as many again as splitting a full index takes.
const uint64_t STEP_BUDGET = 6000000, STEP_QUADRATIC = 400, STEP_LIST = 100;
const int OP_BASE = 9000;        // op id = client * OP_BASE + index
const int OP_SETUP = 60000, OP_SWEEP = 61000, OP_REBUILD = 62000, OP_FREE = 63000;

struct SubM { uint64_t id; int expr, consts, path; };
struct Lock { int readers = 0, writer = -1; rt::VC w, r; Lock() { memset(&w, 0, sizeof w); memset(&r, 0, sizeof r); } };

struct TreeM {
    betree* t = nullptr;
    int cfg = 0;
    std::vector<SubM> subs;
    std::vector<std::pair<int, int>> boundaries;  // (expr, op) accepted by change_boundaries
    Lock lock;
    std::map<int, std::set<std::string>> interned;
    std::map<int, std::set<int64_t>> ienums;
    uint64_t version = 0;
    bool narrowed = false;   // change_boundaries or make_sub ran on it
};

uint64_t list_weight(); // (constants in all lists) x (distinct strings): strings are looked up one by one
uint64_t budget(const TreeM& t) { uint64_t n = t.subs.size() + 1; return (STEP_BUDGET + STEP_QUADRATIC * n * n + STEP_LIST * list_weight()) * (lib_opt ? 1 : 4); }

struct Slot { const struct betree_sub* sub = nullptr; int tree = -1; int expr = -1, consts = -1; uint64_t id = 0; int op = -1; bool used = false; };

struct Ctx {                      // what one simulated client holds
    size_t pc = 0;
    bool killed = false;
    int lock_tree = -1; bool lock_write = false;
    report* rep = nullptr; std::vector<uint64_t> rep_expect; size_t rep_evaluated = 0, rep_shorted = 0, rep_limit = 0;
    std::map<std::pair<int, int>, betree_event*> kept; // (tree, event) -> API event kept across searches
    Op calm;
    size_t nofault_pc = ~(size_t)0;   // this operation is a retry after a restart: no further faults
    std::vector<uint64_t> expect; bool expect_valid = false;
    char* text = nullptr;
    betree_event* ev = nullptr;
    report* cur_rep = nullptr;
    std::vector<betree_constant*> ks;
    std::vector<uint64_t> got;
    bool unresolved_faulted_mutation = false;
};

struct Exec {
    const Plan& p;
    RunResult res;
    std::vector<TreeM> trees;
    std::map<int, Slot> slots;
    std::vector<Ctx> ctx;
    bool want_trace;
    bool done = false;
    std::map<std::string, std::string> seen_reports;
    bool leaks_meaningful = true;
    uint64_t list_weight = 0; bool list_weight_known = false;
    int phase = 0;
    std::set<betree*> inplace;       // trees whose struct belongs to the caller (betree_init / betree_deinit)

    Exec(const Plan& pl, bool wt) : p(pl), want_trace(wt) {}
    const Config& cfg(int tree) const { return p.configs[trees[tree].cfg]; }

    void viol(int cls, int op, const std::string& m) {
        if(res.viols.size() < 12) res.viols.push_back({cls, op, m});
        rt::log_mix(0x7000 + cls);
    }
    void trace(const std::string& s) { if(want_trace && res.trace.size() < 4000) res.trace.push_back(s); }
};
Exec* X;

// ------------------------------------------------------------ simulated readers-writer lock
bool can_read(void* l) { return ((Lock*)l)->writer < 0; }
bool can_write(void* l) { return ((Lock*)l)->writer < 0 && ((Lock*)l)->readers == 0; }
void lock_tree(Ctx& c, int tree, bool write) {
    Lock& l = X->trees[tree].lock;
    rt::maybe_yield();
    if(write) { rt::wait_until(can_write, &l); l.writer = rt::cur(); rt::hb_acquire(l.w); rt::hb_acquire(l.r); }
    else { rt::wait_until(can_read, &l); l.readers++; rt::hb_acquire(l.w); }
    c.lock_tree = tree; c.lock_write = write;
}
void unlock_tree(Ctx& c) {
    if(c.lock_tree < 0) return;
    Lock& l = X->trees[c.lock_tree].lock;
    if(c.lock_write) { l.writer = -1; rt::hb_release(l.w); }
    else { l.readers--; rt::hb_release(l.r); }
    c.lock_tree = -1;
    rt::maybe_yield();
}
void on_kill(int fiber) {
    // the thread died inside a read-only call: its lock share is recovered by the process
    Ctx& c = X->ctx[fiber];
    c.killed = true;
    if(c.lock_tree >= 0) {
        Lock& l = X->trees[c.lock_tree].lock;
        if(c.lock_write) { l.writer = -1; rt::hb_release(l.w); } else { l.readers--; rt::hb_release(l.r); }
        c.lock_tree = -1;
    }
    X->res.st.kills++;
    for(size_t i = 0; i <= c.pc; i++) rt::mark_exempt_op(fiber * OP_BASE + (int)i); // what it held dies with it
    c.rep = nullptr; c.kept.clear();
}

// ------------------------------------------------------------ building library objects
void add_variables(betree* t, const Config& c) {
    std::vector<int> order = c.declared();
    for(int vi : order) {
        const VarDef& v = c.vars[vi];
        if(((c.order >> 20) & 1) && (vi % 3 || c.order & 1)) { // declared with a line of text
            static const char* ty[T_NTY] = {"boolean", "integer", "float", "string", "integer list", "string list", "segments", "frequency", "integer enum"};
            std::string l = v.name + "|" + ty[v.ty] + "|" + (v.undef ? "true" : "false");
            if(v.bounded) {
                if(v.ty == T_INT || v.ty == T_IL) l += "|" + std::to_string(v.lo) + "|" + std::to_string(v.hi);
                else if(v.ty == T_FLOAT) { char b[64]; snprintf(b, sizeof b, "|%.17g|%.17g", fval(v.lo), fval(v.hi)); l += b; }
                else if(v.ty == T_STR || v.ty == T_SL || v.ty == T_ENUM) l += "|" + std::to_string(v.count);
            }
            if(vi % 2) l += "\n";
            char* text = rt::caller_string(l);
            { rt::InLib in; add_variable_from_string(t, text); }
            rt::caller_free(text);
            continue;
        }
        char* name = rt::caller_string(v.name);
        {
            rt::InLib in;
            switch(v.ty) {
                case T_BOOL: betree_add_boolean_variable(t, name, v.undef); break;
                case T_INT: betree_add_integer_variable(t, name, v.undef, v.bounded ? v.lo : INT64_MIN, v.bounded ? v.hi : INT64_MAX); break;
                case T_FLOAT: betree_add_float_variable(t, name, v.undef, v.bounded ? fval(v.lo) : -__DBL_MAX__, v.bounded ? fval(v.hi) : __DBL_MAX__); break;
                case T_STR: betree_add_string_variable(t, name, v.undef, v.bounded ? v.count : SIZE_MAX); break;
                case T_IL: betree_add_integer_list_variable(t, name, v.undef, v.bounded ? v.lo : INT64_MIN, v.bounded ? v.hi : INT64_MAX); break;
                case T_SL: betree_add_string_list_variable(t, name, v.undef, v.bounded ? v.count : SIZE_MAX); break;
                case T_SEG: betree_add_segments_variable(t, name, v.undef); break;
                case T_FREQ: betree_add_frequency_caps_variable(t, name, v.undef); break;
                case T_ENUM: betree_add_integer_enum_variable(t, name, v.undef, v.bounded ? v.count : SIZE_MAX); break;
            }
        }
        rt::caller_free(name);
    }
    for(size_t i = 0; i < order.size(); i++) {
        static const int type[T_NTY] = {BETREE_BOOLEAN, BETREE_INTEGER, BETREE_FLOAT, BETREE_STRING, BETREE_INTEGER_LIST, BETREE_STRING_LIST, BETREE_SEGMENTS, BETREE_FREQUENCY_CAPS, BETREE_INTEGER_ENUM};
        betree_variable_definition d;
        { rt::InLib in; d = betree_get_variable_definition(t, i); }
        const VarDef& v = c.vars[order[i]];
        if(v.name != d.name || type[v.ty] != (int)d.type) X->viol(V_RESULT, -1, "variable " + std::to_string(i) + " was declared as " + v.name + " but is defined as " + d.name + " of type " + std::to_string((int)d.type));
    }
}

betree* make_tree(int cfg) {
    const Config& c = X->p.configs[cfg];
    betree* t;
    if(c.dflt && ((X->p.seed >> 2) + cfg) % 2) { t = (betree*)rt::caller_alloc(sizeof *t); X->inplace.insert(t); rt::InLib in; betree_init(t); }
    else { rt::InLib in; t = c.dflt ? betree_make() : betree_make_with_parameters(c.cap, c.part); }
    add_variables(t, c);
    return t;
}
void free_tree(betree* t) {
    if(X->inplace.count(t)) { { rt::InLib in; betree_deinit(t); } X->inplace.erase(t); rt::caller_free(t); }
    else { rt::InLib in; betree_free(t); }
}

// the positions of a list, in the order the caller fills them
std::vector<size_t> fill_order(size_t n, int how) {
    std::vector<size_t> o; for(size_t i = 0; i < n; i++) o.push_back(how & 1 ? n - 1 - i : i);
    if((how & 2) && n > 2) std::rotate(o.begin(), o.begin() + n / 2, o.end());
    return o;
}
betree_integer_list* make_il(const Val& v, int how) {
    rt::InLib in; betree_integer_list* l = betree_make_integer_list(v.il.size());
    for(size_t i : fill_order(v.il.size(), how)) betree_add_integer(l, i, v.il[i]);
    return l;
}
betree_string_list* make_sl(const Val& v, int how) {
    betree_string_list* l; { rt::InLib in; l = betree_make_string_list(v.sl.size()); }
    for(size_t i : fill_order(v.sl.size(), how)) { char* s = rt::caller_string(v.sl[i]); { rt::InLib in; betree_add_string(l, i, s); } rt::caller_free(s); }
    return l;
}
betree_segments* make_seg(const Val& v, int how) {
    rt::InLib in; betree_segments* l = betree_make_segments(v.seg.size());
    for(size_t i : fill_order(v.seg.size(), how)) betree_add_segment(l, i, betree_make_segment(v.seg[i].first, v.seg[i].second));
    return l;
}
betree_frequency_cap* make_cap(const Cap& k) {
    char* a = rt::caller_string(k.type); char* b = rt::caller_string(k.ns); betree_frequency_cap* f;
    { rt::InLib in; f = betree_make_frequency_cap(a, k.id, b, k.tsdef, k.ts, k.value); }
    rt::caller_free(a); rt::caller_free(b);
    return f;
}
betree_frequency_caps* make_caps(const Val& v, int how) {
    betree_frequency_caps* l; { rt::InLib in; l = betree_make_frequency_caps(v.caps.size()); }
    for(size_t i : fill_order(v.caps.size(), how)) { betree_frequency_cap* f = make_cap(v.caps[i]); rt::InLib in; betree_add_frequency_cap(l, i, f); }
    return l;
}
betree_variable* make_variable(const Config& c, int var, const Val& v, int how) {
    std::string nm = c.vars[var].name;
    if((how & 0x380) == 0x80) for(size_t i = 0; i < nm.size(); i += 2) nm[i] = (char)toupper(nm[i]);
    char* name = rt::caller_string(nm);
    betree_variable* r = nullptr;
    switch(v.ty) {
        case T_BOOL: { rt::InLib in; r = betree_make_boolean_variable(name, v.i != 0); break; }
        case T_INT: case T_ENUM: { rt::InLib in; r = betree_make_integer_variable(name, v.i); break; }
        case T_FLOAT: { rt::InLib in; r = whole(v.i) && (how & 0x1c00) == 0x400 ? betree_make_integer_variable(name, v.i / 4) : betree_make_float_variable(name, fval(v.i)); break; }
        case T_STR: { char* s = rt::caller_string(v.s); { rt::InLib in; r = betree_make_string_variable(name, s); } rt::caller_free(s); break; }
        case T_IL: { auto* l = make_il(v, how); rt::InLib in; r = betree_make_integer_list_variable(name, l); break; }
        case T_SL: { auto* l = make_sl(v, how); rt::InLib in; r = betree_make_string_list_variable(name, l); break; }
        case T_SEG: { auto* l = make_seg(v, how); rt::InLib in; r = betree_make_segments_variable(name, l); break; }
        case T_FREQ: { auto* l = make_caps(v, how); rt::InLib in; r = betree_make_frequency_caps_variable(name, l); break; }
    }
    rt::caller_free(name);
    return r;
}
// a caller that changes its mind: a value is made and given back unused
void spare(const Config& c, int var, const Val& v, int how) {
    switch(how & 4 ? -1 : v.ty) {
        case T_IL: { auto* l = make_il(v, how); rt::InLib in; betree_free_integer_list(l); break; }
        case T_SL: { auto* l = make_sl(v, how); rt::InLib in; betree_free_string_list(l); break; }
        case T_SEG: { if(!v.seg.empty()) { rt::InLib in; betree_free_segment(betree_make_segment(v.seg[0].first, v.seg[0].second)); } auto* l = make_seg(v, how); rt::InLib in; betree_free_segments(l); break; }
        case T_FREQ: { if(!v.caps.empty()) { auto* f = make_cap(v.caps[0]); rt::InLib in; betree_free_frequency_cap(f); } auto* l = make_caps(v, how); rt::InLib in; betree_free_frequency_caps(l); break; }
        default: { auto* x = make_variable(c, var, v, how); rt::InLib in; betree_free_variable(x); break; }
    }
}

betree_event* make_api_event(const betree* t, const Config& c, const Event& e) {
    betree_event* ev;
    { rt::InLib in; ev = betree_make_event(t); }
    for(size_t i = 0; i < e.vals.size(); i++) {
        if(e.vals[i].second.ty < 0) continue;
        uint64_t h = (X->p.seed + 1) * 0x9E3779B97F4A7C15ull + (uint64_t)e.vals[i].first * 0xD1B54A32D192ED03ull + e.style; h ^= h >> 29;
        if(h % 16 == 0) spare(c, e.vals[i].first, e.vals[i].second, (int)(h >> 8));
        betree_variable* v = make_variable(c, e.vals[i].first, e.vals[i].second, (int)(h >> 12));
        // odd styles fill the event in configuration order, even ones in textual order
        size_t idx = (e.style & 1) ? (size_t)e.vals[i].first : i;
        rt::InLib in; betree_set_variable(ev, idx, v);
    }
    return ev;
}

void make_consts(Ctx& c, int k) {
    c.ks.clear();
    if(k < 0) return;
    for(auto& p : X->p.consts[k]) {
        char* n = rt::caller_string(p.first);
        betree_constant* x; { rt::InLib in; x = betree_make_integer_constant(n, p.second); }
        rt::caller_free(n);
        c.ks.push_back(x);
    }
}
void free_consts(Ctx& c) {
    if(c.ks.size() % 2 == 0 && !c.ks.empty()) { rt::InLib in; betree_free_constants(c.ks.size(), c.ks.data()); c.ks.clear(); return; }
    for(auto* k : c.ks) { rt::InLib in; betree_free_constant(k); } c.ks.clear(); }

// ------------------------------------------------------------ expectations
const Consts& consts_of(int k) { static const Consts none; return k < 0 ? none : X->p.consts[k]; }

void expected(int tree, const Event& e, std::vector<uint64_t>& out, bool& valid) {
    TreeM& t = X->trees[tree];
    const Config& c = X->p.configs[t.cfg];
    Env env(c, e);
    valid = required_defined(c, env);
    out.clear();
    for(auto& s : t.subs) if(eval(*X->p.exprs[s.expr], c, env, consts_of(s.consts))) out.push_back(s.id);
    std::sort(out.begin(), out.end());
}

std::string ids(const std::vector<uint64_t>& v) {
    std::ostringstream o; o << "{";
    for(size_t i = 0; i < v.size() && i < 24; i++) o << (i ? "," : "") << v[i];
    if(v.size() > 24) o << ",...";
    o << "}"; return o.str();
}

void weigh(const Expr& e, uint64_t& n, std::set<std::string>& d) {
    n += e.sl.size() + e.il.size(); d.insert(e.sl.begin(), e.sl.end());
    for(auto& k : e.kid) weigh(*k, n, d);
}
uint64_t list_weight() {
    if(!X->list_weight_known) { // only plans with really long lists pay for this
        uint64_t n = 0; std::set<std::string> d;
        for(auto& e : X->p.exprs) weigh(*e, n, d);
        X->list_weight = n * d.size(); X->list_weight_known = true;
    }
    return X->list_weight;
}

// string and enum capacity of bounded variables as a user sees it: an insert that needs more
// distinct values than the variable was declared with is refused. Once prepared expressions have
// narrowed the domains, whether a value none of them mentioned still enters is left open.
bool fits(int tree, const Expr& e, bool& unknown) {
    TreeM& t = X->trees[tree];
    const Config& c = X->p.configs[t.cfg];
    std::map<int, std::set<std::string>> need; strings_of(e, c, need);
    for(auto& kv : need) {
        const VarDef& v = c.vars[kv.first];
        if(!v.bounded) { if(t.narrowed) for(auto& x : kv.second) if(!t.interned[kv.first].count(x)) unknown = true; continue; }
        std::set<std::string> all = t.interned[kv.first]; all.insert(kv.second.begin(), kv.second.end());
        if(all.size() > v.count) return false;
    }
    std::map<int, std::set<int64_t>> needi; ints_of_enum(e, c, needi);
    for(auto& kv : needi) {
        const VarDef& v = c.vars[kv.first];
        if(!v.bounded) { if(t.narrowed) for(auto& x : kv.second) if(!t.ienums[kv.first].count(x)) unknown = true; continue; }
        std::set<int64_t> all = t.ienums[kv.first]; all.insert(kv.second.begin(), kv.second.end());
        if(all.size() > v.count) return false;
    }
    return true;
}
void intern(int tree, const Expr& e) { TreeM& t = X->trees[tree]; strings_of(e, X->p.configs[t.cfg], t.interned); ints_of_enum(e, X->p.configs[t.cfg], t.ienums); }

// ------------------------------------------------------------ operations
void check_report(int opid, int tree, bool rv, report* r, const std::vector<uint64_t>& expect, bool valid, bool faulted, Ctx& c, const std::string& memo_key, size_t before) {
    RunStats& st = X->res.st;
    if(!valid) {
        if(rv) X->viol(V_VALIDATE, opid, "search over an event lacking a required variable returned true");
        else if(r->matched != before) X->viol(V_VALIDATE, opid, "a refused search reported subscriptions");
        return;
    }
    if(!rv) {
        if(!faulted) X->viol(V_RESULT, opid, "search returned false for a complete event");
        return;
    }
    c.got.clear();
    size_t m = r->matched;
    if(m > 100000) { X->viol(V_REPORT, opid, "report.matched is " + std::to_string(m)); return; }
    if(m && !r->subs) { X->viol(V_REPORT, opid, "report.matched is " + std::to_string(m) + " with no subscription array"); return; }
    for(size_t i = 0; i < m; i++) {
        if(!rt::addr_in_arena(r->subs + i)) { X->viol(V_REPORT, opid, "report.subs points outside the heap"); return; }
        c.got.push_back(r->subs[i]);
    }
    std::sort(c.got.begin(), c.got.end());
    if(c.got != expect) {
        X->viol(V_RESULT, opid, "search answered " + ids(c.got) + " but the acknowledged expressions define " + ids(expect));
        return;
    }
    st.matches += m; if(m) st.nonempty++;
    st.evaluated += r->evaluated; st.shorted += r->shorted; st.memoized += r->memoized;
    if(!memo_key.empty()) {
        size_t n = X->trees[tree].subs.size();
        if(r->evaluated > n) X->viol(V_REPORT, opid, "report.evaluated " + std::to_string(r->evaluated) + " exceeds the number of subscriptions " + std::to_string(n));
        if(r->matched > r->evaluated) X->viol(V_REPORT, opid, "report.matched " + std::to_string(r->matched) + " exceeds report.evaluated " + std::to_string(r->evaluated));
        if(r->shorted > r->evaluated) X->viol(V_REPORT, opid, "report.shorted " + std::to_string(r->shorted) + " exceeds report.evaluated " + std::to_string(r->evaluated));
        std::string v = std::to_string(r->evaluated) + "/" + std::to_string(r->shorted) + "/" + std::to_string(r->memoized);
        auto it = X->seen_reports.find(memo_key);
        if(it == X->seen_reports.end()) X->seen_reports[memo_key] = v;
        else if(it->second != v) X->viol(V_DIVERGE, opid, "the same search on the same tree reported evaluated/shorted/memoized " + it->second + " first and " + v + " later");
    }
}

void do_search(int opid, Ctx& c, const Op& op) {
    TreeM& t = X->trees[op.tree];
    const Event& e = X->p.events[op.event];
    const Config& cf = X->p.configs[t.cfg];
    bool api = op.rep != 0 || !representable(e);
    rt::AllocFault none;
    lock_tree(c, op.tree, false);
    expected(op.tree, e, c.expect, c.expect_valid);
    // now and then memory runs out while the event is put together
    bool build_fault = op.fault.first >= 0 && op.fault.first % 4 == 3;
    rt::AllocFault bf = op.fault; bf.first /= 4;
    rt::enter_op(opid, build_fault ? bf : none, 0, 0, budget(t));
    c.ev = nullptr; c.text = nullptr;
    if(api) {
        std::pair<int, int> key(op.rep == 3 ? -1 : op.tree, op.event);
        if(op.rep >= 2 && c.kept.count(key)) c.ev = c.kept[key];
        else { c.ev = make_api_event(t.t, cf, e); if(op.rep >= 2) c.kept[key] = c.ev; }
    }
    else c.text = rt::caller_string(render(e, cf));
    bool search = op.k == OP_SEARCH;
    if(search) {
        if(op.report) { if(!c.rep) { rt::InLib in; c.rep = make_report(); c.rep_expect.clear(); c.rep_evaluated = c.rep_shorted = c.rep_limit = 0; } c.cur_rep = c.rep; }
        else { rt::InLib in; c.cur_rep = make_report(); }
    }
    bool bfaulted = rt::op_faulted();
    rt::leave_op();
    rt::enter_op(opid, build_fault ? none : op.fault, op.kill_at, op.crash_at, budget(t));
    bool rv;
    {
        rt::InLib in;
        if(search) rv = api ? betree_search_with_event(t.t, c.ev, c.cur_rep) : betree_search(t.t, c.text, c.cur_rep);
        else rv = api ? betree_exists_with_event(t.t, c.ev) : betree_exists(t.t, c.text);
    }
    bool faulted = rt::op_faulted() || bfaulted;
    X->res.st.max_steps = std::max(X->res.st.max_steps, rt::op_total_steps());
    rt::leave_op();
    rt::log_mix(rv);
    RunStats& st = X->res.st;
    if(faulted) { st.alloc_faults++; X->leaks_meaningful = false; }
    if(!c.expect_valid) st.undefined_events++;
    if(search) {
        st.searches++;
        if(op.report) {
            size_t before = c.rep_expect.size();
            if(rv && c.expect_valid) for(auto x : c.expect) c.rep_expect.push_back(x);
            std::sort(c.rep_expect.begin(), c.rep_expect.end());
            check_report(opid, op.tree, rv, c.cur_rep, c.rep_expect, c.expect_valid, faulted, c, "", before);
            c.rep_limit += t.subs.size();
            if(!faulted && rv && c.expect_valid) {
                report* r = c.cur_rep;
                if(r->evaluated < c.rep_evaluated || r->shorted < c.rep_shorted) X->viol(V_REPORT, opid, "a reused report forgot work it had counted");
                if(r->matched > r->evaluated) X->viol(V_REPORT, opid, "a reused report lists " + std::to_string(r->matched) + " matches from " + std::to_string(r->evaluated) + " evaluations");
                if(r->shorted > r->evaluated || r->evaluated > c.rep_limit) X->viol(V_REPORT, opid, "the counters of a reused report contradict each other: evaluated " + std::to_string(r->evaluated) + ", short-circuited " + std::to_string(r->shorted) + ", subscriptions seen " + std::to_string(c.rep_limit));
                c.rep_evaluated = r->evaluated; c.rep_shorted = r->shorted;
            }
            if(faulted && !rv) { c.rep = nullptr; } // contents unspecified after a reported failure
        }
        else {
            std::string key = std::to_string(op.tree) + ":" + std::to_string(t.version) + ":" + std::to_string(op.event);
            check_report(opid, op.tree, rv, c.cur_rep, c.expect, c.expect_valid, faulted, c, faulted ? "" : key, 0);
        }
    }
    else {
        st.exists++;
        // exists does not refuse incomplete events; only complete ones are compared
        if(c.expect_valid && rv != !c.expect.empty())
            X->viol(V_EXISTS, opid, std::string("exists returned ") + (rv ? "true" : "false") + " but the matching subscriptions are " + ids(c.expect));
    }
    rt::enter_op(opid, none, 0, 0, budget(t));
    if(search && !op.report) { rt::InLib in; free_report(c.cur_rep); }
    if(c.text) rt::caller_free(c.text);
    if(api && op.rep < 2) { rt::InLib in; betree_free_event(c.ev); }
    c.ev = nullptr; c.text = nullptr; c.cur_rep = nullptr;
    rt::leave_op();
    unlock_tree(c);
}

// Returns through X the acknowledged effect of one insert on tree `tree`.
void do_insert(int opid, Ctx& c, int tree, int expr, int consts, uint64_t id, int path, const Op* op, bool locked) {
    TreeM& t = X->trees[tree];
    const Config& cf = X->p.configs[t.cfg];
    rt::AllocFault none;
    if(!locked) lock_tree(c, tree, true);
    bool open = false;
    bool ok_expected = fits(tree, *X->p.exprs[expr], open) && needs_consts_ok(*X->p.exprs[expr], consts_of(consts));
    rt::enter_op(opid, none, 0, 0, budget(t));
    c.text = rt::caller_string(render(*X->p.exprs[expr], cf, X->p.expr_style[expr]));
    make_consts(c, consts);
    rt::leave_op();
    rt::enter_op(opid, op ? op->fault : none, 0, op ? op->crash_at : 0, budget(t));
    bool rv;
    {
        const betree_constant** ka = (const betree_constant**)(c.ks.empty() ? nullptr : c.ks.data());
        rt::InLib in;
        if(path == 0 && c.ks.empty()) rv = betree_insert(t.t, id, c.text);
        else rv = betree_insert_with_constants(t.t, id, c.ks.size(), ka, c.text);
    }
    bool faulted = rt::op_faulted();
    X->res.st.max_steps = std::max(X->res.st.max_steps, rt::op_total_steps());
    rt::leave_op();
    rt::log_mix(rv);
    if(faulted) { X->res.st.alloc_faults++; X->leaks_meaningful = false; }
    t.version++;
    if(rv) {
        if(!ok_expected) X->viol(V_REFUSE, opid, "an expression that does not fit the configuration was accepted");
        for(auto& s : t.subs) if(s.id == id) { X->res.st.dup_inserts++; break; }
        t.subs.push_back({id, expr, consts, 0}); intern(tree, *X->p.exprs[expr]);
        X->res.st.inserts++;
    }
    else {
        X->res.st.refused++;
        if(ok_expected && !open && !faulted) X->viol(V_ACCEPT, opid, "a valid expression was refused");
    }
    rt::enter_op(opid, none, 0, 0, budget(t));
    free_consts(c);
    rt::caller_free(c.text); c.text = nullptr;
    rt::leave_op();
    if(!locked) unlock_tree(c);
}

void do_make_sub(int opid, Ctx& c, int tree, int expr, int consts, uint64_t id, int slot, const Op* op, bool locked) {
    TreeM& t = X->trees[tree];
    const Config& cf = X->p.configs[t.cfg];
    rt::AllocFault none;
    if(!locked) lock_tree(c, tree, true);
    bool ok_expected = needs_consts_ok(*X->p.exprs[expr], consts_of(consts));
    rt::enter_op(opid, none, 0, 0, budget(t));
    c.text = rt::caller_string(render(*X->p.exprs[expr], cf, X->p.expr_style[expr]));
    make_consts(c, consts);
    rt::leave_op();
    rt::enter_op(opid, op ? op->fault : none, 0, op ? op->crash_at : 0, budget(t));
    const struct betree_sub* sub;
    {
        const betree_constant** ka = (const betree_constant**)(c.ks.empty() ? nullptr : c.ks.data());
        rt::InLib in; sub = betree_make_sub(t.t, id, c.ks.size(), ka, c.text);
    }
    bool faulted = rt::op_faulted();
    rt::leave_op();
    t.narrowed = true;
    rt::log_mix(sub != nullptr);
    if(faulted) { X->res.st.alloc_faults++; X->leaks_meaningful = false; }
    t.version++;
    if(sub) {
        if(!ok_expected) X->viol(V_REFUSE, opid, "make_sub accepted an expression without its constant");
        Slot s; s.sub = sub; s.tree = tree; s.expr = expr; s.consts = consts; s.id = id; s.op = opid;
        X->slots[slot] = s;
    }
    else if(ok_expected && !faulted) X->viol(V_ACCEPT, opid, "make_sub refused a valid expression");
    // its strings are registered with the tree either way it was meant to succeed
    intern(tree, *X->p.exprs[expr]);
    rt::enter_op(opid, none, 0, 0, budget(t));
    free_consts(c);
    rt::caller_free(c.text); c.text = nullptr;
    rt::leave_op();
    if(!locked) unlock_tree(c);
}

void do_insert_sub(int opid, Ctx& c, int tree, int slot, const Op* op, bool locked) {
    auto it = X->slots.find(slot);
    if(it == X->slots.end() || it->second.used || it->second.tree != tree) return;
    Slot& s = it->second;
    TreeM& t = X->trees[tree];
    rt::AllocFault none;
    if(!locked) lock_tree(c, tree, true);
    s.used = true;
    rt::enter_op(opid, op ? op->fault : none, 0, op ? op->crash_at : 0, budget(t));
    bool rv;
    { rt::InLib in; rv = betree_insert_sub(t.t, s.sub); }
    bool faulted = rt::op_faulted();
    rt::leave_op();
    rt::log_mix(rv);
    if(faulted) { X->res.st.alloc_faults++; X->leaks_meaningful = false; }
    t.version++;
    if(rv) { t.subs.push_back({s.id, s.expr, s.consts, 1}); X->res.st.inserts++; }
    else if(!faulted) X->viol(V_ACCEPT, opid, "insert_sub refused a prepared subscription");
    if(!locked) unlock_tree(c);
}

void do_change_boundaries(int opid, Ctx& c, int tree, int expr, const Op* op, bool locked) {
    TreeM& t = X->trees[tree];
    const Config& cf = X->p.configs[t.cfg];
    rt::AllocFault none;
    if(!locked) lock_tree(c, tree, true);
    rt::enter_op(opid, none, 0, 0, budget(t));
    c.text = rt::caller_string(render(*X->p.exprs[expr], cf, X->p.expr_style[expr]));
    rt::leave_op();
    rt::enter_op(opid, op ? op->fault : none, 0, op ? op->crash_at : 0, budget(t));
    bool rv;
    { rt::InLib in; rv = betree_change_boundaries(t.t, c.text); }
    bool faulted = rt::op_faulted();
    rt::leave_op();
    t.narrowed = true;
    rt::log_mix(rv);
    if(faulted) { X->res.st.alloc_faults++; X->leaks_meaningful = false; }
    t.version++;
    if(rv) { t.boundaries.push_back({expr, opid}); intern(tree, *X->p.exprs[expr]); }
    else if(!faulted) X->viol(V_ACCEPT, opid, "change_boundaries refused a valid expression");
    rt::caller_free(c.text); c.text = nullptr;
    // a call that failed for want of memory is made again: the inserts that follow rely on it
    if(!rv && faulted) do_change_boundaries(opid, c, tree, expr, nullptr, true);
    if(!locked) unlock_tree(c);
}

void do_bad(int opid, Ctx& c, const Op& op) {
    TreeM& t = X->trees[op.tree];
    rt::AllocFault none;
    lock_tree(c, op.tree, true);
    rt::enter_op(opid, none, 0, 0, budget(t));
    c.text = rt::caller_string(op.raw);
    make_consts(c, op.consts);
    rt::leave_op();
    rt::enter_op(opid, op.fault, 0, op.crash_at, budget(t));
    bool rv;
    {
        const betree_constant** ka = (const betree_constant**)(c.ks.empty() ? nullptr : c.ks.data());
        rt::InLib in;
        switch(op.path) {
            case 0: rv = betree_insert(t.t, op.id, c.text); break;
            case 1: rv = betree_insert_with_constants(t.t, op.id, c.ks.size(), ka, c.text); break;
            case 2: rv = betree_make_sub(t.t, op.id, c.ks.size(), ka, c.text) != nullptr; break;
            default: rv = betree_change_boundaries(t.t, c.text); break;
        }
    }
    bool faulted = rt::op_faulted();
    rt::leave_op();
    rt::log_mix(rv);
    if(faulted) { X->res.st.alloc_faults++; X->leaks_meaningful = false; }
    X->res.st.refused++;
    if(rv) X->viol(V_REFUSE, opid, "an expression that must be refused was accepted: " + op.raw);
    // A refused syntax error frees what it can; generated-parser leaks are judged by their own property.
    rt::enter_op(opid, none, 0, 0, budget(t));
    free_consts(c);
    rt::caller_free(c.text); c.text = nullptr;
    rt::leave_op();
    unlock_tree(c);
}

void do_torn(int opid, Ctx& c, const Op& op) {
    TreeM& t = X->trees[op.tree];
    rt::AllocFault none;
    lock_tree(c, op.tree, false);
    rt::enter_op(opid, none, 0, 0, budget(t));
    c.text = rt::caller_string(op.raw);
    bool search = op.path == 0;
    if(search) { rt::InLib in; c.cur_rep = make_report(); }
    rt::leave_op();
    rt::enter_op(opid, op.fault, 0, op.crash_at, budget(t));
    X->res.st.torn++;
    bool rv;
    { rt::InLib in; rv = search ? betree_search(t.t, c.text, c.cur_rep) : betree_exists(t.t, c.text); }
    rt::leave_op();
    if(rv) X->viol(V_REFUSE, opid, "a damaged event text was answered: " + op.raw);
    else if(search && c.cur_rep->matched) X->viol(V_REFUSE, opid, "a refused event text reported subscriptions: " + op.raw);
    rt::enter_op(opid, none, 0, 0, budget(t));
    if(search) { rt::InLib in; free_report(c.cur_rep); }
    rt::caller_free(c.text); c.text = nullptr;
    rt::leave_op();
    unlock_tree(c);
}

void do_drop(int opid, Ctx& c, const Op& op) {
    TreeM& t = X->trees[op.tree];
    rt::AllocFault none;
    lock_tree(c, op.tree, true);
    rt::enter_op(opid, none, 0, op.crash_at, budget(t));
    // prepared but never inserted subscriptions stay with their creator
    for(auto& kv : X->slots) if(kv.second.tree == op.tree && !kv.second.used) { rt::mark_exempt_op(kv.second.op); kv.second.used = true; }
    free_tree(t.t);
    t.t = nullptr;
    t.subs.clear(); t.boundaries.clear(); t.interned.clear(); t.ienums.clear(); t.narrowed = false; t.version++;
    if(op.path > 0 && op.path <= (int)X->p.configs.size()) t.cfg = op.path - 1;
    t.t = make_tree(t.cfg);
    rt::leave_op();
    X->res.st.drops++;
    unlock_tree(c);
}

void client_main(int f) {
    Ctx& c = X->ctx[f];
    const std::vector<Op>& ops = X->p.clients[f];
    while(c.pc < ops.size()) {
        const Op* opp = &ops[c.pc];
        if(c.nofault_pc == c.pc) { c.calm = *opp; c.calm.fault = rt::AllocFault(); c.calm.kill_at = c.calm.crash_at = 0; opp = &c.calm; }
        const Op& op = *opp;
        int opid = f * OP_BASE + (int)c.pc;
        X->res.st.ops++;
        if(op.kill_at && (op.k == OP_SEARCH || op.k == OP_EXISTS)) rt::mark_exempt_op(opid);
        uint64_t sw = rt::stats().switches;
        switch(op.k) {
            case OP_INSERT: do_insert(opid, c, op.tree, op.expr, op.consts, op.id, op.path, &op, false); break;
            case OP_MAKESUB: do_make_sub(opid, c, op.tree, op.expr, op.consts, op.id, op.slot, &op, false); break;
            case OP_INSERTSUB: do_insert_sub(opid, c, op.tree, op.slot, &op, false); break;
            case OP_CHANGEB: do_change_boundaries(opid, c, op.tree, op.expr, &op, false); break;
            case OP_SEARCH: case OP_EXISTS: for(uint64_t k = 0; k < op.times && (k == 0 || X->res.viols.empty()); k++) do_search(opid, c, op); break;
            case OP_BAD: do_bad(opid, c, op); break;
            case OP_TORN: do_torn(opid, c, op); break;
            case OP_DROP: for(uint64_t k = 0; k < op.times; k++) do_drop(opid, c, op); break;
        }
        if(rt::stats().switches != sw) X->res.st.preempted_ops++;
        c.pc++;
    }
}

void setup_main(int) {
    for(size_t i = 0; i < X->trees.size(); i++) {
        rt::enter_op(OP_SETUP + (int)i, rt::AllocFault(), 0, 0, STEP_BUDGET);
        X->trees[i].t = make_tree(X->trees[i].cfg);
        rt::leave_op();
    }
}

// A restarted process: the journal of acknowledged inserts is all that survived.
void rebuild_main(int) {
    setup_main(0);
    Ctx& c = X->ctx[0];
    for(size_t ti = 0; ti < X->trees.size(); ti++) {
        TreeM& t = X->trees[ti];
        std::vector<SubM> subs; subs.swap(t.subs);
        std::vector<std::pair<int, int>> bnd; bnd.swap(t.boundaries);
        t.interned.clear(); t.ienums.clear(); t.narrowed = false; t.version++;
        if(X->p.rebuild_perm) {
            Rng r((uint64_t)X->p.rebuild_perm * 77 + X->res.st.restarts);
            for(size_t i = subs.size(); i > 1; i--) std::swap(subs[i - 1], subs[r.below(i)]);
        }
        for(auto& b : bnd) do_change_boundaries(OP_REBUILD, c, (int)ti, b.first, nullptr, true);
        int n = 0;
        for(auto& s : subs) { bool ms = X->p.rebuild_path == 1 || (X->p.rebuild_path == 0 && s.path == 1); if(ms) { s.path = 1; do_make_sub(OP_REBUILD + 1, c, (int)ti, s.expr, s.consts, s.id, 1000000 + n, nullptr, true); } else s.path = 0; n++; }
        n = 0;
        for(auto& s : subs) {
            if(s.path == 1) do_insert_sub(OP_REBUILD + 2, c, (int)ti, 1000000 + n, nullptr, true);
            else do_insert(OP_REBUILD + 2, c, (int)ti, s.expr, s.consts, s.id, 0, nullptr, true);
            n++;
        }
        for(int k = 0; k < n; k++) X->slots.erase(1000000 + k);
    }
}

void sweep_main(int) {
    Ctx& c = X->ctx[0];
    Op op; op.fault = rt::AllocFault();
    for(size_t t = 0; t < X->trees.size(); t++) {
        for(size_t e = 0; e < X->p.events.size(); e++) {
            // an event belongs to every tree whose configuration has its variables
            op.tree = (int)t; op.event = (int)e;
            op.k = OP_SEARCH; op.rep = 0; op.report = 0; do_search(OP_SWEEP + (int)e, c, op);
            op.k = OP_EXISTS; op.rep = (int)(e % 2); do_search(OP_SWEEP + (int)e, c, op);
            X->res.st.sweeps++;
            if(X->res.viols.size() > 6) return;
        }
    }
}

void teardown_main(int) {
    rt::enter_op(OP_FREE, rt::AllocFault(), 0, 0, STEP_BUDGET);
    for(auto& c : X->ctx) {
        for(auto& kv : c.kept) { rt::InLib in; betree_free_event(kv.second); }
        c.kept.clear();
        if(c.rep) { rt::InLib in; free_report(c.rep); c.rep = nullptr; }
    }
    for(auto& kv : X->slots) if(!kv.second.used) rt::mark_exempt_op(kv.second.op);
    for(auto& t : X->trees) { free_tree(t.t); t.t = nullptr; }
    rt::leave_op();
}

} // namespace

std::string op_name(const Plan& p, int id) {
    if(id >= OP_FREE) return "teardown";
    if(id >= OP_REBUILD) return "rebuild after restart";
    if(id >= OP_SWEEP) return "final search event" + std::to_string(id - OP_SWEEP);
    if(id >= OP_SETUP) return "tree creation";
    if(id < 0) return "?";
    size_t c = id / OP_BASE, k = id % OP_BASE;
    if(c < p.clients.size() && k < p.clients[c].size()) return "client" + std::to_string(c) + "#" + std::to_string(k) + " " + describe(p.clients[c][k], p);
    return "op" + std::to_string(id);
}

RunResult run_plan(const Plan& p, bool want_trace) {
    Exec ex(p, want_trace);
    X = &ex;
    rt::g_on_kill = on_kill;
    int nf = (int)p.clients.size();
    rt::begin_run(std::max(nf, 1), p.sched, (uint8_t)p.fill, p.inplace, p.races != 0);
    ex.trees.resize(p.trees.size());
    for(size_t i = 0; i < p.trees.size(); i++) ex.trees[i].cfg = p.trees[i];
    ex.ctx.resize(std::max(nf, 1));
    bool stop = false;
    auto handle_death = [&](bool can_restart) -> bool { // true: restarted
        int d = rt::death_kind(), op = rt::death_op();
        const Op* o = nullptr;
        if(op >= 0 && op < OP_SETUP) { size_t c = op / OP_BASE, k = op % OP_BASE; if(c < p.clients.size() && k < p.clients[c].size()) o = &p.clients[c][k]; }
        bool faulted = o && rt::death_faulted();
        bool ok = false;
        std::string what = std::string(rt::death_name(d)) + (rt::death_detail().empty() ? "" : ": " + rt::death_detail());
        if(d == rt::D_CRASH) { ok = true; ex.res.st.crashes++; }
        // a process that went on after a failed allocation may stop later, but may not answer wrongly
        else if((faulted || rt::fault_fired()) && (d == rt::D_ABORT || d == rt::D_EXIT || d == rt::D_NULLDEREF)) { ok = true; ex.res.st.failstops++; ex.res.st.alloc_faults++; }
        else if(o && o->k == OP_TORN && (d == rt::D_ABORT || d == rt::D_EXIT)) { ok = true; ex.res.st.failstops++; }
        if(!ok) {
            int cls = d == rt::D_HANG ? V_HANG : (d == rt::D_SEGV || d == rt::D_NULLDEREF || d == rt::D_STACK) ? V_CRASH : V_CRASH;
            ex.viol(cls, op, "the process died (" + what + ")" + (faulted ? " after an injected allocation failure" : ""));
            return false;
        }
        if(!can_restart) return false;
        return true;
    };
    auto restart = [&](int fiber, bool died_by_itself) {
        ex.res.st.restarts++;
        rt::process_restart();
        ex.slots.clear(); ex.seen_reports.clear();
        for(auto& t : ex.trees) { t.t = nullptr; t.lock = Lock(); }
        ex.inplace.clear();
        for(size_t i = 0; i < ex.ctx.size(); i++) {
            Ctx& c = ex.ctx[i];
            bool here = (int)i == fiber;
            size_t pc = c.pc, calm = c.nofault_pc; bool killed = c.killed;
            // the interrupted call is made again, undisturbed; a damaged event is not offered twice
            if(here && i < p.clients.size() && pc < p.clients[i].size()) { if(p.clients[i][pc].k == OP_TORN && died_by_itself) pc++; else calm = pc; }
            Ctx n; n.pc = pc; n.killed = killed; n.nofault_pc = calm; c = n;
        }
        ex.leaks_meaningful = true;
        rt::spawn(0, rebuild_main);
        return rt::run_fibers();
    };
    auto run_phase = [&](const std::vector<int>& fibers, rt::FiberFn fn) -> bool {
        for(int f : fibers) rt::spawn(f, fn);
        int guard = 0;
        for(;;) {
            int d = rt::run_fibers();
            if(d == rt::D_NONE) {
                if(rt::deadlocked()) { ex.viol(V_DEADLOCK, -1, "clients wait forever"); return false; }
                return true;
            }
            int df = rt::death_fiber();
            if(!handle_death(true) || ++guard > 12) return false;
            bool own = rt::death_kind() != rt::D_CRASH;
            if(restart(df, own) != rt::D_NONE) { handle_death(false); if(ex.res.viols.empty()) ex.viol(V_CRASH, OP_REBUILD, "the process died while re-inserting acknowledged expressions"); return false; }
            bool more = false;
            if(fn == client_main) for(int f : fibers) if(!ex.ctx[f].killed && ex.ctx[f].pc < p.clients[f].size()) { rt::spawn(f, fn); more = true; }
            if(fn == sweep_main || fn == teardown_main) { rt::spawn(0, fn); more = true; }
            if(!more) return true;
        }
    };
    stop = !run_phase({0}, setup_main);
    if(!stop && !p.clients.empty() && !p.clients[0].empty()) stop = !run_phase({0}, client_main);
    if(!stop && nf > 1) {
        std::vector<int> fs; for(int i = 1; i < nf; i++) fs.push_back(i);
        stop = !run_phase(fs, client_main);
    }
    if(!stop && p.sweep) stop = !run_phase({0}, sweep_main);
    if(!stop) {
        stop = !run_phase({0}, teardown_main);
        if(!stop && ex.leaks_meaningful) {
            size_t n = rt::live_blocks();
            if(n) {
                std::map<int, std::pair<size_t, size_t>> by;
                size_t bytes = 0;
                for(auto& b : rt::blocks()) if(!b.freed && !rt::is_exempt(b.op)) { by[b.op].first++; by[b.op].second += b.size; bytes += b.size; }
                int op = by.begin()->first;
                ex.viol(V_LEAK, op, std::to_string(n) + " blocks (" + std::to_string(bytes) + " bytes) still held after everything was released; " + std::to_string(by[op].first) + " of them allocated by " + op_name(p, op));
            }
        }
    }
    for(auto& m : rt::mem_errors()) { ex.viol(V_MEM, m.op, m.kind); if(ex.res.viols.size() > 8) break; }
    for(auto& r : rt::races()) {
        ex.viol(V_RACE, r.op_b, std::string(r.wa ? "write" : "read") + " by " + op_name(p, r.op_a) + " and " + (r.wb ? "write" : "read") + " by " + op_name(p, r.op_b) + " on the same " + (r.global ? "static storage" : "heap memory") + " are unordered");
        break;
    }
    RunStats& st = ex.res.st;
    st.switches = rt::stats().switches; st.accesses = rt::stats().accesses; st.allocs = rt::stats().allocs;
    if(p.sched.stall_fiber >= 0) st.stalls = 1;
    ex.res.hash = rt::log_hash();
    ex.res.recorded = rt::recorded();
    uint64_t h = 14695981039346656037ull;
    for(auto& s : ex.res.recorded.preempt) { h = (h ^ s.at) * 1099511628211ull; h = (h ^ s.to) * 1099511628211ull; }
    for(int f : ex.res.recorded.forced) h = (h ^ (f + 17)) * 1099511628211ull;
    ex.res.sched_hash = h;
    rt::end_run();
    X = nullptr;
    return ex.res;
}
