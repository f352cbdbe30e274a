#include "plan.h"
#include <iostream>
#include <sstream>

static void ws(std::ostream& o, const std::string& s) {
    static const char* hx = "0123456789abcdef";
    o << " \"";
    for(unsigned char ch : s) { if(ch > 32 && ch < 127 && ch != '"' && ch != '%') o << ch; else o << '%' << hx[ch >> 4] << hx[ch & 15]; }
    o << '"';
}
static std::string rs(std::istream& in) {
    std::string t; in >> t;
    if(t.size() < 2 || t[0] != '"') { in.setstate(std::ios::failbit); return ""; }
    std::string r;
    auto h = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for(size_t i = 1; i + 1 < t.size(); i++) { if(t[i] == '%') { r += (char)(h(t[i + 1]) * 16 + h(t[i + 2])); i += 2; } else r += t[i]; }
    return r;
}
template <class T> static void wi(std::ostream& o, T v) { o << ' ' << (long long)v; }
static void wu(std::ostream& o, uint64_t v) { o << ' ' << v; }
static long long ri(std::istream& in) { long long v = 0; in >> v; return v; }
static uint64_t ru(std::istream& in) { uint64_t v = 0; in >> v; return v; }
static void key(std::istream& in, const char* k) { std::string t; in >> t; if(t != k) in.setstate(std::ios::failbit); }

static void wexpr(std::ostream& o, const Expr& e) {
    o << " ("; wi(o, e.k); wi(o, e.op); wi(o, e.var); wi(o, e.a); wi(o, e.b); wi(o, e.c); wi(o, e.flip); ws(o, e.s); ws(o, e.ns);
    wi(o, e.il.size()); for(auto x : e.il) wi(o, x);
    wi(o, e.sl.size()); for(auto& x : e.sl) ws(o, x);
    wi(o, e.kid.size()); for(auto& x : e.kid) wexpr(o, *x);
    o << " )";
}
static ExprP rexpr(std::istream& in) {
    auto e = std::make_shared<Expr>();
    key(in, "("); e->k = ri(in); e->op = ri(in); e->var = ri(in); e->a = ri(in); e->b = ri(in); e->c = ri(in); e->flip = ri(in); e->s = rs(in); e->ns = rs(in);
    int n = ri(in); for(int i = 0; i < n && in; i++) e->il.push_back(ri(in));
    n = ri(in); for(int i = 0; i < n && in; i++) e->sl.push_back(rs(in));
    n = ri(in); for(int i = 0; i < n && in; i++) e->kid.push_back(rexpr(in));
    key(in, ")");
    return e;
}
static void wval(std::ostream& o, const Val& v) {
    wi(o, v.ty); wi(o, v.i); ws(o, v.s);
    wi(o, v.il.size()); for(auto x : v.il) wi(o, x);
    wi(o, v.sl.size()); for(auto& x : v.sl) ws(o, x);
    wi(o, v.seg.size()); for(auto& x : v.seg) { wi(o, x.first); wi(o, x.second); }
    wi(o, v.caps.size()); for(auto& c : v.caps) { ws(o, c.type); wu(o, c.id); ws(o, c.ns); wi(o, c.tsdef); wi(o, c.ts); wu(o, c.value); }
}
static Val rval(std::istream& in) {
    Val v; v.ty = ri(in); v.i = ri(in); v.s = rs(in);
    int n = ri(in); for(int i = 0; i < n && in; i++) v.il.push_back(ri(in));
    n = ri(in); for(int i = 0; i < n && in; i++) v.sl.push_back(rs(in));
    n = ri(in); for(int i = 0; i < n && in; i++) { long long a = ri(in), b = ri(in); v.seg.push_back({a, b}); }
    n = ri(in); for(int i = 0; i < n && in; i++) { Cap c; c.type = rs(in); c.id = ru(in); c.ns = rs(in); c.tsdef = ri(in); c.ts = ri(in); c.value = ru(in); v.caps.push_back(c); }
    return v;
}

void save(const Plan& p, std::ostream& o) {
    o << "betree-sim-plan 3\nprop"; ws(o, p.prop); o << "\nseed"; wu(o, p.seed);
    o << "\nenv"; wi(o, p.fill); wi(o, p.inplace); wi(o, p.races); wi(o, p.rebuild_perm); wi(o, p.rebuild_path); wi(o, p.sweep); wi(o, p.clock_span); wi(o, p.clock_jumps);
    o << "\nconfigs"; wi(o, p.configs.size());
    for(auto& c : p.configs) {
        o << "\nconfig"; wi(o, c.dflt); wi(o, c.cap); wi(o, c.part); wi(o, c.order); wi(o, c.vars.size());
        for(auto& v : c.vars) { o << "\n var"; ws(o, v.name); wi(o, v.ty); wi(o, v.undef); wi(o, v.bounded); wi(o, v.lo); wi(o, v.hi); wu(o, v.count); }
    }
    o << "\ntrees"; wi(o, p.trees.size()); for(int t : p.trees) wi(o, t);
    o << "\nexprs"; wi(o, p.exprs.size());
    for(size_t i = 0; i < p.exprs.size(); i++) { o << "\nexpr"; wi(o, p.expr_style[i]); wexpr(o, *p.exprs[i]); }
    o << "\nevents"; wi(o, p.events.size());
    for(auto& e : p.events) { o << "\nevent"; wi(o, e.style); wi(o, e.vals.size()); for(auto& v : e.vals) { o << "\n "; wi(o, v.first); wval(o, v.second); } }
    o << "\nconsts"; wi(o, p.consts.size());
    for(auto& c : p.consts) { o << "\nconst"; wi(o, c.size()); for(auto& x : c) { ws(o, x.first); wi(o, x.second); } }
    o << "\nclients"; wi(o, p.clients.size());
    for(auto& c : p.clients) {
        o << "\nclient"; wi(o, c.size());
        for(auto& x : c) {
            o << "\n op"; wi(o, x.k); wi(o, x.tree); wi(o, x.expr); wi(o, x.event); wu(o, x.id); wi(o, x.consts); wi(o, x.path); wi(o, x.slot); wi(o, x.rep); wi(o, x.report); wi(o, x.bad); ws(o, x.raw);
            wi(o, x.fault.first); wi(o, x.fault.count); wu(o, x.kill_at); wu(o, x.crash_at); wu(o, x.times);
        }
    }
    o << "\nsched"; wi(o, p.sched.explicit_mode); wu(o, p.sched.seed); wi(o, p.sched.mean_gap); wi(o, p.sched.stall_fiber); wu(o, p.sched.stall_from); wu(o, p.sched.stall_len);
    wi(o, p.sched.preempt.size()); for(auto& s : p.sched.preempt) { wu(o, s.at); wi(o, s.to); }
    wi(o, p.sched.forced.size()); for(int f : p.sched.forced) wi(o, f);
    o << "\nend\n";
}

bool load(Plan& p, std::istream& in) {
    std::string line, all, t;
    while(std::getline(in, line)) if(line.empty() || line[0] != '#') all += line + "\n";
    std::istringstream s(all);
    key(s, "betree-sim-plan"); if(ri(s) != 3) return false;
    key(s, "prop"); p.prop = rs(s); key(s, "seed"); p.seed = ru(s);
    key(s, "env"); p.fill = ri(s); p.inplace = ri(s); p.races = ri(s); p.rebuild_perm = ri(s); p.rebuild_path = ri(s); p.sweep = ri(s); p.clock_span = ri(s); p.clock_jumps = ri(s);
    key(s, "configs"); int n = ri(s);
    for(int i = 0; i < n && s; i++) {
        Config c; key(s, "config"); c.dflt = ri(s); c.cap = ri(s); c.part = ri(s); c.order = ri(s); int m = ri(s);
        for(int j = 0; j < m && s; j++) { VarDef v; key(s, "var"); v.name = rs(s); v.ty = ri(s); v.undef = ri(s); v.bounded = ri(s); v.lo = ri(s); v.hi = ri(s); v.count = ru(s); c.vars.push_back(v); }
        p.configs.push_back(c);
    }
    key(s, "trees"); n = ri(s); for(int i = 0; i < n && s; i++) p.trees.push_back(ri(s));
    key(s, "exprs"); n = ri(s); for(int i = 0; i < n && s; i++) { key(s, "expr"); p.expr_style.push_back(ri(s)); p.exprs.push_back(rexpr(s)); }
    key(s, "events"); n = ri(s);
    for(int i = 0; i < n && s; i++) { Event e; key(s, "event"); e.style = ri(s); int m = ri(s); for(int j = 0; j < m && s; j++) { int v = ri(s); e.vals.push_back({v, rval(s)}); } p.events.push_back(e); }
    key(s, "consts"); n = ri(s);
    for(int i = 0; i < n && s; i++) { Consts c; key(s, "const"); int m = ri(s); for(int j = 0; j < m && s; j++) { std::string k = rs(s); c.push_back({k, ri(s)}); } p.consts.push_back(c); }
    key(s, "clients"); n = ri(s);
    for(int i = 0; i < n && s; i++) {
        std::vector<Op> c; key(s, "client"); int m = ri(s);
        for(int j = 0; j < m && s; j++) {
            Op x; key(s, "op"); x.k = ri(s); x.tree = ri(s); x.expr = ri(s); x.event = ri(s); x.id = ru(s); x.consts = ri(s); x.path = ri(s); x.slot = ri(s); x.rep = ri(s); x.report = ri(s); x.bad = ri(s); x.raw = rs(s);
            x.fault.first = ri(s); x.fault.count = ri(s); x.kill_at = ru(s); x.crash_at = ru(s); x.times = ru(s);
            c.push_back(x);
        }
        p.clients.push_back(c);
    }
    key(s, "sched"); p.sched.explicit_mode = ri(s); p.sched.seed = ru(s); p.sched.mean_gap = ri(s); p.sched.stall_fiber = ri(s); p.sched.stall_from = ru(s); p.sched.stall_len = ru(s);
    n = ri(s); for(int i = 0; i < n && s; i++) { rt::Switch w; w.at = ru(s); w.to = ri(s); p.sched.preempt.push_back(w); }
    n = ri(s); for(int i = 0; i < n && s; i++) p.sched.forced.push_back(ri(s));
    key(s, "end");
    return (bool)s;
}

std::string describe(const Op& op, const Plan& p) {
    static const char* names[] = {"insert", "make_sub", "insert_sub", "change_boundaries", "search", "exists", "refused-insert", "torn-search", "drop-and-recreate"};
    std::ostringstream o;
    const Config& c = p.configs[p.trees[op.tree]];
    o << names[op.k] << " tree=" << op.tree;
    if(op.expr >= 0) o << " id=" << op.id << " expr{" << render(*p.exprs[op.expr], c, p.expr_style[op.expr]) << "}";
    if(op.consts >= 0) { o << " constants["; for(auto& k : p.consts[op.consts]) o << k.first << "=" << k.second << " "; o << "]"; }
    if(!op.raw.empty()) o << " raw{" << op.raw << "}";
    if(op.slot >= 0) o << " slot=" << op.slot;
    if(op.k == OP_SEARCH || op.k == OP_EXISTS) o << (op.rep == 0 ? " text" : op.rep == 1 ? " api" : op.rep == 2 ? " api-reused" : " api-shared-by-trees") << (op.report ? " report-reused" : "");
    if(op.k == OP_DROP && op.path) o << " as config " << op.path - 1;
    if(op.event >= 0) o << " event" << op.event << render(p.events[op.event], c);
    if(op.times != 1) o << " (" << op.times << " times)";
    if(op.fault.first >= 0) o << " ALLOC-FAULT[" << op.fault.first << ",+" << op.fault.count << ")";
    if(op.kill_at) o << " THREAD-KILLED-AT " << op.kill_at;
    if(op.crash_at) o << " PROCESS-CRASH-AT " << op.crash_at;
    return o.str();
}
