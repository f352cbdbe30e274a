#include "iso.h"
#include <chrono>
#include <csignal>
#include <cstring>
#include <functional>
#include <poll.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {
struct Out { std::string b; void u(uint64_t v) { b.append((char*)&v, 8); } void s(const std::string& x) { u(x.size()); b += x; } };
struct In { const std::string& b; size_t i = 0; bool ok = true; uint64_t u() { if(i + 8 > b.size()) { ok = false; return 0; } uint64_t v; memcpy(&v, b.data() + i, 8); i += 8; return v; } std::string s() { uint64_t n = u(); if(!ok || n > b.size() - i) { ok = false; return ""; } std::string r = b.substr(i, n); i += n; return r; } };
double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
}

IsoResult run_isolated(const Plan& p, bool want_trace) {
    IsoResult r; int fd[2];
    if(pipe(fd)) { r.viols.push_back({V_CRASH, -1, "pipe failed"}); return r; }
    pid_t pid = fork();
    if(pid == 0) {
        close(fd[0]);
        rt::arm_watchdog();
        RunResult x = run_plan(p, want_trace);
        Out o; o.u(0x51B); o.u(x.hash); o.u(x.viols.size());
        for(auto& v : x.viols) { o.u(v.cls); o.u((uint64_t)(int64_t)v.op); o.s(v.msg); }
        o.u(x.recorded.preempt.size()); for(auto& s : x.recorded.preempt) { o.u(s.at); o.u(s.to); }
        o.u(x.recorded.forced.size()); for(int f : x.recorded.forced) o.u((uint64_t)(int64_t)f);
        o.u(x.trace.size()); for(auto& t : x.trace) o.s(t);
        size_t off = 0; while(off < o.b.size()) { ssize_t n = write(fd[1], o.b.data() + off, o.b.size() - off); if(n <= 0) break; off += n; }
        _exit(0);
    }
    close(fd[1]);
    std::string b; char buf[65536];
    double t0 = now(); bool hung = false;
    for(;;) {
        struct pollfd pf = {fd[0], POLLIN, 0};
        int k = poll(&pf, 1, 1000);
        if(k > 0) { ssize_t n = read(fd[0], buf, sizeof buf); if(n <= 0) break; b.append(buf, n); }
        else if(now() - t0 > 120) { kill(pid, SIGKILL); hung = true; break; }
    }
    close(fd[0]);
    int st = 0; waitpid(pid, &st, 0);
    In in{b};
    if(in.u() != 0x51B || !in.ok) {
        std::string m = hung ? "the simulated process made no progress" : WIFSIGNALED(st) ? "the simulated process was destroyed by signal " + std::to_string(WTERMSIG(st)) : "the simulated process ended with status " + std::to_string(WEXITSTATUS(st));
        r.viols.push_back({V_CRASH, -1, m}); return r;
    }
    r.hash = in.u(); uint64_t n = in.u();
    for(uint64_t i = 0; i < n && in.ok; i++) { Viol v; v.cls = (int)in.u(); v.op = (int)(int64_t)in.u(); v.msg = in.s(); r.viols.push_back(v); }
    n = in.u(); for(uint64_t i = 0; i < n && in.ok; i++) { rt::Switch s; s.at = in.u(); s.to = (int)in.u(); r.recorded.preempt.push_back(s); }
    n = in.u(); for(uint64_t i = 0; i < n && in.ok; i++) r.recorded.forced.push_back((int)(int64_t)in.u());
    n = in.u(); for(uint64_t i = 0; i < n && in.ok; i++) r.trace.push_back(in.s());
    return r;
}

namespace {
struct Min {
    Plan best; int cls; double deadline; int tried = 0;
    bool late() const { return now() > deadline; }
    bool fails(const Plan& q) { if(late()) return false; tried++; return run_isolated(q).has(cls); }
    // a candidate without an explicit schedule may need another seed for the same interleaving
    bool accept(Plan q) {
        if(fails(q)) { best = q; return true; }
        if(q.clients.size() > 1 && !q.sched.explicit_mode) {
            static const uint32_t gaps[] = {0, 8, 60, 400};
            for(uint32_t g : gaps) { Plan z = q; z.sched.seed = q.sched.seed * 31 + g + 1; if(g) z.sched.mean_gap = g; if(fails(z)) { best = z; return true; } }
        }
        return false;
    }
    // delta debugging over a list held inside the plan
    void ddmin(std::function<size_t(const Plan&)> size, std::function<void(Plan&, size_t, size_t)> cut) {
        size_t chunk = std::max<size_t>(1, size(best) / 2);
        for(;;) {
            bool any = false;
            for(size_t i = size(best); i > 0 && !late();) {
                size_t n = std::min(chunk, i); i -= n;
                Plan q = best; cut(q, i, n);
                if(accept(q)) any = true;
                if(i > size(best)) i = size(best);
            }
            if(late()) return;
            if(chunk == 1) { if(!any) return; }
            else chunk = std::max<size_t>(1, chunk / 2);
        }
    }
};

ExprP with_kid(const Expr& e, size_t i, ExprP k) { auto n = std::make_shared<Expr>(e); n->kid[i] = k; return n; }
// every tree one step smaller than e
void smaller(const ExprP& e, std::vector<ExprP>& out) {
    for(auto& k : e->kid) out.push_back(k);
    if(e->k != E_LIT) { auto t = std::make_shared<Expr>(); t->k = E_LIT; t->a = 1; out.push_back(t); auto f = std::make_shared<Expr>(); f->k = E_LIT; f->a = 0; out.push_back(f); }
    for(size_t i = 0; i < e->il.size() && e->il.size() > 1; i++) { auto n = std::make_shared<Expr>(*e); n->il.erase(n->il.begin() + i); out.push_back(n); }
    for(size_t i = 0; i < e->sl.size() && e->sl.size() > 1; i++) { auto n = std::make_shared<Expr>(*e); n->sl.erase(n->sl.begin() + i); out.push_back(n); }
    for(size_t i = 0; i < e->kid.size(); i++) { std::vector<ExprP> sub; smaller(e->kid[i], sub); for(auto& s : sub) out.push_back(with_kid(*e, i, s)); }
}
void drop_event(Plan& q, int e) {
    q.events.erase(q.events.begin() + e);
    for(auto& c : q.clients) { std::vector<Op> k; for(auto& o : c) { if((o.k == OP_SEARCH || o.k == OP_EXISTS) && o.event == e) continue; if(o.event > e) o.event--; k.push_back(o); } c = k; }
}
void drop_unused_exprs(Plan& q) {
    std::vector<int> use(q.exprs.size(), -1);
    for(auto& c : q.clients) for(auto& o : c) if(o.expr >= 0) use[o.expr] = 1;
    std::vector<ExprP> e; std::vector<int> st;
    for(size_t i = 0; i < use.size(); i++) if(use[i] > 0) { use[i] = (int)e.size(); e.push_back(q.exprs[i]); st.push_back(q.expr_style[i]); }
    for(auto& c : q.clients) for(auto& o : c) if(o.expr >= 0) o.expr = use[o.expr];
    q.exprs = e; q.expr_style = st;
    std::vector<int> uc(q.consts.size(), -1);
    for(auto& c : q.clients) for(auto& o : c) if(o.consts >= 0) uc[o.consts] = 1;
    std::vector<Consts> k;
    for(size_t i = 0; i < uc.size(); i++) if(uc[i] > 0) { uc[i] = (int)k.size(); k.push_back(q.consts[i]); }
    for(auto& c : q.clients) for(auto& o : c) if(o.consts >= 0) o.consts = uc[o.consts];
    q.consts = k;
}
bool mentions(const Expr& e, int v) { if(e.var == v) return true; for(auto& k : e.kid) if(mentions(*k, v)) return true; return false; }
bool special_use(const Expr& e) { if(e.k == E_FREQ || e.k == E_SEG || e.k == E_GEO) return true; for(auto& k : e.kid) if(special_use(*k)) return true; return false; }
ExprP renumber(const ExprP& e, int v) { auto n = std::make_shared<Expr>(*e); if(n->var > v) n->var--; for(auto& k : n->kid) k = renumber(k, v); return n; }
bool drop_var(Plan& q, int v) {
    for(auto& e : q.exprs) { if(mentions(*e, v)) return false; if(special_use(*e)) { auto& n = q.configs[0].vars[v].name; for(const char* s : {"now", "frequency_caps", "segments_with_timestamp", "latitude", "longitude"}) if(n == s) return false; } }
    for(auto& c : q.configs) { if(v >= (int)c.vars.size() || c.vars.size() < 2) return false; }
    for(auto& c : q.configs) c.vars.erase(c.vars.begin() + v);
    for(auto& e : q.exprs) e = renumber(e, v);
    for(auto& e : q.events) { std::vector<std::pair<int, Val>> k; for(auto& x : e.vals) { if(x.first == v) continue; if(x.first > v) x.first--; k.push_back(x); } e.vals = k; }
    return true;
}
} // namespace

Plan minimise(Plan p, int cls, double seconds, int* tried) {
    Min m; m.best = p; m.cls = cls; m.deadline = now() + seconds;
    for(int round = 0; round < 3 && !m.late(); round++) {
        size_t before = 0; for(auto& c : m.best.clients) before += c.size();
        if(m.best.sweep) { Plan q = m.best; q.sweep = 0; m.accept(q); }
        for(size_t c = m.best.clients.size(); c > 1 && !m.late(); c--) { Plan q = m.best; q.clients.erase(q.clients.begin() + (c - 1)); if(q.sched.stall_fiber >= (int)q.clients.size()) q.sched.stall_fiber = -1; m.accept(q); }
        for(size_t c = 0; c < m.best.clients.size() && !m.late(); c++)
            m.ddmin([c](const Plan& q) { return q.clients[c].size(); }, [c](Plan& q, size_t i, size_t n) { q.clients[c].erase(q.clients[c].begin() + i, q.clients[c].begin() + i + n); });
        for(size_t c = 0; c < m.best.clients.size(); c++) for(size_t i = 0; i < m.best.clients[c].size() && !m.late(); i++) {
            const Op& o = m.best.clients[c][i];
            if(o.fault.first >= 0) { Plan q = m.best; q.clients[c][i].fault = rt::AllocFault(); if(!m.accept(q) && o.fault.count > 1) { q.clients[c][i].fault = o.fault; q.clients[c][i].fault.count = 1; m.accept(q); } }
            if(m.best.clients[c][i].kill_at) { Plan q = m.best; q.clients[c][i].kill_at = 0; m.accept(q); }
            if(m.best.clients[c][i].crash_at) { Plan q = m.best; q.clients[c][i].crash_at = 0; m.accept(q); }
            for(uint64_t to = 1; to < m.best.clients[c][i].times && !m.late(); to *= 2) { Plan q = m.best; q.clients[c][i].times = to; if(m.accept(q)) break; }
            if(m.best.clients[c][i].rep) { Plan q = m.best; q.clients[c][i].rep = 0; m.accept(q); }
            if(m.best.clients[c][i].report) { Plan q = m.best; q.clients[c][i].report = 0; m.accept(q); }
        }
        if(m.best.sched.stall_fiber >= 0) { Plan q = m.best; q.sched.stall_fiber = -1; m.accept(q); }
        if(m.best.rebuild_perm) { Plan q = m.best; q.rebuild_perm = 0; m.accept(q); }
        if(m.best.inplace) { Plan q = m.best; q.inplace = 0; m.accept(q); }
        if(m.best.fill != 0xA5) { Plan q = m.best; q.fill = 0xA5; m.accept(q); }
        for(int e = (int)m.best.events.size() - 1; e >= 0 && !m.late(); e--) { Plan q = m.best; drop_event(q, e); m.accept(q); }
        { Plan q = m.best; drop_unused_exprs(q); m.accept(q); }
        for(size_t e = 0; e < m.best.events.size(); e++) {
            for(size_t v = m.best.events[e].vals.size(); v > 0 && !m.late(); v--) { Plan q = m.best; q.events[e].vals.erase(q.events[e].vals.begin() + (v - 1)); m.accept(q); }
            if(m.best.events[e].style) { Plan q = m.best; q.events[e].style = 0; m.accept(q); }
        }
        for(size_t e = 0; e < m.best.exprs.size() && !m.late(); e++) {
            if(m.best.expr_style[e]) { Plan q = m.best; q.expr_style[e] = 0; m.accept(q); }
            for(bool again = true; again && !m.late();) {
                again = false; std::vector<ExprP> s; smaller(m.best.exprs[e], s);
                for(auto& x : s) { if(expr_size(*x) >= expr_size(*m.best.exprs[e]) && x->il.size() + x->sl.size() >= m.best.exprs[e]->il.size() + m.best.exprs[e]->sl.size() && x->kid.empty()) { if(x->k == E_LIT && m.best.exprs[e]->k == E_LIT) continue; } Plan q = m.best; q.exprs[e] = x; if(m.accept(q)) { again = true; break; } if(m.late()) break; }
                if(m.tried > 6000) break;
            }
        }
        for(int v = (int)m.best.configs[0].vars.size() - 1; v >= 0 && !m.late(); v--) { Plan q = m.best; if(drop_var(q, v)) m.accept(q); }
        size_t after = 0; for(auto& c : m.best.clients) after += c.size();
        if(after == before && round) break;
    }
    // the schedule: make every decision explicit, then remove preemptions that do not matter
    m.deadline = std::max(m.deadline, now() + 0.3 * seconds);
    {
        IsoResult r = run_isolated(m.best);
        Plan q = m.best; q.sched = r.recorded; q.sched.explicit_mode = true;
        if(m.accept(q)) {
            m.ddmin([](const Plan& z) { return z.sched.preempt.size(); }, [](Plan& z, size_t i, size_t n) { z.sched.preempt.erase(z.sched.preempt.begin() + i, z.sched.preempt.begin() + i + n); });
            { Plan z = m.best; z.sched.forced.clear(); if(!m.accept(z)) m.ddmin([](const Plan& y) { return y.sched.forced.size(); }, [](Plan& y, size_t i, size_t n) { y.sched.forced.erase(y.sched.forced.begin() + i, y.sched.forced.begin() + i + n); }); }
        }
    }
    if(tried) *tried = m.tried;
    return m.best;
}
