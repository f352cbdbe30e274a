// sim check <property> <quick|thorough> --seed S --runs N --cap SECONDS --evidence FILE --replays DIR --known FILE
// sim replay <file>            reproduces a reported violation
// sim show <file>              the plan in words
// sim gen <property> <seed>    prints a plan
// sim hashes <property> <from> <n> <workers>   execution hashes, for determinism tests
#include "gen.h"
#include "iso.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace {
double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
const int MAXW = 64;
struct Cell { uint64_t hash, sched, state; uint8_t done, viol, conc, nontrivial; };
struct Shared {
    uint64_t min_bad;                 // lowest run index with an unlisted violation
    struct W { uint64_t done, other; RunStats st; uint64_t conc_runs, fault_runs, clock_span, clock_jumps, kinds[OP_NKINDS]; } w[MAXW];
    uint8_t edges[1024];
};
Shared* S; Cell* C;

std::string jesc(const std::string& s) {
    std::string o;
    for(unsigned char ch : s) { if(ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if(ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; } else o += ch; }
    return o;
}
uint64_t seed_of(uint64_t base, uint64_t i) { return base * 1000003ull + i; }

// ------------------------------------------------------------ known findings
// known-findings.txt: "finding: property=<id> class=<class> op=<op kind or *> text=<substring of the message> -- what fails"
// "fixed:" lines suppress nothing.
struct Known { std::string prop, cls, text, what, plan; };
std::vector<Known> load_known(const std::string& f) {
    std::vector<Known> k; std::ifstream in(f); std::string l;
    while(std::getline(in, l)) {
        if(l.rfind("finding:", 0)) continue;
        Known x; size_t d = l.find(" -- "); x.what = d == std::string::npos ? "" : l.substr(d + 4);
        std::istringstream s(l.substr(8, d == std::string::npos ? std::string::npos : d - 8)); std::string w;
        while(s >> w) { size_t e = w.find('='); if(e == std::string::npos) continue; std::string key = w.substr(0, e), v = w.substr(e + 1); if(key == "property") x.prop = v; else if(key == "class") x.cls = v; else if(key == "plan") x.plan = v; }
        k.push_back(x);
    }
    return k;
}

void add(RunStats& a, const RunStats& b) {
    uint64_t* x = (uint64_t*)&a; const uint64_t* y = (const uint64_t*)&b;
    uint64_t m = std::max(a.max_steps, b.max_steps);
    for(size_t i = 0; i < sizeof(RunStats) / 8; i++) x[i] += y[i];
    a.max_steps = m;
}

// Every run happens in a forked copy of the worker: no run can see or harm another one.
void worker(int w, int nw, uint64_t N, const std::string& prop, uint64_t base, bool thorough, double deadline) {
    auto& W = S->w[w];
    uint64_t mask = violation_mask(prop);
    for(uint64_t i = w; i < N; i += nw) {
        if(i > __atomic_load_n(&S->min_bad, __ATOMIC_RELAXED)) break;
        if(now() > deadline) break;
        Cell& c = C[i];
        Plan p = generate(prop, seed_of(base, i), thorough);
        c.conc = p.clients.size() > 1; c.viol = 2;
        pid_t pid = fork();
        if(pid == 0) {
            rt::arm_watchdog();
            RunResult r = run_plan(p);
            c.hash = r.hash; c.sched = r.sched_hash;
            c.nontrivial = r.st.inserts > 0 && r.st.nonempty > 0;
            add(W.st, r.st);
            W.conc_runs += c.conc; W.fault_runs += (r.st.alloc_faults + r.st.kills + r.st.crashes + r.st.torn) > 0;
            W.clock_span += p.clock_span; W.clock_jumps += p.clock_jumps;
            for(auto& cl : p.clients) for(auto& o : cl) W.kinds[o.k]++;
            rt::mark_edges(S->edges);
            W.done++;
            bool bad = false, other = false; for(auto& v : r.viols) if(mask >> v.cls & 1) bad = true; else other = true;
            W.other += other && !bad;
            c.done = 1; c.viol = bad;
            _exit(0);
        }
        int st = 0; bool gone = pid < 0;
        if(pid > 0) waitpid(pid, &st, 0);
        if(gone) { fprintf(stderr, "sim: fork failed\n"); _exit(3); }
        c.done = 1; // a run that destroyed its process leaves c.viol at 2
        if(c.viol) { uint64_t cur = S->min_bad; while(i < cur && !__atomic_compare_exchange_n(&S->min_bad, &cur, i, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {} }
    }
}

int fail(const std::string& m) { fprintf(stderr, "sim: error: %s\n", m.c_str()); printf("ERROR: %s\n", m.c_str()); return 2; }

// Replays a file in a fresh process image (fork + exec).
bool fresh_replay(const std::string& self, const std::string& file, uint64_t& hash, std::string& cls) {
    std::string cmd = self + " replay-raw " + file; FILE* f = popen(cmd.c_str(), "r"); if(!f) return false;
    char line[4096]; bool ok = false; hash = 0; cls.clear();
    while(fgets(line, sizeof line, f)) { unsigned long long h; char b[64]; if(sscanf(line, "raw %llx %63s", &h, b) == 2) { hash = h; cls = b; ok = true; } }
    pclose(f);
    return ok;
}
int replay_raw(const Plan& p) {
    IsoResult r = run_isolated(p);
    for(auto& v : r.viols) printf("raw %llx %s\n", (unsigned long long)r.hash, vclass_name(v.cls));
    if(r.viols.empty()) printf("raw %llx none\n", (unsigned long long)r.hash);
    return 0;
}

void write_replay(const std::string& file, const Plan& p, const Viol& v, uint64_t hash, uint64_t run, size_t ops0, size_t ops1, int tried) {
    std::ofstream o(file);
    auto line = [](std::string s) { for(char& c : s) if(c == '\n' || c == '\r') c = ' '; return s; };
    o << "# library -O" << lib_opt << "\n# property " << p.prop << "\n# violation " << vclass_name(v.cls) << "\n# message " << line(v.msg) << "\n# where " << line(op_name(p, v.op)) << "\n# seed " << p.seed << " run " << run << "\n# hash " << std::hex << hash << std::dec
      << "\n# minimised from " << ops0 << " operations to " << ops1 << " in " << tried << " executions\n";
    for(size_t c = 0; c < p.clients.size(); c++) for(size_t i = 0; i < p.clients[c].size(); i++) o << "# client" << c << "#" << i << " " << line(describe(p.clients[c][i], p)) << "\n";
    if(p.clients.size() > 1) { o << "# schedule: preemptions (at shared access -> client)"; for(auto& s : p.sched.preempt) o << " " << s.at << "->" << s.to; o << "; choices when a client blocks or ends:"; for(int f : p.sched.forced) o << " " << f; o << "\n"; }
    save(p, o);
}
bool load_file(const std::string& f, Plan& p, std::string* cls = nullptr, uint64_t* hash = nullptr) {
    std::ifstream in(f); if(!in) return false;
    std::stringstream ss; ss << in.rdbuf(); std::string all = ss.str(), l;
    std::istringstream s(all);
    while(std::getline(s, l)) { if(cls && l.rfind("# violation ", 0) == 0) *cls = l.substr(12); if(hash && l.rfind("# hash ", 0) == 0) *hash = strtoull(l.c_str() + 7, nullptr, 16); }
    std::istringstream t(all);
    return load(p, t);
}
size_t nops(const Plan& p) { size_t n = 0; for(auto& c : p.clients) n += c.size(); return n; }

int check(const std::string& self, const std::string& prop, const std::string& tier, uint64_t base, uint64_t N, double cap, const std::string& evfile, const std::string& rdir, const std::string& knownfile, int nw, uint64_t unopt) {
    double t0 = now();
    bool thorough = tier == "thorough";
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    C = (Cell*)mmap(nullptr, sizeof(Cell) * N, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(S == MAP_FAILED || C == MAP_FAILED) return fail("out of memory");
    S->min_bad = ~0ull;
    double deadline = t0 + cap;
    printf("simulating %s: tier %s, seed %llu, up to %llu runs on %d workers\n", prop.c_str(), tier.c_str(), (unsigned long long)base, (unsigned long long)N, nw); fflush(stdout);
    for(int w = 0; w < nw; w++) { pid_t p = fork(); if(p == 0) { worker(w, nw, N, prop, base, thorough, deadline); _exit(0); } if(p < 0) return fail("fork"); }
    for(int st; wait(&st) > 0;) if(!WIFEXITED(st) || WEXITSTATUS(st)) return fail("a worker ended abnormally");
    double search_s = now() - t0;
    uint64_t bad = S->min_bad;
    RunStats st; uint64_t runs = 0, conc = 0, frun = 0, span = 0, jumps = 0, kinds[OP_NKINDS] = {0}, other = 0;
    for(int w = 0; w < nw; w++) { add(st, S->w[w].st); runs += S->w[w].done; conc += S->w[w].conc_runs; frun += S->w[w].fault_runs; span += S->w[w].clock_span; jumps += S->w[w].clock_jumps; for(int k = 0; k < OP_NKINDS; k++) kinds[k] += S->w[w].kinds[k]; other += S->w[w].other; }
    uint64_t edges = 0; for(uint8_t b : S->edges) edges += __builtin_popcount(b);
    std::unordered_set<uint64_t> ex, sc; std::vector<uint64_t> growth; uint64_t nontriv = 0, firsts = 0;
    for(uint64_t i = 0; i < N; i++) { if(!C[i].done) continue; bool fresh = ex.insert(C[i].hash).second; if(fresh && C[i].nontrivial) nontriv++; if(C[i].conc) sc.insert(C[i].sched); firsts++; }

    int rc = 0; int nviol = 0; std::string report;
    std::vector<Known> known = load_known(knownfile);
    // listed findings are shown to be still there, from their own stored histories
    std::string kdir = knownfile.substr(0, knownfile.find_last_of('/') + 1);
    for(auto& k : known) if(k.prop == prop && !k.plan.empty()) {
        Plan p; if(!load_file(kdir + k.plan, p)) return fail("cannot read " + k.plan);
        IsoResult r = run_isolated(p); bool there = false; for(auto& v : r.viols) if(k.cls == vclass_name(v.cls)) there = true;
        if(there) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), k.what.c_str());
    }
    if(bad != ~0ull) {
        Plan p = generate(prop, seed_of(base, bad), thorough);
        IsoResult a = run_isolated(p), b = run_isolated(p);
        if(a.viols.empty()) return fail("run " + std::to_string(bad) + " does not reproduce in isolation");
        if(a.hash != b.hash || b.viols.empty() || a.viols[0].cls != b.viols[0].cls) return fail("run " + std::to_string(bad) + " is not deterministic");
        uint64_t mask = violation_mask(prop); size_t vi = 0;
        while(vi < a.viols.size() && !(mask >> a.viols[vi].cls & 1)) vi++;
        if(vi == a.viols.size()) return fail("run " + std::to_string(bad) + " does not reproduce in isolation");
        int cls = a.viols[vi].cls;
        printf("run %llu (seed %llu): %s: %s\n", (unsigned long long)bad, (unsigned long long)p.seed, vclass_name(cls), a.viols[vi].msg.c_str()); fflush(stdout);
        int tried = 0; Plan m = minimise(p, cls, thorough ? 120 : 60, &tried);
        IsoResult r = run_isolated(m); const Viol* v = nullptr; for(auto& x : r.viols) if(x.cls == cls) { v = &x; break; }
        if(!v) { m = p; r = a; v = &a.viols[vi]; }
        mkdir(rdir.c_str(), 0755);
        std::string file = rdir + "/" + prop + "-" + tier + "-" + std::to_string(base) + "-" + std::to_string(bad) + ".replay";
        write_replay(file, m, *v, r.hash, bad, nops(p), nops(m), tried);
        uint64_t h; std::string c;
        if(!fresh_replay(self, file, h, c) || h != r.hash) return fail("the minimised replay of run " + std::to_string(bad) + " does not reproduce in a fresh process");
        std::ifstream in(file); std::string l; while(std::getline(in, l) && !l.empty() && l[0] == '#') printf("  %s\n", l.c_str() + 2);
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), file.c_str());
        nviol = 1; rc = 1;
    }
    double wall = now() - t0;
    if(!evfile.empty()) {
        std::ostringstream o;
        auto hour = [&](double n) { return (uint64_t)(search_s > 0 ? n / search_s * 3600 : 0); };
        o << "{\n \"property\": \"" << prop << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << base << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
          << "  \"evaluations\": " << runs << ",\n  \"distinct_nontrivial\": " << nontriv << ",\n"
          << "  \"rule\": \"One evaluation is one simulated execution drawn from one seed: configurations, expressions, events, client programs, faults and the schedule. Counted when its complete execution record (every result, death, allocation count and scheduling decision, hashed) differs from all others of this check and at least one acknowledged expression was matched by some event.\",\n"
          << "  \"distinct_executions\": " << ex.size() << ",\n  \"distinct_interleavings\": " << sc.size() << ",\n"
          << "  \"interleaving_measure\": \"hash of every preemption (global shared-access number, client resumed) and every choice at a blocking point, over runs with at least two concurrent clients\",\n"
          << "  \"runs_per_hour\": " << hour((double)runs) << ",\n  \"seeds_per_hour\": " << hour((double)runs) << ",\n"
          << "  \"simulated_time\": {\"clock_seconds_covered\": " << span << ", \"clock_jumps\": " << jumps << ", \"shared_accesses_scheduled\": " << st.accesses << "},\n"
          << "  \"runs_of_the_unoptimised_build_before_these\": " << unopt << ", \"library_optimisation\": " << lib_opt << ",\n"
          << "  \"concurrent_runs\": " << conc << ",\n  \"runs_with_faults_fired\": " << frun << ",\n"
          << "  \"faults_fired\": {\"allocation_failure\": " << st.alloc_faults << ", \"thread_killed_in_call\": " << st.kills << ", \"process_crash_in_call\": " << st.crashes << ", \"fail_stop_after_allocation_failure_or_torn_input\": " << st.failstops << ", \"torn_event_text\": " << st.torn << ", \"rejected_insert\": " << st.refused << ", \"stalled_client_runs\": " << st.stalls << ", \"clock_jump\": " << jumps << ", \"tree_dropped\": " << st.drops << ", \"preempted_operations\": " << st.preempted_ops << ", \"context_switches\": " << st.switches << "},\n"
          << "  \"restarts_with_rebuild\": " << st.restarts << ",\n  \"runs_showing_only_another_property_s_violation\": " << other << ",\n"
          << "  \"operations\": {\"total\": " << st.ops << ", \"inserts_acknowledged\": " << st.inserts << ", \"searches\": " << st.searches << ", \"exists\": " << st.exists << ", \"final_sweep_searches\": " << st.sweeps << ", \"duplicate_id_inserts\": " << st.dup_inserts << ", \"incomplete_events\": " << st.undefined_events << ", \"make_sub\": " << kinds[OP_MAKESUB] << ", \"change_boundaries\": " << kinds[OP_CHANGEB] << "},\n"
          << "  \"reach\": {\"matches_checked\": " << st.matches << ", \"searches_with_a_match\": " << st.nonempty << ", \"expressions_evaluated\": " << st.evaluated << ", \"answered_by_short_circuit\": " << st.shorted << ", \"answered_from_memo\": " << st.memoized << ", \"allocations\": " << st.allocs << ", \"longest_call_in_shared_accesses\": " << st.max_steps << ", \"library_call_edges_taken\": " << edges << "},\n"
          << "  \"components\": {\"real\": [\"all of /repo/src: parsers, lexers, configuration, AST, tree, search, reports, hashmap, memo\"], \"stub\": [\"heap (malloc family)\", \"thread scheduler\", \"process death (abort, exit, signals)\", \"clock (carried by events)\", \"stdout and stderr\", \"caller locks\"]},\n"
          << "  \"samples\": [";
        int shown = 0;
        for(uint64_t i = 0; i < N && shown < 3; i++) {
            if(!C[i].done || !C[i].nontrivial) continue;
            Plan p = generate(prop, seed_of(base, i), thorough);
            if(shown) o << ", "; shown++;
            o << "{\"run\": " << i << ", \"seed\": " << p.seed << ", \"clients\": " << p.clients.size() << ", \"operations\": [";
            int k = 0; for(size_t c = 0; c < p.clients.size() && k < 12; c++) for(size_t j = 0; j < p.clients[c].size() && k < 12; j++, k++) o << (k ? ", " : "") << "\"client" << c << " " << jesc(describe(p.clients[c][j], p).substr(0, 240)) << "\"";
            o << "]}";
        }
        o << "]\n },\n \"assumptions\": [\"Schedules are sequentially consistent; preemption happens at shared memory accesses.\", \"Callers serialise mutations against everything else, as the library has no locks of its own.\"],\n \"wall_s\": " << wall << ",\n \"violations\": " << nviol << "\n}\n";
        std::ofstream f(evfile); f << o.str();
        if(!f) return fail("cannot write " + evfile);
    }
    printf("%s: %llu runs, %llu distinct executions, %zu distinct interleavings, %.1f s: %s\n", prop.c_str(), (unsigned long long)runs, (unsigned long long)ex.size(), sc.size(), wall, rc ? "violated" : "held");
    return rc;
}
} // namespace

int main(int argc, char** argv) {
    std::vector<std::string> a(argv + 1, argv + argc);
    if(a.empty()) return fail("usage");
    rt::init_process();
    auto opt = [&](const std::string& n, const std::string& d) { for(size_t i = 0; i + 1 < a.size(); i++) if(a[i] == n) return a[i + 1]; return d; };
    if(a[0] == "check" && a.size() > 2) {
        if(!known_property(a[1])) return fail("unknown property " + a[1]);
        int nw = std::min(MAXW, std::max(1, atoi(opt("--workers", "8").c_str())));
        return check(argv[0], a[1], a[2], strtoull(opt("--seed", "1").c_str(), nullptr, 10), strtoull(opt("--runs", "1000").c_str(), nullptr, 10), atof(opt("--cap", "600").c_str()), opt("--evidence", ""), opt("--replays", "/verif/replays"), opt("--known", "/verif/known-findings.txt"), nw, strtoull(opt("--unoptimised", "0").c_str(), nullptr, 10));
    }
    if(a[0] == "gen" && a.size() > 2) { save(generate(a[1], strtoull(a[2].c_str(), nullptr, 10), false), std::cout); return 0; }
    if(a[0] == "genall" && a.size() > 3) { uint64_t from = strtoull(a[2].c_str(), nullptr, 10), n = strtoull(a[3].c_str(), nullptr, 10); for(uint64_t i = from; i < from + n; i++) { alarm(60); if(getenv("SHOW")) { fprintf(stderr, "%llu\n", (unsigned long long)i); } Plan p = generate(a[1], i, false); uint64_t t = 0; for(auto& c : p.clients) for(auto& o : c) t = std::max(t, o.times); if(t > 60000) printf("long %llu\n", (unsigned long long)i); } return 0; }
    if(a[0] == "one" && a.size() > 2) { Plan p = generate(a[1], strtoull(a[2].c_str(), nullptr, 10), false); RunResult r = run_plan(p); printf("hash %llx\n", (unsigned long long)r.hash); for(auto& v : r.viols) printf("%s @%s: %s\n", vclass_name(v.cls), op_name(p, v.op).c_str(), v.msg.c_str()); return 0; }
    if(a[0] == "min" && a.size() > 2) { Plan p = generate(a[1], strtoull(a[2].c_str(), nullptr, 10), false); IsoResult r = run_isolated(p); if(r.viols.empty()) { printf("no violation\n"); return 0; } int t; Plan m = minimise(p, r.viols[0].cls, atof(opt("--for", "30").c_str()), &t); IsoResult q = run_isolated(m); std::string f = opt("--out", "/dev/stdout"); const Viol* v = &q.viols[0]; for(auto& x : q.viols) if(x.cls == r.viols[0].cls) { v = &x; break; } write_replay(f, m, *v, q.hash, 0, nops(p), nops(m), t); return 0; }
    if(a[0] == "survey" && a.size() > 3) { // classes of violation over a range of seeds (development)
        uint64_t from = strtoull(a[2].c_str(), nullptr, 10), n = strtoull(a[3].c_str(), nullptr, 10);
        int nw = 8; for(int w = 0; w < nw; w++) if(fork() == 0) {
            for(uint64_t i = from + w; i < from + n; i += nw) { Plan p = generate(a[1], i, false); IsoResult r = run_isolated(p); if(!r.viols.empty()) { const Viol& v = r.viols[0]; std::string l = std::to_string(i) + " " + vclass_name(v.cls) + " | " + v.msg.substr(0, 150) + " | " + op_name(p, v.op).substr(0, 300) + "\n"; if(write(1, l.data(), l.size())) {} } }
            _exit(0); }
        while(wait(nullptr) > 0) {} return 0; }
    if(a[0] == "hashes" && a.size() > 4) {
        uint64_t from = strtoull(a[2].c_str(), nullptr, 10), n = strtoull(a[3].c_str(), nullptr, 10); int nw = atoi(a[4].c_str());
        for(int w = 0; w < nw; w++) if(fork() == 0) {
            for(uint64_t i = from + w; i < from + n; i += nw) { RunResult r = run_plan(generate(a[1], i, false)); char l[80]; int k = snprintf(l, sizeof l, "%s %llu %llx %llx %zu\n", a[1].c_str(), (unsigned long long)i, (unsigned long long)r.hash, (unsigned long long)r.sched_hash, r.viols.size()); if(write(1, l, k)) {} }
            _exit(0); }
        while(wait(nullptr) > 0) {} return 0; }
    if((a[0] == "replay" || a[0] == "replay-raw" || a[0] == "show") && a.size() > 1) {
        Plan p; std::string cls; uint64_t hash = 0;
        if(!load_file(a[1], p, &cls, &hash)) return fail("cannot read " + a[1]);
        if(a[0] == "replay-raw") return replay_raw(p);
        if(a[0] == "show") { for(size_t c = 0; c < p.clients.size(); c++) for(size_t i = 0; i < p.clients[c].size(); i++) printf("client%zu#%zu %s\n", c, i, describe(p.clients[c][i], p).c_str()); for(size_t t = 0; t < p.trees.size(); t++) { const Config& k = p.configs[p.trees[t]]; printf("tree %zu: %s cap=%lld part=%lld\n", t, k.dflt ? "default" : "parameters", (long long)k.cap, (long long)k.part); for(auto& v : k.vars) printf("   %s type=%d undef=%d bounded=%d [%lld,%lld] count=%llu\n", v.name.c_str(), v.ty, v.undef, v.bounded, (long long)v.lo, (long long)v.hi, (unsigned long long)v.count); } for(size_t e = 0; e < p.events.size(); e++) printf("event%zu %s\n", e, render(p.events[e], p.configs[0]).c_str()); }
        IsoResult r = run_isolated(p);
        printf("hash %llx%s\n", (unsigned long long)r.hash, hash ? (hash == r.hash ? " (as recorded)" : " (recorded run had another hash)") : "");
        for(auto& v : r.viols) printf("%s @ %s: %s\n", vclass_name(v.cls), op_name(p, v.op).c_str(), v.msg.c_str());
        if(a[0] == "show") return 0;
        bool bad = false; for(auto& v : r.viols) if(violation_mask(p.prop) >> v.cls & 1) bad = true;
        if(!bad) { printf("no violation\n"); return 0; }
        printf("VIOLATION property=%s replay=%s\n", p.prop.c_str(), a[1].c_str());
        return 1;
    }
    return fail("usage");
}
