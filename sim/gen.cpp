#include "gen.h"
#include "exec.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <tuple>
#include <cstring>

namespace {

// What one property's workload emphasises. Every workload keeps a share of everything else.
struct Prof {
    int vmin = 2, vmax = 7, emin = 2, emax = 14, evmin = 2, evmax = 7;
    double ty[T_NTY] = {1.2, 1.4, 0.9, 1.2, 0.8, 0.8, 0.25, 0, 0.6};
    double p_undef = 0.6, p_bounded = 0.65, p_missing = 0.3, p_null = 0.15;
    double p_freq = 0.12, p_seg = 0.12, p_geo = 0.08, p_wide32 = 0.04;
    double p_deep = 0.55, p_not = 0.16, p_share = 0.12, p_lit = 0.04, p_nullcheck = 0.10, p_nestednot = 0.1;
    int depth = 3;
    double p_shrink = 0.2;             // constants outside the declared domain (prepared histories)
    double p_oob = 0.15;            // event values outside the declared domain
    double p_conc = 0.30;           // several clients
    int cmin = 2, cmax = 4, opmin = 2, opmax = 7;
    double p_races = 1.0;
    double w_insert = 1, w_search = 3, w_exists = 1, w_bad = 0.25, w_torn = 0, w_drop = 0.06;
    double mode_a = 0.55, mode_b = 0.2, mode_c = 0.12, mode_d = 0.13;
    double p_two_trees = 0.15, p_vary_cfg = 0.3;
    double p_alloc = 0.02, p_kill = 0.02, p_crash = 0.02, p_stall = 0.1;
    double p_dup = 0.05, p_api = 0.3, p_reuse = 0.15, p_report = 0.1;
    double p_style = 0.35;
    double p_odd = 0.08;            // strings with quotes, backslashes and other bytes, or very long
    double p_capacity = 0.0;        // more distinct strings / enum values than declared
    double p_biglist = 0.06, p_duplist = 0.08;
    double p_extreme = 0.06;
    double p_many = 0.06;           // large plans
    double p_repeat = 0.15;         // repeat the previous search
    double p_jump = 0.5;            // clock goes backwards / leaps
    double p_manyvars = 0.04;       // more than 64 variables
    double p_related = 0.3;         // expressions derived from earlier ones
    double p_near = 0.10;           // expressions that differ from an earlier one in one detail
    double p_alias = 0.02;          // values a power of two away from one the expressions use
    double p_chain = 0.02;          // long and / or chains
    double p_bigpool = 0.06;        // string variables with a large vocabulary
    double p_keep = 0.08;           // event objects kept and searched all through the history
    double p_dupval = 0.05;         // an event text that gives a variable twice (same value)
    double p_fresh = 0.3;           // refused expressions that mention values nobody else does
    double p_forest = 0.01;         // many trees in one process
    double p_spread = 0.004;        // a node partitioned on more variables than fit a word
    double p_crowd = 0.006;         // hundreds of expressions that no index can tell apart
    double p_look = 0.06;           // strings that are easy to take for one another
    double p_strfn = 1.0 / 6;        // string functions, of the predicates on a string
    double p_fine = 0.06;           // floats a rounding step away from one another
    double p_wide = 0.08;           // list values far apart
    double p_huge = 0.04;           // floats near the ends of their range
    double p_gap = 0.008, p_long = 0.03; // idle calls by the hundred, or past 65536
    double p_marathon = 0.004;      // hundreds of calls on one tree
    double p_churn = 0.003;         // a tree dropped and made again dozens of times
    double p_manycaps = 0.03;       // events with dozens of segments or caps
};

bool set_profile(const std::string& id, Prof& p) {
    if(id == "P01") { p.p_spread = 0.012; p.p_many = 0.10; p.p_crowd = 0.02; p.p_keep = 0.15; }
    else if(id == "P02") { p.p_spread = 0.025; p.p_huge = 0.12; p.p_conc = 0.1; p.p_two_trees = 0.9; p.p_vary_cfg = 1; p.emax = 20; p.p_crash = 0.05; p.p_bounded = 0.85; p.p_many = 0.15; p.mode_a = 0.5; p.mode_d = 0.25; p.p_crowd = 0.02; p.p_fine = 0.15; }
    else if(id == "P03") { p.p_spread = 0.01; p.p_manycaps = 0.05; p.p_undef = 0.9; p.p_missing = 0.5; p.p_null = 0.3; p.p_not = 0.3; p.p_nullcheck = 0.2; p.p_freq = 0.2; p.p_seg = 0.2; p.p_geo = 0.15; p.p_manyvars = 0.1; p.p_lit = 0.08; p.p_dupval = 0.12; }
    else if(id == "P04") { p.p_gap = 0.02; p.p_marathon = 0.008; p.w_exists = 4; p.w_search = 1; p.p_conc = 0.35; p.emin = 1; p.emax = 10; p.p_missing = 0.35; }
    else if(id == "P05") { p.p_marathon = 0.002; p.p_conc = 1; p.cmin = 2; p.cmax = 5; p.w_insert = 0.4; p.w_search = 4; p.w_exists = 1.5; p.opmin = 3; p.opmax = 8; p.p_two_trees = 0.3; p.p_stall = 0.25; p.p_api = 0.3; p.p_kill = 0.04; p.emax = 10; p.p_many = 0.02; p.w_bad = 0.1; }
    else if(id == "P06") { p.p_gap = 0.03; p.p_long = 0.1; p.p_marathon = 0.01; p.p_repeat = 0.55; p.w_insert = 0.3; p.p_conc = 0.5; p.p_kill = 0.15; p.p_api = 0.4; p.p_reuse = 0.4; p.w_exists = 1.5; }
    else if(id == "P07") { p.w_bad = 3; p.w_insert = 1.5; p.p_capacity = 0.25; p.p_freq = 0.2; p.p_conc = 0.2; p.mode_b = 0.2; p.mode_d = 0.25; p.p_fresh = 0.75; }
    else if(id == "P08") { p.p_alloc = 0.45; p.p_conc = 0.2; p.w_insert = 2; p.w_drop = 0.02; p.emax = 10; p.p_many = 0.03; }
    else if(id == "P09") { p.p_gap = 0.02; p.p_marathon = 0.006; p.p_churn = 0.01; p.w_drop = 0.4; p.w_bad = 0.6; p.p_dup = 0.15; p.p_freq = 0.2; p.p_seg = 0.2; p.p_geo = 0.12; p.p_api = 0.45; p.p_reuse = 0.3; p.p_report = 0.25; p.p_many = 0.1; p.p_alloc = 0; p.p_crash = 0; p.p_keep = 0.15; p.p_chain = 0.04; }
    else if(id == "P10") { p.p_huge = 0.12; p.p_shrink = 0.45; p.mode_a = 0.08; p.mode_b = 0.45; p.mode_c = 0.25; p.mode_d = 0.22; p.p_bounded = 0.4; p.emax = 16; p.p_crash = 0.04; p.p_two_trees = 0.3; p.p_fresh = 0.5; p.p_bigpool = 0.1; }
    else if(id == "P11") { p.p_manycaps = 0.08; p.p_api = 0.6; p.p_reuse = 0.5; p.p_style = 0.8; p.ty[T_IL] = 1.2; p.ty[T_SL] = 1.4; p.ty[T_ENUM] = 1; p.p_freq = 0.25; p.p_seg = 0.25; p.p_geo = 0.1; p.w_search = 4; p.p_missing = 0.35; p.p_keep = 0.5; p.p_dupval = 0.15; p.p_bigpool = 0.15; }
    else if(id == "P12") { p.p_manycaps = 0.12; p.p_wide32 = 0.15; p.p_freq = 1; p.p_seg = 0.05; p.p_geo = 0.02; p.vmin = 0; p.vmax = 3; p.p_not = 0.25; p.p_jump = 0.8; p.p_alias = 0.15; p.p_near = 0.3; p.p_look = 0.2; }
    else if(id == "P13") { p.p_manycaps = 0.12; p.p_wide32 = 0.15; p.p_seg = 1; p.p_freq = 0.05; p.p_geo = 0.02; p.vmin = 0; p.vmax = 3; p.p_not = 0.25; p.p_jump = 0.8; p.ty[T_SEG] = 1.2; p.p_alias = 0.15; p.p_near = 0.3; }
    else if(id == "P14") { p.p_gap = 0.02; p.p_marathon = 0.012; p.p_report = 0.6; p.p_dup = 0.3; p.w_search = 5; p.p_conc = 0.3; p.p_repeat = 0.3; p.p_many = 0.1; }
    else if(id == "P15") { p.p_spread = 0.01; p.p_shrink = 0.35; p.p_undef = 0.35; p.p_missing = 0.3; p.p_null = 0.4; p.w_search = 5; p.p_conc = 0.35; p.p_api = 0.4; p.p_freq = 0.15; p.p_seg = 0.15; p.p_manyvars = 0.08; p.p_dupval = 0.4; }
    else if(id == "P16") { p.p_spread = 0.012; p.ty[T_STR] = 3; p.ty[T_SL] = 2; p.ty[T_ENUM] = 2.5; p.ty[T_FLOAT] = 0.3; p.p_capacity = 0.6; p.p_bounded = 0.85; p.mode_a = 0.7; p.emax = 18; p.mode_d = 0.1; p.mode_b = 0.1; p.mode_c = 0.1; p.p_freq = 0.25; p.w_insert = 2; p.p_alias = 0.15; p.p_fresh = 0.6; p.p_bigpool = 0.2; p.p_keep = 0.2; p.p_look = 0.3; }
    else if(id == "P17") { p.p_huge = 0.15; p.p_oob = 0.5; p.p_bounded = 0.9; p.ty[T_INT] = 3; p.ty[T_FLOAT] = 2; p.ty[T_IL] = 1.5; p.ty[T_STR] = 0.6; p.ty[T_BOOL] = 0.6; p.emax = 20; p.p_extreme = 0.25; p.p_many = 0.12; p.p_geo = 0.05; p.p_alias = 0.08; p.p_wide = 0.25; p.p_fine = 0.25; }
    else if(id == "P18") { p.p_gap = 0.03; p.p_long = 0.1; p.p_spread = 0.01; p.p_share = 0.5; p.p_related = 0.6; p.vmax = 5; p.emin = 4; p.emax = 18; p.p_conc = 0.25; p.p_freq = 0.15; p.p_seg = 0.15; p.p_geo = 0.15; p.p_near = 0.5; p.p_fine = 0.2; p.p_look = 0.15; p.p_biglist = 0.15; p.p_bigpool = 0.25; p.p_chain = 0.04; p.ty[T_STR] = 2; }
    else if(id == "P19") { p.p_gap = 0.02; p.p_marathon = 0.006; p.p_huge = 0.15; p.p_extreme = 0.35; p.p_many = 0.35; p.p_bounded = 0.9; p.emax = 24; p.p_conc = 0.35; p.p_stall = 0.3; p.p_oob = 0.25; p.p_dup = 0.1; p.p_style = 0.5; p.p_chain = 0.08; p.p_crowd = 0.02; p.p_near = 0.2; p.p_share = 0.25; }
    else if(id == "P20") { p.p_gap = 0.02; p.p_forest = 0.025; p.p_churn = 0.012; p.p_two_trees = 1; p.p_vary_cfg = 0.7; p.p_conc = 0.6; p.w_insert = 1.5; p.w_drop = 0.2; p.ty[T_STR] = 2; p.ty[T_SL] = 1.2; p.ty[T_ENUM] = 1.2; p.mode_a = 0.7; p.mode_b = 0.05; p.p_keep = 0.2; p.p_bigpool = 0.05; p.p_look = 0.2; }
    else if(id == "P21") { p.w_torn = 2; p.p_conc = 0.4; p.p_crash = 0.06; p.p_freq = 0.2; p.p_seg = 0.2; p.p_style = 0.5; p.w_insert = 0.7; }
    else if(id == "P22") { p.ty[T_IL] = 3; p.ty[T_SL] = 3; p.ty[T_INT] = 1.5; p.ty[T_STR] = 1.5; p.ty[T_BOOL] = 0.4; p.ty[T_FLOAT] = 0.3; p.p_biglist = 0.25; p.p_duplist = 0.3; p.p_not = 0.2; p.p_wide = 0.3; p.p_bigpool = 0.10; p.p_keep = 0.15; p.p_alias = 0.05; p.p_look = 0.2; }
    else if(id == "P23") { p.p_not = 0.4; p.p_nestednot = 0.35; p.depth = 5; p.p_deep = 0.75; p.p_lit = 0.1; p.p_undef = 0.5; p.p_bounded = 0.85; p.emax = 18; p.p_style = 0.5; p.ty[T_INT] = 2; p.ty[T_BOOL] = 1.6; p.p_chain = 0.05; p.p_near = 0.2; }
    else if(id == "P24") { p.p_geo = 1; p.vmin = 0; p.vmax = 3; p.ty[T_STR] = 4; p.p_strfn = 0.6; p.p_look = 0.15; p.p_not = 0.25; p.p_missing = 0.35; }
    else if(id == "P25") { p.p_churn = 0.006; p.p_crash = 0.14; p.p_kill = 0.05; p.p_alloc = 0.03; p.w_insert = 2; p.p_conc = 0.4; p.emax = 12; p.mode_d = 0.2; }
    else return false;
    return true;
}

const char* NAMES[] = {"alpha", "bravo", "carbon", "delta", "echo", "forest", "gamma", "hotel", "jade", "kilo", "lima", "mango", "quebec", "romeo", "sierra", "tango", "uncle", "victor", "whisky", "xray", "yankee", "zulu", "ocean_1", "pa-pa", "orbit", "notch", "allof", "alphabet", "kilo_1", "ocean"};
const char* STRS[] = {"a", "b", "ab", "abc", "A", "x y", "", "z-9", "(q)", "a,b", "#1", "long string value with several words", "\xc3\xa9t\xc3\xa9", "0", "true"};
// strings with quotes, backslashes, control characters and bytes beyond ASCII
const char* ODD[] = {"say \"hi\"", "it's", "\\\\", "a\\\\b", "q\\\"uote\\\"", "\\'", "\\n", "tab\there", "line\nbreak", "\xff\x80\xfe", "\x01\x1f\x7f", "}", "]", "{\"a\": 1}", ", ", "' or true or '", "\" or true or \"", "%s%n", "\r\n", "\xe2\x82\xac\xf0\x9f\x98\x80", "null", " ", "\\\"", "a\\\\\\\"b", "a\\bc", "--", "/*", "\xc3", "\xa9"};
// strings that are easy to take for one another: same hash, same letters, same beginning, same end
std::vector<std::string> lookalikes(Rng& r) {
    static const char* pair[][2] = {{"bC", "cb"}, {"bB", "cc"}, {"Aa", "BB"}, {"Ez", "FY"}, {"ab", "ba"}, {"tag", "Tag"}, {"12", "012"}, {"a", "a "}, {"x1", "x10"}, {"\xc3\xa9", "e"}, {"aab", "aaab"}, {"null", ""}};
    std::vector<std::string> s;
    std::string tail = r.below(2) ? "" : "-tail", head(r.below(3) ? 0 : r.below(2) ? 63 + r.below(3) : 254 + r.below(4), 'h');
    for(int i = 0; i < 3; i++) { size_t k = r.below(sizeof pair / sizeof *pair); for(int j = 0; j < 2; j++) { std::string x = head + pair[k][j] + tail; bool dup = false; for(auto& y : s) dup |= y == x; if(!dup) s.push_back(x); } }
    return s;
}
const char* FTYPES[] = {"advertiser", "advertiser:ip", "campaign", "campaign:ip", "campaign_group", "campaign_group:ip", "flight", "flight:ip", "product", "product:ip"};
const char* FCONST[] = {"advertiser_id", "campaign_id", "campaign_group_id", "flight_id", "product_id"};

struct Gen {
    Rng r;
    Prof f;
    Plan p;
    bool thorough;
    int mode = 0;
    bool big = false;
    std::vector<std::vector<int64_t>> ip;          // per variable numeric constants used by expressions
    std::vector<std::vector<std::string>> sp;      // per variable strings used by expressions
    std::map<int, std::vector<int64_t>> hoti;      // values that tell near copies apart
    std::map<int, std::vector<std::string>> hots;
    std::vector<ExprP> share;
    std::vector<int64_t> times;                    // clock readings
    std::vector<int64_t> segids, capids, limits, windows;
    std::vector<std::string> ns;
    bool have_freq = false, have_seg = false, have_geo = false;
    bool capacity = false, spread = false, census = false, crowd = false, shrink = false;
    int fresh = 0;
    uint64_t next_id = 1;
    std::vector<uint64_t> used_ids;

    Gen(uint64_t seed) : r(seed) {}
    bool ch(double x) { return r.chance(x); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[r.below(v.size())]; }
    int weighted(const double* w, int n) {
        double t = 0; for(int i = 0; i < n; i++) t += w[i];
        double x = (r.next() >> 11) * (1.0 / 9007199254740992.0) * t;
        for(int i = 0; i < n; i++) { if(x < w[i]) return i; x -= w[i]; }
        for(int i = n - 1; i >= 0; i--) if(w[i] > 0) return i;
        return 0;
    }
    // another number that agrees with x in its low or high bits
    int64_t alias(int64_t x) {
        static const int bits[] = {7, 8, 15, 16, 24, 31, 32, 32, 32, 33, 40, 48, 53, 62};
        int64_t d = (int64_t)1 << bits[r.below(14)], y;
        if(ch(0.5)) d = -d;
        if(__builtin_add_overflow(x, d, &y) || y <= INT64_MIN + 1 || y >= INT64_MAX) return x;
        return y;
    }
    uint64_t logu(uint64_t hi) { // log-uniform in [1, hi]
        int bits = 0; while((1ull << bits) < hi) bits++;
        uint64_t top = 1ull << r.below(bits + 1);
        return std::min<uint64_t>(hi, 1 + r.below(top));
    }

    // ------------------------------------------------------------ configuration
    static bool huge(int64_t x) { return x >= HUGE_CODE || x <= -HUGE_CODE; }
    static const int64_t HUGE_MAX = 0x7FEFFFFFFFFFFFFEll; // the float before the largest one
    int64_t huge_near(int64_t x) { // a few rounding steps away
        if(!huge(x)) return x;
        int64_t s = x < 0 ? -1 : 1, m = s * x + (ch(0.5) ? 1 : -1) * (int64_t)(ch(0.8) ? r.below(4) : logu(1ull << 53));
        return s * std::min<int64_t>(HUGE_MAX, std::max<int64_t>(HUGE_CODE + (30ll << 52), m));
    }
    int64_t huge_any() {
        int64_t e = ch(0.3) ? 1022 : ch(0.4) ? r.range(50, 66) : ch(0.3) ? r.range(20, 54) : r.range(60, 1021);
        int64_t m = (e + 1023) << 52; // 2^e
        if(ch(0.3)) m |= (int64_t)(r.next() >> 12);
        if(e == 1022 && ch(0.5)) m = HUGE_MAX;
        return ch(0.5) ? m : -m;
    }
    void huge_domain(VarDef& v) {
        switch(r.below(5)) {
            case 0: { int64_t m = std::llabs(huge_any()), w = std::min<int64_t>(r.range(0, 9), HUGE_MAX - m); v.lo = m; v.hi = m + w; if(ch(0.4)) { int64_t l = v.lo; v.lo = -v.hi; v.hi = -l; } break; }
            case 1: v.lo = 0; v.hi = std::llabs(huge_any()); break;
            case 2: v.hi = 0; v.lo = -std::llabs(huge_any()); break;
            case 3: v.lo = -HUGE_MAX; v.hi = HUGE_MAX; break;
            default: { int64_t a = huge_any(), b = huge_any(); v.lo = std::min(a, b); v.hi = std::max(a, b); break; }
        }
    }
    void numeric_domain(VarDef& v) {
        bool extreme = ch(f.p_extreme);
        if(v.ty == T_FLOAT) {
            if(ch(f.p_huge)) { huge_domain(v); return; }
            int64_t lo = r.range(-40, 20); v.lo = lo; v.hi = lo + (int64_t)r.range(0, 4) * (int64_t)r.range(1, 40);
            if(ch(0.35)) { v.lo = lo - lo % 4; v.hi = v.lo + 4 * r.range(0, 12); }
            if(extreme) { v.lo = -4 * r.range(1, 600); v.hi = 4 * r.range(1, 600); }
            return;
        }
        switch(r.below(5)) {
            case 0: v.lo = 0; v.hi = r.range(0, 3); break;
            case 1: v.lo = 0; v.hi = r.range(4, 20); break;
            case 2: v.lo = r.range(-10, 5); v.hi = v.lo + r.range(0, 16); break;
            case 3: v.lo = r.range(-300, 300); v.hi = v.lo + r.range(50, 1400); break;
            default: v.lo = -(int64_t)r.below(20); v.hi = r.range(0, 20); break;
        }
        if(extreme) {
            switch(r.below(6)) {
                case 0: v.lo = INT64_MAX - (int64_t)r.below(40); v.hi = INT64_MAX - 1; if(v.lo > v.hi) v.lo = v.hi; break;
                case 1: v.lo = INT64_MIN + 2; v.hi = INT64_MIN + 2 + (int64_t)r.below(40); break;
                case 2: v.lo = -5000000000ll; v.hi = -5000000000ll + (int64_t)r.below(900); break;
                case 3: v.lo = -(int64_t)r.below(1000); v.hi = 9000000000000000000ll; break;
                case 4: v.lo = INT64_MIN + 2; v.hi = INT64_MAX - 1; break;
                default: v.lo = 0; v.hi = 998 + (int64_t)r.below(5); break;
            }
        }
    }
    void make_config() {
        Config c;
        int n = (int)r.range(f.vmin, f.vmax);
        have_freq = ch(f.p_freq); have_seg = ch(f.p_seg); have_geo = ch(f.p_geo);
        if(n == 0 && !have_freq && !have_seg && !have_geo) n = 1;
        std::vector<std::string> names(std::begin(NAMES), std::end(NAMES));
        if(ch(f.p_look * 0.7)) { // names that are easy to take for one another
            std::string head(ch(0.3) ? 0 : ch(0.5) ? r.range(14, 17) : ch(0.5) ? r.range(29, 33) : r.range(60, 300), 'p'), tail = ch(0.6) ? "" : "_tail";
            static const char* mid[] = {"a", "b", "ab", "ba", "aa", "a1", "a_1", "a-1", "a2", "b2", "aab", "aaa", "null", "true_", "falsey", "android", "order", "notch", "_", "__", "a_", "a-", "bc", "cb"};
            names.clear(); for(auto* m : mid) names.push_back(head + m + tail);
        }
        for(size_t i = names.size(); i > 1; i--) std::swap(names[i - 1], names[r.below(i)]);
        bool many = ch(f.p_manyvars);
        int filler = spread && !census ? (int)r.range(66, ch(0.2) ? 270 : 110) : !many ? 0 : ch(0.8) ? (int)r.range(55, 75) : (ch(0.6) ? 125 : 253) + (int)r.range(-12, 8);
        bool any_bounded_mode = mode == 3;
        if(census) n = std::max(n, 1);
        for(int i = 0; i < n; i++) {
            VarDef v; v.name = names[i]; v.ty = census && i == 0 ? (ch(0.5) ? T_ENUM : T_STR) : weighted(f.ty, T_NTY); v.undef = ch(f.p_undef);
            v.bounded = any_bounded_mode || ch(f.p_bounded);
            if(v.ty == T_INT || v.ty == T_FLOAT || v.ty == T_IL) { if(v.bounded) numeric_domain(v); }
            else if(v.ty == T_STR || v.ty == T_SL || v.ty == T_ENUM) { v.count = r.range(1, 8); if(ch(0.08)) v.count = r.range(990, 1010); if(capacity && ch(0.06)) v.count = 0; }
            else v.bounded = false;
            c.vars.push_back(v);
        }
        auto special = [&](const char* nm, int ty) { VarDef v; v.name = nm; v.ty = ty; v.undef = ch(f.p_undef); if(c.find(nm) < 0) c.vars.push_back(v); };
        if(have_freq || have_seg) {
            special("now", T_INT);
            if(ch(0.2) || any_bounded_mode) { VarDef& v = c.vars.back(); v.bounded = true; v.lo = 0; v.hi = 4000000000ll; }
        }
        if(have_freq) special("frequency_caps", T_FREQ);
        if(have_seg) special("segments_with_timestamp", T_SEG);
        geo_hot = (int)r.below(5);
        if(have_geo) {
            for(const char* nm : {"latitude", "longitude"}) { special(nm, T_FLOAT); if(ch(0.4) || any_bounded_mode) { VarDef& v = c.vars.back(); v.bounded = true; v.lo = nm[1] == 'a' ? -360 : -720; v.hi = -v.lo; } }
        }
        for(int i = 0; i < filler; i++) { VarDef v; v.name = "filler_" + std::string(1, (char)('a' + i / 26)) + (char)('a' + i % 26); v.ty = ch(0.5) ? T_BOOL : T_INT; v.undef = true; v.bounded = v.ty == T_INT && (any_bounded_mode || spread); if(v.bounded) { v.lo = 0; v.hi = 5; } c.vars.push_back(v); }
        for(size_t i = c.vars.size(); i > 1; i--) std::swap(c.vars[i - 1], c.vars[r.below(i)]);
        layout(c);
        // constants used by expressions
        std::vector<std::string> strs(std::begin(STRS), std::end(STRS));
        for(size_t i = strs.size(); i > 1; i--) std::swap(strs[i - 1], strs[r.below(i)]);
        size_t pool = r.range(3, 10);
        for(auto& v : c.vars) {
            std::vector<int64_t> q; std::vector<std::string> s;
            bool odd = ch(f.p_odd);
            if(v.ty == T_INT || v.ty == T_IL) {
                int k = (int)r.range(2, 7);
                for(int i = 0; i < k; i++) {
                    if(shrink && ch(0.2)) q.push_back(ch(0.6) ? INT64_MAX - (int64_t)r.below(2) : INT64_MIN + 1 + (int64_t)r.below(2));
                    else if(v.bounded) {
                        int64_t x;
                        uint64_t span = (uint64_t)v.hi - (uint64_t)v.lo;
                        switch(r.below(5)) { case 0: x = v.lo; break; case 1: x = v.hi; break; case 2: x = v.lo + (int64_t)(span / 2); break; default: x = (int64_t)((uint64_t)v.lo + (span == ~0ull ? r.next() : r.below(span + 1))); }
                        q.push_back(x);
                    }
                    else if(ch(f.p_extreme)) q.push_back(ch(0.5) ? INT64_MAX - 1 - (int64_t)r.below(3) : INT64_MIN + 2 + (int64_t)r.below(3));
                    else q.push_back(ch(0.2) ? r.range(-2000000000000ll, 2000000000000ll) : r.range(-12, 12));
                }
            }
            bool hu = v.ty == T_FLOAT && (v.bounded ? huge(v.lo) || huge(v.hi) : ch(f.p_huge));
            if(hu) {
                int k = (int)r.range(2, 7);
                for(int i = 0; i < k; i++) {
                    int64_t x = !q.empty() && ch(0.5) ? pick(q) : !v.bounded ? huge_any() : ch(0.5) ? (ch(0.5) ? v.lo : v.hi) : huge_any();
                    x = huge_near(x); if(ch(0.1)) x = r.range(-60, 60);
                    q.push_back(in_domain(v, x));
                }
            }
            else if(v.ty == T_FLOAT) { int k = (int)r.range(2, 7); for(int i = 0; i < k; i++) q.push_back(v.bounded ? (ch(0.3) ? (ch(0.5) ? v.lo : v.hi) : r.range(v.lo, v.hi)) : r.range(-60, 60)); }
            if(v.ty == T_FLOAT && !hu && ch(2 * f.p_fine)) for(int64_t x : {0, 4, -4, 1}) if((!v.bounded || (v.lo <= x && x <= v.hi)) && ch(0.6)) q.push_back(x);
            if(census && v.name == names[0] && (v.ty == T_ENUM || v.ty == T_STR)) { // more values than a byte can number
                size_t m = 257 + r.below(80); if(v.bounded) v.count = m + r.below(3);
                for(size_t i = 0; i < m; i++) { if(v.ty == T_ENUM) q.push_back((int64_t)(i * 7 % 1000)); else s.push_back("v" + std::to_string(i * 7 % 1000)); }
                ip.push_back(q); sp.push_back(s); continue;
            }
            if(v.ty == T_ENUM) {
                size_t k = r.range(2, 6); if(v.bounded && !capacity) k = std::min<size_t>(k, v.count);
                while(q.size() < k) { int64_t x = ch(0.8) ? r.range(0, 15) : r.range(-100000, 100000); if(!std::count(q.begin(), q.end(), x)) q.push_back(x); }
            }
            if(v.ty == T_STR || v.ty == T_SL) {
                if(ch(f.p_bigpool)) {
                    size_t m = ch(0.1) ? 256 + r.below(140) : 10 + logu(200); if(v.bounded) v.count = m + r.below(3);
                    const char* pre = STRS[r.below(5)];
                    for(size_t i = 0; i < m; i++) s.push_back(std::string(pre) + std::to_string(i * 7 % 1000));
                    ip.push_back(q); sp.push_back(s); continue;
                }
                if(ch(f.p_look)) {
                    s = lookalikes(r);
                    if(v.bounded && s.size() > v.count && !capacity) { if(ch(0.5)) v.count = s.size() + r.below(2); else s.resize(v.count); }
                    ip.push_back(q); sp.push_back(s); continue;
                }
                size_t k = std::min(pool, strs.size());
                if(v.bounded && !capacity) k = std::min<size_t>(k, v.count);
                size_t off = r.below(strs.size());
                for(size_t i = 0; i < k; i++) s.push_back(strs[(off + i) % strs.size()]);
                if(odd) {
                    std::string base(ch(0.05) ? 70000 : ch(0.2) ? r.range(4000, 17000) : r.range(100, 1100), 'k'); bool lng = ch(0.1);
                    if(lng && base.size() > 3000) { f.p_biglist = 0; f.p_duplist = 0; f.p_chain = 0; }
                    for(size_t i = 0; i < s.size(); i++) if(ch(0.7)) { std::string x = ODD[r.below(sizeof ODD / sizeof *ODD)]; if(lng) { x = base; x[r.below(x.size())] = (char)('a' + r.below(26)); if(ch(0.3)) x.pop_back(); } if(!std::count(s.begin(), s.end(), x)) s[i] = x; }
                }
            }
            ip.push_back(q); sp.push_back(s);
        }
        p.configs.push_back(c);
    }
    void layout(Config& c) {
        if(ch(0.06)) c.order |= 1 << 20; // declared with lines of text
        switch(r.below(5)) {
            case 0: c.dflt = true; break;
            case 1: c.cap = 1; c.part = (int)r.below(2); break;
            case 2: c.cap = 2; c.part = (int)r.below(3); break;
            case 3: c.cap = (int)r.range(1, 6); c.part = (int)r.below(5); break;
            default: c.cap = 3; c.part = 0; if(ch(0.25)) { static const int64_t caps[] = {0, 7, 255, 256, 257, 1000, 65536, 4294967296ll, INT64_MAX}; c.cap = caps[r.below(9)]; c.part = ch(0.5) ? 0 : caps[r.below(9)]; } break;
        }
    }
    void vary(Config& c) { // another configuration with the same meaning
        c.dflt = false; layout(c); if(ch(0.5)) c.order = (c.order & 1 << 20) | (int)r.range(1, 1000);
        if(!ch(0.6)) return;
        for(auto& v : c.vars) {
            if(!v.bounded || v.name == "latitude" || v.name == "longitude") continue;
            if(v.ty == T_INT || v.ty == T_IL) { if(ch(0.4) && v.lo > -1000000 && v.hi < 1000000) { v.lo -= r.range(0, 9); v.hi += r.range(0, 9); } else if(mode == 0 && ch(0.3)) v.bounded = false; }
            else if(v.ty == T_FLOAT) { if(huge(v.lo) || huge(v.hi)) { if(ch(0.4)) { if(v.lo > -HUGE_MAX + 10 && !(v.lo >= HUGE_CODE && v.lo < HUGE_CODE + (30ll << 52))) v.lo -= r.range(0, 9); if(v.hi < HUGE_MAX - 10) v.hi += r.range(0, 9); } else if(mode == 0 && ch(0.3)) v.bounded = false; } else if(ch(0.4)) { v.lo -= r.range(0, 9); v.hi += r.range(0, 9); } else if(mode == 0 && ch(0.3)) v.bounded = false; }
            else if(v.ty == T_STR || v.ty == T_SL || v.ty == T_ENUM) { if(ch(0.4)) v.count += r.range(0, 5); else if(mode == 0 && ch(0.3)) v.bounded = false; }
        }
    }

    // ------------------------------------------------------------ expressions
    typedef std::shared_ptr<Expr> EP;
    EP mk(int k) { auto e = std::make_shared<Expr>(); e->k = k; return e; }
    // anywhere in the 64-bit range, or at its ends, or beside a power of two
    int64_t far(const VarDef& d) {
        int64_t x;
        switch(r.below(5)) {
            case 0: x = INT64_MAX - 1 - (int64_t)r.below(3); break;
            case 1: x = INT64_MIN + 2 + (int64_t)r.below(3); break;
            case 2: x = (int64_t)(r.next() >> r.below(60)); if(ch(0.5)) x = -x; break;
            default: x = ((int64_t)1 << r.below(63)) + r.range(-1, 1); if(ch(0.5)) x = -x; break;
        }
        x = std::max<int64_t>(INT64_MIN + 2, std::min<int64_t>(INT64_MAX - 1, x));
        if(d.bounded) x = std::max(d.lo, std::min(d.hi, x));
        return x;
    }
    std::vector<int64_t> int_list(int v) {
        std::vector<int64_t> l;
        const VarDef& d = p.configs[0].vars[v];
        int n = ch(f.p_biglist) ? (ch(0.25) ? 9 + (int)logu(300) : (int)r.range(9, 40)) : (int)r.range(1, 4);
        bool wide = ch(f.p_wide);
        for(int i = 0; i < n; i++) {
            int64_t x = pick(ip[v]);
            if(wide) x = far(d);
            else if(n > 4) { if(d.bounded) { uint64_t span = (uint64_t)d.hi - (uint64_t)d.lo; x = (int64_t)((uint64_t)d.lo + r.below(std::min<uint64_t>(span, 900) + 1)); } else x = n > 60 ? r.range(-900, 900) : r.range(-60, 60); }
            if(std::count(l.begin(), l.end(), x) && !ch(f.p_duplist)) continue;
            l.push_back(x);
        }
        return l;
    }
    std::vector<std::string> str_list(int v) {
        std::vector<std::string> l;
        if(sp[v].size() > 200 && ch(0.25)) { l = sp[v]; for(size_t i = l.size(); i > 1; i--) std::swap(l[i - 1], l[r.below(i)]); return l; }
        int n = ch(f.p_biglist) ? (sp[v].size() > 12 && ch(0.75) ? 8 + (int)logu(3 * sp[v].size() / 2) : (int)r.range(4, 12)) : (int)r.range(1, 4);
        for(int i = 0; i < n; i++) { auto& x = pick(sp[v]); if(std::count(l.begin(), l.end(), x) && !ch(f.p_duplist)) continue; l.push_back(x); }
        return l;
    }
    EP leaf() {
        const Config& c = p.configs[0];
        if(ch(f.p_lit)) { auto e = mk(E_LIT); e->a = ch(0.5); return e; }
        bool prep = mode == 1 || mode == 3; // expressions that may go through make_sub
        for(int tries = 0; tries < 60; tries++) {
            double w[3] = {have_freq ? 0.25 : 0, have_seg ? 0.25 : 0, have_geo ? 0.25 : 0};
            if(f.p_freq >= 1) w[0] = 1.6; if(f.p_seg >= 1) w[1] = 1.6; if(f.p_geo >= 1) w[2] = 1.2;
            double ww[4] = {w[0], w[1], w[2], 1.0};
            int s = weighted(ww, 4);
            if(s == 0) {
                auto e = mk(E_FREQ); e->var = -1; e->s = FTYPES[r.below(10)]; if(ch(0.6)) e->s = FTYPES[(p.seed % 5) * 2]; e->ns = pick(ns); e->a = limit(); e->b = ch(0.2) ? 0 : window(false);
                return e;
            }
            if(s == 1) {
                auto e = mk(E_SEG); e->op = (int)r.below(2); e->a = pick(segids); e->b = ch(0.15) ? 0 : window(true); e->var = -1;
                if(ch(0.35)) { std::vector<int> cs; for(size_t i = 0; i < c.vars.size(); i++) if(c.vars[i].ty == T_SEG) cs.push_back((int)i); if(!cs.empty()) e->var = pick(cs); }
                return e;
            }
            if(s == 2) {
                auto e = mk(E_GEO); e->a = geo_lat(); e->b = geo_lon(); e->c = ch(0.05) ? 0 : ch(0.5) ? r.range(0, 1200) : ch(0.8) ? r.range(0, 30000) : r.range(0, 76000);
                e->a = std::max<int64_t>(-360, std::min<int64_t>(360, e->a));
                return e;
            }
            int v = (int)r.below(c.vars.size());
            const VarDef& d = c.vars[v];
            if(d.name == "now" && ch(0.8)) continue;
            if(d.name.rfind("filler", 0) == 0 && ch(0.7)) continue;
            if(d.undef && ch(f.p_nullcheck)) {
                if(d.ty == T_SEG || d.ty == T_FREQ || d.ty == T_ENUM) { if(prep) continue; }
                auto e = mk(E_NULL); e->var = v; e->op = ch(0.5) ? IS_NULL : NOT_NULL; return e;
            }
            switch(d.ty) {
                case T_BOOL: { auto e = mk(E_BOOL); e->var = v; return e; }
                case T_INT: {
                    if(d.name == "now") { auto e = mk(E_CMP); e->var = v; e->op = (int)r.below(4); e->a = pick(times); return e; }
                    int w2 = (int)r.below(6);
                    if(w2 < 3) {
                        auto e = mk(E_CMP); e->var = v; e->op = (int)r.below(4); e->a = pick(ip[v]); e->flip = ch(0.1);
                        if(d.bounded && ((e->op == LT && e->a == d.lo) || (e->op == GT && e->a == d.hi))) e->op = e->op == LT ? LE : GE;
                        return e;
                    }
                    if(w2 < 5) { auto e = mk(E_EQ); e->var = v; e->op = ch(0.3); e->a = pick(ip[v]); e->flip = ch(0.1); return e; }
                    auto e = mk(E_SETL); e->var = v; e->op = ch(0.35); e->il = int_list(v); return e;
                }
                case T_FLOAT: {
                    if(ip[v].empty()) continue;
                    if(ch(0.7)) {
                        auto e = mk(E_CMP); e->var = v; e->op = (int)r.below(4); e->a = fine(d, pick(ip[v]), true); e->flip = ch(0.1);
                        if(d.bounded && ((e->op == LT && e->a == d.lo) || (e->op == GT && e->a == d.hi))) e->op = e->op == LT ? LE : GE;
                        return e;
                    }
                    auto e = mk(E_EQ); e->var = v; e->op = ch(0.3); e->a = fine(d, pick(ip[v]), true); e->flip = ch(0.1); return e;
                }
                case T_STR: {
                    int w2 = ch(f.p_strfn) ? 5 : (int)r.below(5);
                    if(w2 < 3) { auto e = mk(E_EQ); e->var = v; e->op = ch(0.35); e->s = pick(sp[v]); e->flip = ch(0.1); return e; }
                    if(w2 < 5) { auto e = mk(E_SETL); e->var = v; e->op = ch(0.35); e->sl = str_list(v); return e; }
                    auto e = mk(E_STR); e->var = v; e->op = (int)r.below(3); e->s = pattern(v); pats[v].push_back(e->s); return e;
                }
                case T_ENUM: { auto e = mk(E_EQ); e->var = v; e->op = ch(0.35); e->a = pick(ip[v]); return e; }
                case T_IL: {
                    int w2 = (int)r.below(7);
                    if(w2 == 0) { auto e = mk(E_NULL); e->var = v; e->op = IS_EMPTY; return e; }
                    if(w2 < 4) { auto e = mk(E_SETV); e->var = v; e->op = ch(0.35); e->a = pick(ip[v]); return e; }
                    auto e = mk(E_LIST); e->var = v; e->op = (int)r.below(3); e->il = int_list(v); return e;
                }
                case T_SL: {
                    int w2 = (int)r.below(7);
                    if(w2 == 0) { auto e = mk(E_NULL); e->var = v; e->op = IS_EMPTY; return e; }
                    if(w2 < 4) { auto e = mk(E_SETV); e->var = v; e->op = ch(0.35); e->s = pick(sp[v]); return e; }
                    auto e = mk(E_LIST); e->var = v; e->op = (int)r.below(3); e->sl = str_list(v); return e;
                }
                case T_SEG: {
                    if(c.find("now") < 0) { if(prep) continue; auto e = mk(E_NULL); e->var = v; e->op = IS_EMPTY; return e; }
                    if(!prep && ch(0.15)) { auto e = mk(E_NULL); e->var = v; e->op = IS_EMPTY; return e; }
                    auto e = mk(E_SEG); e->op = (int)r.below(2); e->var = v; e->a = pick(segids); e->b = ch(0.5) ? r.range(0, 80) : window(true); return e;
                }
                case T_FREQ: { if(prep) continue; auto e = mk(E_NULL); e->var = v; e->op = IS_EMPTY; return e; }
            }
        }
        auto e = mk(E_LIT); e->a = 1; return e;
    }
    ExprP expr(int depth) {
        if(!share.empty() && ch(f.p_share)) return pick(share);
        ExprP out;
        if(depth > 0 && ch(f.p_not)) {
            auto e = mk(E_NOT); e->kid.push_back(ch(f.p_nestednot) ? expr(depth - 1) : (ch(0.5) ? expr(depth - 1) : ExprP(leaf()))); out = e;
        }
        else if(depth > 0 && ch(f.p_deep)) {
            auto e = mk(ch(0.5) ? E_AND : E_OR);
            int n = ch(0.75) ? 2 : 3;
            for(int i = 0; i < n; i++) e->kid.push_back(expr(depth - 1 - (int)r.below(2)));
            out = e;
        }
        else out = leaf();
        if(share.size() < 24) share.push_back(out); else if(ch(0.1)) share[r.below(share.size())] = out;
        return out;
    }

    // the same expression but for one detail of one predicate
    EP clone(const Expr& e) { auto n = std::make_shared<Expr>(e); for(auto& k : n->kid) k = clone(*k); return n; }
    void leaves(Expr& e, std::vector<Expr*>& out) { if(e.kid.empty()) out.push_back(&e); for(auto& k : e.kid) leaves(const_cast<Expr&>(*k), out); }
    // the same float, or one a few rounding steps away
    int64_t fine(const VarDef& d, int64_t x, bool constant) {
        if(x > 8 || x < -8 || !ch(constant ? f.p_fine : 2 * f.p_fine)) return x;
        int64_t y = x + (ch(0.5) ? 1 : -1) * (int64_t)logu(8) * FINE;
        if(constant && d.bounded && (fval(y) < fval(d.lo) + 1e-14 || fval(y) > fval(d.hi) - 1e-14)) return x;
        return y;
    }
    int64_t in_domain(const VarDef& d, int64_t x) {
        if(d.ty == T_FLOAT && !d.bounded) return std::max<int64_t>(-HUGE_MAX, std::min<int64_t>(HUGE_MAX, x)); // a copy of a copy must not reach infinity
        return d.bounded ? std::max(d.lo, std::min(d.hi, x)) : x;
    }
    ExprP near_copy(const Expr& src) {
        EP c = clone(src);
        std::vector<Expr*> ls; leaves(*c, ls);
        Expr& e = *ls[ch(0.5) ? ls.size() / 2 : r.below(ls.size())];
        const Config& cf = p.configs[0];
        const VarDef* d = e.var >= 0 ? &cf.vars[e.var] : nullptr;
        if(d && ch(0.12)) { // another variable of the same kind
            std::vector<int> o; for(size_t i = 0; i < cf.vars.size(); i++) if((int)i != e.var && cf.vars[i].ty == d->ty && (!d->bounded || (cf.vars[i].bounded && cf.vars[i].lo <= d->lo && cf.vars[i].hi >= d->hi)) && !cf.vars[i].bounded == !d->bounded && (cf.vars[i].undef || e.k != E_NULL)) o.push_back((int)i);
            bool free_strings = d->ty != T_STR && d->ty != T_SL && d->ty != T_ENUM;
            if(!o.empty() && (free_strings || !d->bounded) && e.k != E_CMP) { e.var = pick(o); return c; }
        }
        switch(e.k) {
            case E_LIT: e.a = !e.a; break;
            case E_BOOL: { auto n = mk(E_NOT); n->kid.push_back(std::make_shared<Expr>(e)); return &e == c.get() ? ExprP(n) : ExprP(c); }
            case E_CMP: {
                if(ch(0.5)) e.op = (int)r.below(4); else { int64_t k = r.range(-1, 1); if(e.a < INT64_MAX - 4 && e.a > INT64_MIN + 4) e.a = in_domain(*d, e.a + k); }
                if(d->bounded && ((e.op == LT && e.a == d->lo) || (e.op == GT && e.a == d->hi))) e.op = e.op == LT ? LE : GE;
                break;
            }
            case E_EQ: if(ch(0.3)) e.op = !e.op; else if(d->ty == T_STR) e.s = pick(sp[e.var]); else if(d->ty == T_ENUM) e.a = pick(ip[e.var]); else if(d->ty == T_INT && ch(f.p_alias)) e.a = in_domain(*d, alias(e.a)); else if(e.a < INT64_MAX - 4 && e.a > INT64_MIN + 4) e.a = in_domain(*d, e.a + r.range(-1, 1)); break;
            case E_SETL: case E_LIST: {
                if(ch(0.2)) { e.op = (int)r.below(e.k == E_LIST ? 3 : 2); break; }
                size_t n = e.il.size() + e.sl.size(); if(!n) break;
                size_t at = ch(0.5) ? n / 2 : r.below(n);
                if(ch(0.25) && n > 1) { if(!e.il.empty()) hoti[e.var].push_back(e.il[at]); else hots[e.var].push_back(e.sl[at]); if(!e.il.empty()) e.il.erase(e.il.begin() + at); else e.sl.erase(e.sl.begin() + at); }
                else if(ch(0.2)) { if(!e.il.empty()) e.il.push_back(pick(ip[e.var])); else e.sl.push_back(pick(sp[e.var])); }
                else if(!e.il.empty()) { int64_t& x = e.il[at]; hoti[e.var].push_back(x); if(x < INT64_MAX - 4 && x > INT64_MIN + 4) x = in_domain(*d, x + (ch(0.5) ? 1 : -1)); hoti[e.var].push_back(x); }
                else { hots[e.var].push_back(e.sl[at]); e.sl[at] = pick(sp[e.var]); hots[e.var].push_back(e.sl[at]); }
                break;
            }
            case E_SETV: if(ch(0.3)) e.op = !e.op; else if(d->ty == T_SL) e.s = pick(sp[e.var]); else e.a = in_domain(*d, pick(ip[e.var])); break;
            case E_NULL: if(e.op == IS_NULL) e.op = NOT_NULL; else if(e.op == NOT_NULL) e.op = IS_NULL; break;
            case E_FREQ: switch(r.below(4)) { case 0: e.s = FTYPES[r.below(10)]; break; case 1: e.ns = pick(ns); break; case 2: e.a = ch(0.3) ? e.a + 1 : limit(); break; default: e.b = e.b > 1 ? e.b + r.range(-1, 1) : 30; break; } break;
            case E_SEG: switch(r.below(3)) { case 0: e.op = !e.op; break; case 1: e.a = pick(segids); break; default: e.b = e.b + r.range(0, 2); break; } break;
            case E_GEO: switch(r.below(3)) { case 0: e.a = std::max<int64_t>(-360, std::min<int64_t>(360, e.a + r.range(-4, 4))); break; case 1: e.b = e.b + r.range(-4, 4); break; default: { int64_t c0 = e.c; e.c += ch(0.5) ? r.range(1, 3) : r.range(0, 40); if(e.c != c0) rims.push_back({e.a, e.b, (c0 + e.c) / 8.0}); break; } } break;
            case E_STR: if(ch(0.4)) e.op = (int)r.below(3); else { std::string t = e.s.size() > 1 && ch(0.5) ? e.s.substr(1) : e.s + "b"; if(text_ok(t)) e.s = t; } break;
        }
        return c;
    }
    // a long chain of one operator
    ExprP chain() {
        auto e = mk(ch(0.5) ? E_AND : E_OR);
        int n = 16 + (int)logu(thorough ? 400 : 180);
        std::vector<ExprP> base; int kb = (int)r.range(1, 12); for(int i = 0; i < kb; i++) base.push_back(leaf());
        for(int i = 0; i < n; i++) e->kid.push_back(ch(0.25) ? ExprP(leaf()) : base[r.below(base.size())]);
        return e;
    }

    // one operand inside the other, many levels down
    ExprP nest() {
        std::vector<ExprP> base; int kb = (int)r.range(1, 8); for(int i = 0; i < kb; i++) base.push_back(leaf());
        ExprP x = pick(base); int n = 6 + (int)logu(thorough || ch(0.1) ? 300 : 120), side = (int)r.below(3); double pn = ch(0.3) ? 0.9 : 0.3, pa = ch(0.5) ? 0.5 : ch(0.5) ? 0.05 : 0.95;
        for(int i = 0; i < n; i++) {
            auto e = mk(ch(pn) ? E_NOT : ch(pa) ? E_AND : E_OR);
            e->kid.push_back(x);
            if(e->k != E_NOT) { e->kid.push_back(ch(0.2) ? ExprP(leaf()) : pick(base)); if(side == 1 || (side == 2 && ch(0.5))) std::swap(e->kid[0], e->kid[1]); }
            x = e;
        }
        return x;
    }

    // ------------------------------------------------------------ events
    Val value(int v) {
        const VarDef& d = p.configs[0].vars[v];
        Val x; x.ty = d.ty;
        switch(d.ty) {
            case T_BOOL: x.i = ch(0.5); break;
            case T_INT: x.i = int_value(v); break;
            case T_FLOAT:
                if(d.name == "latitude") { x.i = geo_lat(); if(!p.exprs.empty() && ch(geo_ref ? 0.85 : 0.5)) x.i = geo_near(true); break; }
                if(d.name == "longitude") { x.i = geo_lon(); if(!p.exprs.empty() && ch(geo_ref ? 0.85 : 0.5)) x.i = geo_near(false); break; }
                x.i = pick(ip[v]); if(huge(x.i)) { if(ch(0.5)) x.i = huge_near(x.i); } else if(ch(0.5)) x.i += r.range(-5, 5);
                if(ch(f.p_huge)) { x.i = huge_any(); if(ch(0.05)) x.i = (x.i < 0 ? -1 : 1) * (HUGE_MAX + 1); }
                if(d.bounded && !ch(f.p_oob)) x.i = std::max(d.lo, std::min(d.hi, x.i));
                else if(ch(0.3)) x.i = r.range(-5000, 5000);
                if(ch(0.2)) { std::vector<int64_t> l; std::vector<std::string> s; consts_in(v, l, s); if(!l.empty()) x.i = pick(l); }
                x.i = fine(d, x.i, false);
                break;
            case T_STR: x.s = str_value(v); break;
            case T_ENUM: x.i = ch(0.8) ? pick(ip[v]) : r.range(-3, 20); if(ch(f.p_alias)) x.i = alias(x.i); break;
            case T_IL: { int n = (int)r.range(0, 5); if(ch(f.p_biglist)) n = ch(0.25) ? 9 + (int)logu(300) : (int)r.range(8, 30); if(n > 200) n *= (int)r.range(1, 5); bool wide = ch(f.p_wide); for(int i = 0; i < n; i++) x.il.push_back(wide && ch(0.6) ? far(d) : n > 12 && ch(0.7) ? list_neighbour(v) : int_value(v)); if(ch(0.15)) list_from_expr(v, x); break; }
            case T_SL: { int n = (int)r.range(0, 5); if(ch(f.p_biglist)) n = sp[v].size() > 12 && ch(0.75) ? 8 + (int)logu(3 * sp[v].size() / 2) : (int)r.range(8, 20); for(int i = 0; i < n; i++) x.sl.push_back(str_value(v)); if(ch(0.15)) list_from_expr(v, x); break; }
            case T_SEG: {
                std::set<int64_t> ids; int n = (int)r.range(0, ch(0.8) ? 3 : 9); for(int i = 0; i < n; i++) ids.insert(pick(segids));
                for(auto id : ids) x.seg.push_back({id, stamp()});
                if(ch(f.p_manycaps)) { // many more, about the ones asked for
                    n = 8 + (int)logu(250); if(ch(0.06)) n = (int)r.range(254, 600); for(int i = 0; i < n; i++) { int64_t id = r.range(-n / 4, n * 2); if(ids.insert(id).second) x.seg.push_back({id, stamp()}); }
                }
                if(ch(0.5)) for(size_t i = x.seg.size(); i > 1; i--) std::swap(x.seg[i - 1], x.seg[r.below(i)]);
                else if(ch(0.3)) std::sort(x.seg.begin(), x.seg.end());
                break;
            }
            case T_FREQ: {
                int n = (int)r.range(0, 3); bool many = ch(f.p_manycaps); if(many) n = 6 + (int)logu(120); bool crowded = many && ch(0.06); if(crowded) n = (int)r.range(256, 560);
                std::set<std::tuple<std::string, uint32_t, std::string>> seen;
                for(int i = 0; i < n; i++) {
                    Cap k; k.type = ch(0.6) ? FTYPES[(p.seed % 5) * 2] : FTYPES[r.below(10)]; k.id = (uint32_t)(many && ch(0.9) ? r.range(1, crowded ? 600 : 60) : pick(capids)); k.ns = pick(ns); k.ts = stamp(); k.tsdef = !ch(0.12); k.value = limits.empty() || ch(0.6) ? (uint32_t)r.range(0, 4) : (uint32_t)(pick(limits) + r.range(-1, 1));
                    if(seen.insert({k.type, k.id, k.ns}).second) x.caps.push_back(k);
                }
                break;
            }
        }
        return x;
    }
    int64_t list_neighbour(int v) {
        const VarDef& d = p.configs[0].vars[v];
        if(d.bounded) { uint64_t span = (uint64_t)d.hi - (uint64_t)d.lo; return (int64_t)((uint64_t)d.lo + r.below(std::min<uint64_t>(span, 900) + 1)); }
        return r.range(-900, 900);
    }
    // an event list that is (nearly) the list of some expression
    void list_from_expr(int v, Val& x) {
        std::vector<const Expr*> got, st; for(auto& e : p.exprs) st.push_back(e.get());
        while(!st.empty()) { auto* e = st.back(); st.pop_back(); if(e->k == E_LIST && e->var == v) got.push_back(e); for(auto& k : e->kid) st.push_back(k.get()); }
        if(got.empty()) return;
        auto* e = got[r.below(got.size())];
        x.il = e->il; x.sl = e->sl;
        if(ch(0.7)) { if(!x.il.empty()) x.il.erase(x.il.begin() + r.below(x.il.size())); if(!x.sl.empty()) x.sl.erase(x.sl.begin() + r.below(x.sl.size())); }
        if(ch(0.3)) { if(!x.il.empty()) x.il.push_back(int_value(v)); if(!x.sl.empty()) x.sl.push_back(str_value(v)); }
        for(size_t i = x.il.size(); i > 1; i--) std::swap(x.il[i - 1], x.il[r.below(i)]);
        for(size_t i = x.sl.size(); i > 1; i--) std::swap(x.sl[i - 1], x.sl[r.below(i)]);
    }
    // places: anywhere, a city, the date line, a pole, where equator and prime meridian cross
    int geo_hot = 0; double geo_angle = 0, geo_dist = 0; bool geo_exact = false, geo_centre = false; const Expr* geo_ref = nullptr; Expr rim_ref;
    struct Rim { int64_t a, b; double d; }; std::vector<Rim> rims; // distances that tell near copies apart
    int64_t geo_lat() {
        if(ch(0.25)) return r.range(-360, 360);
        switch(geo_hot) { case 1: return r.range(190, 200); case 2: return r.range(-30, 30); case 3: return (ch(0.8) ? 1 : -1) * r.range(345, 360); case 4: return r.range(-12, 12); default: return r.range(-340, 340); }
    }
    int64_t geo_lon() {
        if(ch(0.25)) return r.range(-720, 720);
        switch(geo_hot) { case 1: return r.range(-300, -290); case 2: return (ch(0.5) ? 1 : -1) * r.range(700, 720); case 4: return r.range(-12, 12); default: return r.range(-700, 700); }
    }
    // one coordinate of a point about the radius of a geo expression away from its centre
    int64_t geo_near(bool lat) {
        if(!geo_ref || ch(0.1)) {
            std::vector<const Expr*> gs; std::vector<const Expr*> st; for(auto& e : p.exprs) st.push_back(e.get());
            while(!st.empty()) { auto* e = st.back(); st.pop_back(); if(e->k == E_GEO) gs.push_back(e); for(auto& k : e->kid) st.push_back(k.get()); }
            if(gs.empty()) return lat ? geo_lat() : geo_lon();
            geo_ref = gs[r.below(gs.size())]; geo_angle = (r.below(4096) / 4096.0) * 6.283185307;
            geo_centre = ch(geo_ref->c == 0 ? 0.7 : 0.05); geo_exact = ch(0.5); geo_dist = geo_ref->c / 4.0 * (ch(0.5) ? 0.98 + 0.04 * (r.below(4096) / 4096.0) : (r.below(4096) / 4096.0) * 1.3);
            if(!rims.empty() && ch(0.5)) { auto& m = pick(rims); geo_exact = true; rim_ref.a = m.a; rim_ref.b = m.b; geo_ref = &rim_ref; geo_dist = m.d; }
        }
        auto* g = geo_ref;
        if(geo_centre) return lat ? g->a : g->b;
        if(geo_exact) { // that far away in that direction, on a grid of about two metres
            const double R = 6372.8, P = 3.141592653589793 / 180;
            double la = g->a / 4.0 * P, lo = g->b / 4.0 * P, d = geo_dist / R, q;
            double y = std::asin(std::max(-1.0, std::min(1.0, std::sin(la) * std::cos(d) + std::cos(la) * std::sin(d) * std::cos(geo_angle))));
            double z = lo + std::atan2(std::sin(geo_angle) * std::sin(d) * std::cos(la), std::cos(d) - std::sin(la) * std::sin(y));
            q = lat ? y / P : z / P; if(q > 180) q -= 360; if(q < -180) q += 360;
            q = std::max(lat ? -90.0 : -180.0, std::min(lat ? 90.0 : 180.0, q));
            int64_t n = (int64_t)std::floor(q * 65536 + 0.5);
            return n < 0 ? n - GRID_CODE : n + GRID_CODE;
        }
        double deg = g->c / 4.0 / 111.2 * (ch(0.6) ? 0.8 + 0.4 * (r.below(4096) / 4096.0) : (r.below(4096) / 4096.0) * 1.5);
        if(lat) return std::max<int64_t>(-360, std::min<int64_t>(360, g->a + (int64_t)(deg * std::cos(geo_angle) * 4)));
        double c = std::cos(g->a / 4.0 * 0.0174532925);
        double o = c > 0.02 ? deg * std::sin(geo_angle) / c : (r.below(4096) / 4096.0) * 360;
        int64_t x = g->b + (int64_t)std::max(-1400.0, std::min(1400.0, o * 4));
        while(x > 720) x -= 1440;
        while(x < -720) x += 1440;
        return x;
    }
    // limits and windows, now and then at the ends of 32 bits and beyond
    int64_t limit() {
        if(!ch(f.p_wide32)) return r.range(0, 4);
        static const int64_t odd[] = {-1, 255, 256, 65536, 2147483647, 2147483648, 4294967295, 4294967296, 4294967298, 9999999999, 1ll << 40, INT64_MAX};
        int64_t x = odd[r.below(12)]; limits.push_back(x); return x;
    }
    int64_t window(bool seg) {
        int64_t x = r.range(1, 60) * (ch(0.3) ? 3600 : 1);
        if(ch(f.p_wide32)) { static const int64_t odd[] = {65535, 65536, 2147483647, 2147483648, 2147483660, 4294967295, 4294967296, 4294967356, 9999999999, 1ll << 40}; x = odd[r.below(10)]; if(seg && ch(0.1)) x = -r.range(1, 80); }
        if(windows.size() < 40) windows.push_back(x);
        return x;
    }
    int64_t stamp() { // microseconds around some clock reading
        int64_t t = pick(times);
        if(ch(0.06)) { static const int64_t odd[] = {0, 1, -1, 2147483647, 2147483648, 4294967295, 4294967296, -2147483648ll, 100000000000ll}; return (odd[r.below(9)] + (ch(0.5) ? 0 : t)) * 1000000 + r.range(-3, 3); }
        int64_t d = !windows.empty() && ch(0.3) ? r.range(-1, 1) - pick(windows) : ch(0.5) ? r.range(-70, 70) : r.range(-61, 61) * 3600;
        return (t + d) * 1000000 + (ch(0.3) ? r.range(0, 999999) : 0);
    }
    int64_t int_value(int v) {
        const VarDef& d = p.configs[0].vars[v];
        if(d.name == "now") return pick(times) + (ch(0.4) ? r.range(-2, 2) : 0);
        int64_t x;
        if(!hoti[v].empty() && ch(0.3)) return pick(hoti[v]);
        if(ch(0.15)) { std::vector<int64_t> l; std::vector<std::string> s; consts_in(v, l, s); if(!l.empty()) return pick(l); }
        if(ip[v].empty()) x = r.range(-5, 5); else x = pick(ip[v]);
        if(!ch(0.5)) { int64_t k = r.range(-3, 3); if(x < INT64_MAX - 10 && x > INT64_MIN + 10) x += k; }
        if(ch(f.p_alias)) x = alias(x);
        else if(ch(f.p_oob)) {
            if(d.bounded && ch(0.6)) { if(ch(0.5)) { if(d.lo > INT64_MIN + 1000) x = d.lo - r.range(1, 9); } else if(d.hi < INT64_MAX - 1000) x = d.hi + r.range(1, 9); }
            else if(ch(0.4)) x = ch(0.5) ? INT64_MAX - (int64_t)r.below(2) : INT64_MIN + 1 + (int64_t)r.below(2);
            else x = r.range(-3000, 3000);
        }
        else if(d.bounded) x = std::max(d.lo, std::min(d.hi, x));
        return x;
    }
    // constants one of the expressions compares the variable with
    void consts_in(int v, std::vector<int64_t>& l, std::vector<std::string>& s) {
        if(p.exprs.empty()) return;
        std::vector<const Expr*> st{pick(p.exprs).get()};
        while(!st.empty()) {
            auto* e = st.back(); st.pop_back(); for(auto& k : e->kid) st.push_back(k.get());
            if(e->var != v) continue;
            if(e->k == E_SETL || e->k == E_LIST) { l.insert(l.end(), e->il.begin(), e->il.end()); s.insert(s.end(), e->sl.begin(), e->sl.end()); }
            else if(e->k == E_EQ || e->k == E_CMP || e->k == E_SETV) { l.push_back(e->a); if(!e->s.empty()) s.push_back(e->s); }
        }
    }
    std::string str_value(int v) {
        if(!hots[v].empty() && ch(0.3)) return pick(hots[v]);
        if(ch(0.15)) { std::vector<int64_t> l; std::vector<std::string> s; consts_in(v, l, s); if(!s.empty()) return pick(s); }
        return str_any(v);
    }
    std::map<int, std::vector<std::string>> pats; // what the string functions on each variable look for
    std::string pattern(int v) { for(;;) { std::string s = pattern1(v); if(text_ok(s)) return s; } }
    std::string pattern1(int v) {
        std::string s = STRS[r.below(sizeof STRS / sizeof *STRS)];
        if(ch(0.35)) { static const char* rep[] = {"aab", "aaa", "abab", "abac", "aa", "ba", "abcab"}; return rep[r.below(7)]; }
        if(!sp[v].empty() && ch(0.4)) s = pick(sp[v]);
        if(s.size() > 3 && ch(0.8)) { size_t n = 1 + r.below(std::min<size_t>(s.size(), 6)); s = s.substr(ch(0.3) ? 0 : ch(0.5) ? s.size() - n : r.below(s.size() - n + 1), n); }
        return s;
    }
    // a string around a pattern: holds it, just misses it, holds it more than once, overlaps itself
    std::string around(const std::string& q) {
        std::string a = ch(0.5) ? "" : ch(0.5) ? q.substr(0, r.below(q.size() + 1)) : "x", b = ch(0.5) ? "" : ch(0.5) ? q.substr(q.size() - r.below(q.size() + 1)) : "x", m = q;
        if(ch(0.2) && !m.empty()) m[r.below(m.size())] = ch(0.5) ? 'b' : 'A';
        if(ch(0.1) && !m.empty()) m.pop_back();
        if(ch(0.1)) m += q;
        return a + m + b;
    }
    std::string str_any(int v) { if(!pats[v].empty() && ch(0.35)) return around(pick(pats[v])); return ch(0.8) && !sp[v].empty() ? pick(sp[v]) : (ch(0.5) ? std::string("unseen") : std::string(STRS[r.below(sizeof STRS / sizeof *STRS)])); }

    Event event() { geo_ref = nullptr;
        const Config& c = p.configs[0];
        Event e;
        std::vector<int> order; for(size_t i = 0; i < c.vars.size(); i++) order.push_back((int)i);
        if(ch(0.6)) for(size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
        bool complete = f.p_undef < 0.4 ? ch(0.6) : ch(0.9);
        double miss = ch(0.3) ? 0.85 : f.p_missing;
        for(int v : order) {
            const VarDef& d = c.vars[v];
            bool drop = d.undef ? ch(miss) : (!complete && ch(0.3));
            if(d.name.rfind("filler", 0) == 0 && ch(0.6)) drop = d.undef;
            if(drop) { if(ch(f.p_null)) { Val n; n.ty = -1; e.vals.push_back({v, n}); } continue; }
            e.vals.push_back({v, value(v)});
        }
        if(ch(f.p_style)) e.style = (int)r.below(16);
        if(ch(0.4 * f.p_style)) e.style |= 64;
        if(ch(f.p_dupval)) e.style |= 16 << r.below(2);
        if(ch(0.25 * f.p_style)) e.style |= 512 | (int)r.below(1 << 14) << 16;
        return e;
    }
    Event mutate(const Event& b) { geo_ref = nullptr;
        Event e = b;
        if(e.vals.empty()) return event();
        int n = (int)r.range(1, 2);
        for(int i = 0; i < n; i++) {
            size_t k = r.below(e.vals.size());
            int v = e.vals[k].first;
            if(p.configs[0].vars[v].undef && ch(0.3)) { e.vals.erase(e.vals.begin() + k); if(e.vals.empty()) return e; }
            else e.vals[k].second = value(v);
        }
        return e;
    }

    // ------------------------------------------------------------ operations
    int add_consts() {
        // enough constants for every frequency predicate, sometimes with spare ones
        Consts k; for(auto* n : FCONST) k.push_back({n, pick(capids)});
        if(ch(0.2)) { // and others that are no business of any predicate
            static const char* other[] = {"flight", "flight_id2", "flight_i", "_id", "campaign", "campaign_group", "campaign_idx", "campaign_group_id_", "product_", "advertiser", "advertiser_id_ip", "Flight_id", "PRODUCT_ID", "", "id", "a"};
            int n = (int)r.range(1, ch(0.2) ? 70 : 5); for(int i = 0; i < n; i++) { std::string w = other[r.below(16)]; if(i > 3) w += std::to_string(i); bool dup = false; for(auto& q : k) dup |= q.first == w; if(!dup) k.push_back({w, r.range(1, 60)}); }
        }
        for(size_t i = k.size(); i > 1; i--) std::swap(k[i - 1], k[r.below(i)]);
        p.consts.push_back(k); return (int)p.consts.size() - 1;
    }
    uint64_t new_id() {
        if(!used_ids.empty() && ch(f.p_dup)) return pick(used_ids);
        uint64_t id = next_id++;
        if(ch(0.03)) id = ~0ull - id; else if(ch(0.03)) id = (1ull << 40) + id;
        else if(!used_ids.empty() && ch(0.06)) { // agrees with another id in its low or high bits
            uint64_t o = pick(used_ids) ^ (1ull << (ch(0.6) ? 32 : ch(0.5) ? 63 : r.below(64)));
            if(std::find(used_ids.begin(), used_ids.end(), o) == used_ids.end()) id = o;
        }
        else if(ch(0.01) && std::find(used_ids.begin(), used_ids.end(), 0ull) == used_ids.end()) id = 0;
        used_ids.push_back(id); return id;
    }
    bool has_freq(const Expr& e) { if(e.k == E_FREQ) return true; for(auto& k : e.kid) if(has_freq(*k)) return true; return false; }
    Op insert_op(int tree, int expr, uint64_t id) {
        Op o; o.k = OP_INSERT; o.tree = tree; o.expr = expr; o.id = id; o.path = (int)r.below(2);
        if(has_freq(*p.exprs[expr]) || (!p.consts.empty() && ch(0.05))) { o.consts = p.consts.empty() || ch(0.4) ? add_consts() : (int)r.below(p.consts.size()); o.path = 1; }
        return o;
    }
    void faults(Op& o, bool allow_crash = true) {
        if(ch(f.p_alloc)) { o.fault.first = (int64_t)logu(o.k == OP_SEARCH || o.k == OP_EXISTS ? 120 : 260) - 1; o.fault.count = ch(0.6) ? 1 : ch(0.5) ? (int64_t)r.range(2, 4) : 1000000; }
        else if((o.k == OP_SEARCH || o.k == OP_EXISTS) && ch(f.p_kill)) o.kill_at = logu(3000);
        else if(allow_crash && ch(f.p_crash)) o.crash_at = logu(6000);
    }
    Op bad_op(int tree) {
        const Config& c = p.configs[p.trees[tree]];
        Op o; o.k = OP_BAD; o.tree = tree; o.id = 900000 + r.below(1000);
        std::string base = "true"; int be = -1;
        if(!p.exprs.empty()) { be = (int)r.below(p.exprs.size()); base = render(*p.exprs[be], c, p.expr_style[be]); }
        bool prep = mode == 1 || mode == 3;
        bool freq = be >= 0 && has_freq(*p.exprs[be]);
        if(ch(f.p_fresh)) { // values the rest of the history does not mention
            std::vector<int> vs; for(size_t i = 0; i < c.vars.size(); i++) { int ty = c.vars[i].ty; if(ty == T_STR || ty == T_SL || ty == T_ENUM) vs.push_back((int)i); }
            if(!vs.empty()) {
                std::string x; int n = (int)r.range(1, 3);
                for(int i = 0; i < n; i++) {
                    const VarDef& d = c.vars[pick(vs)];
                    std::string val = d.ty == T_ENUM ? std::to_string(700 + fresh++ % 50) : "\"new" + std::to_string(fresh++ % 50) + "\"";
                    if(i) x += ch(0.5) ? " and " : " or ";
                    if(d.ty == T_SL) x += ch(0.5) ? val + " in " + d.name : d.name + " one of (" + val + ")";
                    else if(d.ty == T_STR && ch(0.4)) x += d.name + " in (" + val + ")";
                    else x += d.name + (ch(0.7) ? " = " : " <> ") + val;
                }
                if(ch(0.7)) { base = x; freq = false; be = -1; } else base = "(" + base + ") and (" + x + ")";
            }
        }
        int kind = (int)r.below(4);
        o.path = (int)r.below(2); if(prep && ch(0.5)) o.path = 2; if(mode == 2 && ch(0.3)) o.path = 3;
        if(freq) { o.consts = p.consts.empty() ? add_consts() : (int)r.below(p.consts.size()); if(o.path == 0) o.path = 1; }
        if(kind == 1 && have_freq && o.path != 3) {
            o.bad = BAD_MISSING_CONST; o.consts = -1; o.path = o.path == 2 ? 2 : (int)r.below(2);
            auto e = mk(E_FREQ); e->s = FTYPES[r.below(10)]; e->ns = pick(ns); e->a = 1; e->b = 10;
            std::string fx = render(*e, c, 0);
            if(ch(0.4)) { // a constant is given, but not the one this predicate needs
                const char* need = freq_constant(e->s); Consts k; for(auto* n : FCONST) if(strcmp(n, need) && ch(0.7)) k.push_back({n, 1});
                bool ok = true; if(be >= 0 && has_freq(*p.exprs[be])) ok = true;
                if(ok && !k.empty()) { p.consts.push_back(k); o.consts = (int)p.consts.size() - 1; o.path = o.path == 2 ? 2 : 1; }
            }
            o.raw = ch(0.5) ? fx : ch(0.5) ? "(" + base + ") and " + fx : fx + " or (" + base + ")";
        }
        else if(kind == 2) {
            o.bad = BAD_UNKNOWN_VAR;
            static const char* u[] = {"nobody", "nobody > 3", "nobody = \"a\"", "nobody in (1, 2)", "nobody one of (1, 2)", "not nobody", "nobody is null", "contains(nobody, \"a\")", "3 in nobody", "nobody <> 2", "nobody is empty", "segment_before(nobody, 1, 20)"};
            std::string x = u[r.below(12)];
            if(c.find("now") < 0 && x.rfind("segment", 0) == 0) x = "nobody";
            if(ch(0.25) && c.find("latitude") < 0) x = "geo_within_radius(10, 20, 30)";
            else if(ch(0.25) && c.find("frequency_caps") < 0) { x = "within_frequency_cap(\"flight\", \"n\", 1, 20)"; }
            else if(ch(0.25) && (c.find("now") < 0 || c.find("segments_with_timestamp") < 0)) x = "segment_within(1, 20)";
            o.raw = ch(0.4) ? x : ch(0.5) ? "(" + base + ") and " + x : x + " or (" + base + ")";
        }
        else if(kind == 3 && prep) {
            // ill-typed use of a declared variable: only the two-phase path validates types
            std::vector<std::string> cand;
            for(auto& v : c.vars) {
                if(v.ty == T_BOOL) { cand.push_back(v.name + " > 3"); cand.push_back(v.name + " in (1, 2)"); }
                if(v.ty == T_INT) { cand.push_back(v.name + " = \"a\""); cand.push_back(v.name); cand.push_back(v.name + " one of (1, 2)"); }
                if(v.ty == T_STR) { cand.push_back(v.name + " > 3"); cand.push_back(v.name + " one of (\"a\")"); }
                if(v.ty == T_IL) { cand.push_back(v.name + " = 3"); cand.push_back(v.name); }
                if(v.ty == T_ENUM) cand.push_back(v.name + " > 3");
            }
            if(cand.empty()) { o.bad = BAD_SYNTAX; o.raw = "(" + base; }
            else { o.bad = BAD_TYPE; o.path = 2; o.raw = ch(0.5) ? pick(cand) : pick(cand) + " and true"; }
        }
        else {
            o.bad = BAD_SYNTAX;
            switch(r.below(9)) {
                case 0: o.raw = "(" + base; break;
                case 1: o.raw = "(" + base + "))"; break;
                case 2: o.raw = "(" + base + ") and"; break;
                case 3: o.raw = "and (" + base + ")"; break;
                case 4: o.raw = "(" + base + ") (" + base + ")"; break;
                case 5: o.raw = ""; break;
                case 6: o.raw = "(" + base + ") or not"; break;
                case 7: o.raw = "(" + base + ") and ("; break;
                default: o.raw = "(" + base + ") $ true"; break;
            }
        }
        return o;
    }
    Op torn_op(int tree) {
        const Config& c = p.configs[p.trees[tree]];
        Op o; o.k = OP_TORN; o.tree = tree; o.path = (int)r.below(2);
        const Event& e = p.events[r.below(p.events.size())];
        std::string t = representable(e) ? render(e, c) : std::string("{}");
        size_t cut = r.below(t.rfind('}')); // strictly before the closing brace
        int how = (int)r.below(8);
        if(how < 5 || t.size() < 3) o.raw = t.substr(0, cut);
        else if(how == 5) { // something follows the event
            static const char* more[] = {"}", "]", "{}", ",", "x", "\"a\": 1}", "{", ":", "null", "true", "1", " }", "\n]", "[]", "\""};
            o.raw = t + more[r.below(15)];
            if(ch(0.15)) o.raw = t + t;
        }
        else if(how == 6 && t.find('\\') == std::string::npos && (t.find('"') == std::string::npos || t.find('\'') == std::string::npos)) { // a bracket or quote too many or too few
            std::vector<size_t> st; char q = 0;
            for(size_t i = 0; i < t.size(); i++) { if(q) { if(t[i] == q) q = 0; } else if(t[i] == '"' || t[i] == '\'') { q = t[i]; st.push_back(i); } else if(strchr("{}[]", t[i])) st.push_back(i); }
            size_t at = pick(st); o.raw = t;
            if(strchr("{}[]", t[at]) && ch(0.5)) o.raw.insert(at + r.below(2), 1, "{}[]"[r.below(4)]);
            else o.raw.erase(at, 1);
        }
        else { // a damaged byte at a structural position (never inside a quoted string)
            std::vector<size_t> st; char q = 0;
            for(size_t i = 0; i < t.size(); i++) {
                if(q) { if(t[i] == '\\') i++; else if(t[i] == q) q = 0; }
                else if(t[i] == '"' || t[i] == '\'') q = t[i];
                else if(strchr("{}[]:,", t[i])) st.push_back(i);
            }
            o.raw = t; size_t at = pick(st); char& x = o.raw[at];
            switch(r.below(6)) {
                case 0: x = "@;%~!?\x01\r\x80\xff"[r.below(10)]; break;
                case 1: case 2: { char w; do w = "{}[]"[r.below(4)]; while(w == x); x = w; break; } // one bracket or separator for another
                case 3: if(x == ',') x = ch(0.5) ? ':' : ' '; else if(x == ':') x = ch(0.5) ? ',' : ' '; else x = ",:"[r.below(2)]; break;
                case 4: if(x == ',' || x == ':') o.raw.insert(at, 1, x); else o.raw.insert(at + r.below(2), 1, ','); break; // a comma too many
                default: x = "@;%~!"[r.below(5)];
            }
        }
        return o;
    }
    Op search_op(int tree) {
        Op o; o.tree = tree; o.event = (int)r.below(p.events.size());
        double w[2] = {f.w_search, f.w_exists};
        o.k = weighted(w, 2) ? OP_EXISTS : OP_SEARCH;
        if(ch(f.p_api)) o.rep = ch(f.p_reuse) ? (p.trees.size() > 1 && ch(0.5) ? 3 : 2) : 1;
        if(o.k == OP_SEARCH && ch(f.p_report)) o.report = 1;
        return o;
    }

    void schedule() {
        static const uint32_t gaps[] = {4, 15, 60, 250, 1000, 4000};
        p.sched.seed = r.next(); p.sched.mean_gap = gaps[r.below(6)];
        if(p.clients.size() > 1 && ch(f.p_stall)) { p.sched.stall_fiber = (int)r.range(1, (int64_t)p.clients.size() - 1); p.sched.stall_from = logu(20000); p.sched.stall_len = logu(60000); }
    }

    void run() {
        big = ch(f.p_many);
        capacity = ch(f.p_capacity);
        crowd = ch(f.p_crowd); if(crowd) { big = false; f.p_crash = std::min(f.p_crash, 0.004); f.p_alloc = std::min(f.p_alloc, 0.006); f.p_conc *= 0.3; f.p_two_trees *= 0.3; f.p_bigpool = 0; f.p_biglist *= 0.2; }
        double mw[4] = {f.mode_a, f.mode_b, f.mode_c, f.mode_d};
        mode = weighted(mw, 4);
        spread = !crowd && !capacity && ch(f.p_spread); census = spread && ch(0.3); if(spread) { big = false; f.p_conc *= 0.3; f.p_crash = std::min(f.p_crash, 0.004); f.p_alloc = std::min(f.p_alloc, 0.006); }
        if(capacity) mode = 0;
        shrink = mode != 0 && ch(f.p_shrink);
        if(shrink && ch(0.6)) { f.vmin = 1; f.vmax = 2; f.ty[T_INT] *= 4; f.ty[T_FLOAT] *= 2; f.emin += 8; f.emax += 8; f.p_freq *= 0.3; f.p_seg *= 0.3; f.p_geo *= 0.3; }
        if(shrink && mode == 2) f.p_alloc = f.p_crash = 0; // a restart would insert without preparing
        static const uint8_t fills[] = {0xA5, 0x00, 0xFF, 0x01, 0x5A};
        p.fill = fills[r.below(5)]; p.inplace = (int)r.below(2) + 2 * (ch(0.6) ? 0 : (int)r.range(1, 2));
        // clock: mostly moves forward, sometimes jumps back or leaps years
        int64_t t = 1500000000 + r.range(0, 100000000);
        int nt = (int)r.range(2, 6);
        for(int i = 0; i < nt; i++) {
            times.push_back(t);
            if(ch(f.p_jump * 0.1)) { static const int64_t odd[] = {0, 2147483647, 2147483648, 4000000000, 1ll << 31, 3700000000}; times.push_back(odd[r.below(6)]); }
            if(ch(f.p_jump)) { p.clock_jumps++; t += ch(0.5) ? -r.range(1, 4000) : (ch(0.3) ? r.range(86400, 86400 * 3000) : r.range(1, 100)); if(ch(0.05)) t = r.range(0, 100); }
            else t += r.range(0, 90);
        }
        p.clock_span = *std::max_element(times.begin(), times.end()) - *std::min_element(times.begin(), times.end());
        int ks = (int)r.range(1, ch(0.7) ? 3 : 8); for(int i = 0; i < ks; i++) segids.push_back(r.range(1, ks > 3 ? 12 : 6));
        if(ch(0.1)) segids.push_back(r.range(-5, -1));
        if(ch(f.p_alias)) segids.push_back(alias(segids[0]));
        for(int i = 0; i < 2; i++) capids.push_back(r.range(1, 40));
        if(ch(0.1)) capids.push_back(4000000000ll);
        if(ch(f.p_alias)) { int64_t a = capids[0] + ((int64_t)1 << (8 + 8 * r.below(3))); capids.push_back(a); }
        ns = {"ns", "", "other"}; ns.resize(r.range(1, 3));
        if(ch(f.p_look)) ns = lookalikes(r);
        make_config();
        if(spread && ch(0.8)) { p.configs[0].dflt = false; p.configs[0].cap = r.range(1, 3); p.configs[0].part = r.range(0, 1); }
        for(auto& s : sp) if(s.size() > 10) { f.p_biglist = std::max(f.p_biglist, 0.4); f.p_near = std::max(f.p_near, 0.25); }
        p.trees.push_back(0);
        if(ch(f.p_two_trees)) {
            if(ch(f.p_vary_cfg)) { Config c = p.configs[0]; vary(c); p.configs.push_back(c); p.trees.push_back(1); }
            else p.trees.push_back(0);
            if(ch(0.15)) p.trees.push_back(0);
            if(!crowd && !spread && !big && ch(f.p_forest)) { for(int i = (int)r.range(2, 16); i > 0; i--) p.trees.push_back((int)r.below(p.configs.size())); f.emax = std::min(f.emax, 8); f.emin = std::min(f.emin, 3); }
        }
        int ne = (int)r.range(f.emin, big ? f.emax * 4 : f.emax);
        ExprP crowd_base, twin;
        if(crowd) { ne = (int)(ch(0.08) ? r.range(1000, 2200) : r.range(240, 620)); crowd_base = expr((int)r.below(3)); }
        std::vector<int> wide; if(spread) for(size_t i = 0; i < p.configs[0].vars.size(); i++) if(p.configs[0].vars[i].name.rfind("filler", 0) == 0) wide.push_back((int)i);
        if(census) { // one expression for each value
            wide.clear(); for(size_t i = 0; i < ip.size() && wide.empty(); i++) if((p.configs[0].vars[i].ty == T_ENUM && ip[i].size() > 250) || (p.configs[0].vars[i].ty == T_STR && sp[i].size() > 250)) wide.push_back((int)i);
        }
        std::vector<int> roll; if(census && !wide.empty()) { roll.resize(p.configs[0].vars[wide[0]].ty == T_STR ? sp[wide[0]].size() : ip[wide[0]].size()); for(size_t i = 0; i < roll.size(); i++) roll[i] = (int)i; if(ch(0.5)) for(size_t i = roll.size(); i > 1; i--) std::swap(roll[i - 1], roll[r.below(i)]); ne = (int)(roll.size() + r.below(30)); }
        else if(spread) ne = (int)wide.size() + (int)r.range(0, 2 * (int)wide.size());
        for(int i = 0; i < ne; i++) {
            ExprP e;
            if(i < (int)roll.size()) { auto b = mk(E_EQ); int v = b->var = wide[0]; b->op = 0; if(p.configs[0].vars[v].ty == T_STR) b->s = sp[v][roll[i]]; else b->a = ip[v][roll[i]]; e = b; if(ch(0.05)) { auto n = mk(E_NOT); n->kid.push_back(b); e = n; } }
            else if(!census && spread && (i < (int)wide.size() || ch(0.9))) {
                int v = i < (int)wide.size() ? wide[i] : pick(wide); EP b;
                if(p.configs[0].vars[v].ty == T_BOOL) { b = mk(E_BOOL); b->var = v; }
                else { b = mk(ch(0.5) ? E_EQ : E_CMP); b->var = v; b->a = pick(ip[v]); b->op = b->k == E_EQ ? 0 : ch(0.5) ? LE : GE; }
                if(ch(0.15)) { auto n = mk(E_NOT); n->kid.push_back(b); b = n; }
                e = b;
            }
            else if(crowd) e = i % 16 == 15 ? expr(1) : i % 16 < 2 || i < 2 ? near_copy(*crowd_base) : crowd_base;
            else if(ch(f.p_chain)) {
                std::vector<ExprP> old; for(auto& x : p.exprs) if(x->kid.size() > 8) old.push_back(x);
                if(ch(0.3)) e = nest();
                else if(old.empty() || ch(0.3)) e = chain();
                else if(ch(0.5)) e = ch(0.4) ? pick(old) : near_copy(*pick(old));
                else { auto b = clone(*pick(old)); if(ch(0.5)) b->kid.insert(b->kid.begin(), leaf()); else b->kid[0] = leaf(); e = b; }
            }
            else if(twin) { e = near_copy(*twin); twin.reset(); }
            else if(!p.exprs.empty() && ch(f.p_near)) {
                const ExprP& from = pick(p.exprs);
                if(ch(0.5)) { // a predicate on its own, and next its twin
                    EP c = clone(*from); std::vector<Expr*> ls; leaves(*c, ls); std::vector<Expr*> big2; for(auto* l : ls) if(l->il.size() + l->sl.size() > 8) big2.push_back(l);
                    e = clone(*pick(!big2.empty() && ch(0.7) ? big2 : ls)); if(ch(0.7)) twin = e;
                }
                else e = near_copy(*from);
            }
            else if(!p.exprs.empty() && ch(f.p_related)) {
                auto b = mk(ch(0.5) ? E_AND : E_OR); ExprP x = p.exprs[r.below(p.exprs.size())];
                if(expr_size(*x) > 14) e = expr(f.depth);
                else if(ch(0.3)) { auto n = mk(E_NOT); n->kid.push_back(x); e = n; }
                else { b->kid.push_back(x); b->kid.push_back(leaf()); if(ch(0.5)) std::swap(b->kid[0], b->kid[1]); e = b; }
            }
            else e = expr((int)r.range(0, f.depth));
            p.exprs.push_back(e);
            p.expr_style.push_back(ch(f.p_style) ? (int)r.below(64) : 0);
            if(ch(0.3 * f.p_style)) { int m = (int)r.below(8) << 6; if((m & 256) && ch(0.6)) m &= ~256; p.expr_style.back() |= m | (ch(0.7) ? 512 : 0) | (ch(0.25) ? 32768 : 0) | (int)r.below(1 << 14) << 16; }
        }
        int nev = (int)r.range(f.evmin, big ? f.evmax * 2 : f.evmax);
        for(int i = 0; i < nev; i++) {
            Event e = !p.events.empty() && ch(0.45) ? mutate(pick(p.events)) : event();
            for(int tries = 0; tries < 20; tries++) {
                bool near = false; Env env(p.configs[0], e);
                for(auto& x : p.exprs) if(geo_near_threshold(*x, p.configs[0], env)) near = true;
                if(!near) break;
                e = event();
                if(tries == 19) { // give up on coordinates
                    std::vector<std::pair<int, Val>> v; for(auto& q : e.vals) { auto& n = p.configs[0].vars[q.first].name; if(n != "latitude" && n != "longitude") v.push_back(q); } e.vals = v;
                }
            }
            p.events.push_back(e);
        }
        // clients
        int nc = 1; if(ch(f.p_conc)) nc = 1 + (int)r.range(f.cmin, f.cmax);
        if(nc > rt::MAXF) nc = rt::MAXF;
        p.races = nc > 1;
        p.clients.resize(nc);
        int nt2 = (int)p.trees.size();
        std::vector<Op>& c0 = p.clients[0];
        auto tail = [&](std::vector<Op>& dst, Op o) { faults(o); dst.push_back(o); };
        std::vector<std::pair<int, Op>> later; // inserts left to the concurrent phase
        int slot = 0;
        // every expression goes to every tree, in a different order per tree
        std::vector<Op> ins;
        std::vector<uint64_t> idof; for(int i = 0; i < ne; i++) idof.push_back(new_id());
        std::vector<int> okslots;
        if(mode == 1) {
            std::vector<Op> second;
            for(int tr = 0; tr < nt2; tr++) {
                std::vector<int> ord; for(int i = 0; i < ne; i++) ord.push_back(i);
                for(size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
                for(int e : ord) {
                    Op a = insert_op(tr, e, idof[e]); a.k = OP_MAKESUB; a.slot = slot; a.path = 2; tail(c0, a);
                    if(ch(0.04)) { slot++; continue; } // prepared, never inserted
                    Op b; b.k = OP_INSERTSUB; b.tree = tr; b.slot = slot; second.push_back(b); slot++;
                }
            }
            if(ch(0.7)) for(size_t i = second.size(); i > 1; i--) std::swap(second[i - 1], second[r.below(i)]);
            ins = second;
        }
        else {
            if(mode == 2) for(int tr = 0; tr < nt2; tr++) for(int e = 0; e < ne; e++) { Op o; o.k = OP_CHANGEB; o.tree = tr; o.expr = e; tail(c0, o); }
            for(int tr = 0; tr < nt2; tr++) {
                std::vector<int> ord; for(int i = 0; i < ne; i++) ord.push_back(i);
                if(tr > 0 || ch(0.5)) for(size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
                for(int e : ord) {
                    Op a = insert_op(tr, e, idof[e]);
                    if(mode == 3 && (shrink || ch(0.45))) { a.k = OP_MAKESUB; a.slot = slot; a.path = 2; ins.push_back(a); Op b; b.k = OP_INSERTSUB; b.tree = tr; b.slot = slot; ins.push_back(b); slot++; }
                    else if(mode == 3 && ch(0.08)) { Op q; q.k = OP_CHANGEB; q.tree = tr; q.expr = e; ins.push_back(q); ins.push_back(a); }
                    else ins.push_back(a);
                }
            }
            if(nt2 > 1 && mode != 3) for(size_t i = ins.size(); i > 1; i--) std::swap(ins[i - 1], ins[r.below(i)]);
        }
        double hold = nc > 1 && f.w_insert > 0 ? (ch(0.6) ? 0.3 * std::min(1.0, f.w_insert) : 0) : 0;
        Op prev; bool have_prev = false;
        // what a tree is after it was dropped and made again: the same variables, declared in another order
        std::vector<int> again(nt2, -1);
        for(int tr = 0; tr < nt2; tr++) if(ch(0.5)) { Config c = p.configs[p.trees[tr]]; c.dflt = false; layout(c); c.order = (c.order & 1 << 20) | (int)r.range(1, 1000); again[tr] = (int)p.configs.size(); p.configs.push_back(c); }
        auto mixed = [&](std::vector<Op>& dst, int tr) {
            if(have_prev && ch(f.p_repeat)) { Op o = prev; o.fault = rt::AllocFault(); o.kill_at = o.crash_at = 0; faults(o); dst.push_back(o); return; }
            double w[4] = {f.w_search + f.w_exists, f.w_bad, f.w_torn, (mode == 0 || mode == 3) && dst.size() > 3 ? f.w_drop : 0};
            switch(weighted(w, 4)) {
                case 0: { Op o = search_op(tr); prev = o; have_prev = true; tail(dst, o); break; }
                case 1: tail(dst, bad_op(tr)); break;
                case 2: tail(dst, torn_op(tr)); break;
                default: { Op o; o.k = OP_DROP; o.tree = tr; o.path = again[tr] < 0 ? 0 : ch(0.3) ? p.trees[tr] + 1 : again[tr] + 1; dst.push_back(o); break; }
            }
        };
        std::vector<std::pair<int, int>> keep;
        bool keep_shared = ch(0.4);
        if(ch(f.p_keep)) for(int i = (int)r.range(1, 2); i > 0; i--) keep.push_back({(int)r.below(nt2), (int)r.below(p.events.size())});
        auto kept = [&](std::vector<Op>& dst) { for(auto& k : keep) if(ch(0.5)) { Op o; o.k = ch(0.8) ? OP_SEARCH : OP_EXISTS; o.tree = ch(0.4) ? (int)r.below(nt2) : k.first; o.event = k.second; o.rep = o.tree == k.first ? 2 : 3; if(keep_shared) o.rep = 3; tail(dst, o); } };
        double keep_at = crowd ? 0.02 : big ? 0.15 : 0.6;
        kept(c0);
        for(size_t i = 0; i < ins.size(); i++) {
            if(!keep.empty() && ch(keep_at)) kept(c0);
            if(mode != 3 && ch(hold)) { later.push_back({0, ins[i]}); continue; }
            tail(c0, ins[i]);
            double pm = crowd ? 0.01 : big ? 0.12 : 0.35;
            while(ch(pm)) mixed(c0, (int)r.below(nt2));
        }
        kept(c0);
        if(ch(f.p_marathon) && !crowd) { // some counters are only eight, nine or ten bits wide
            int n = (ch(0.2) ? 1030 : ch(0.5) ? 515 : 260) + (int)r.range(0, 6); std::vector<Op> some; int ks = (int)r.range(1, 12);
            for(int i = 0; i < ks; i++) some.push_back(search_op((int)r.below(nt2)));
            int tree = (int)r.below(nt2); bool one = ch(0.5);
            for(int i = 0; i < n; i++) { Op o = pick(some); if(one) o.tree = tree; if(o.rep >= 2 && one) o.rep = 2; c0.push_back(o); }
        }
        if(ch(f.p_gap) && !crowd && !p.events.empty()) { // a few calls, nearly as many idle ones as a counter can hold, the same few calls
            int tr = (int)r.below(nt2), wide = ch(f.p_long) && ins.size() < 12; int64_t turn = wide ? 65536 : ch(0.5) ? 256 : ch(0.5) ? 128 : ch(0.5) ? 512 : 1024;
            std::vector<Op> some; for(int i = (int)r.range(1, 9); i > 0; i--) { Op o = search_op(tr); if(o.rep == 3) o.rep = 2; o.tree = tr; some.push_back(o); }
            Op idle = search_op(tr); idle.tree = tr; if(idle.rep >= 2) idle.rep = (int)r.below(2);
            auto weight = [&](const Event& e) { size_t n = 8; for(auto& v : e.vals) n += 12 + v.second.s.size() + 8 * (v.second.il.size() + v.second.seg.size() + 2 * v.second.caps.size()) + [&] { size_t m = 0; for(auto& s : v.second.sl) m += 4 + s.size(); return m; }(); return n; };
            for(size_t e = 0; e < p.events.size(); e++) if(weight(p.events[e]) < weight(p.events[idle.event])) idle.event = (int)e;
            size_t nodes = 0; for(auto& o : ins) if(o.expr >= 0) nodes += expr_size(*p.exprs[o.expr]);
            if(wide && (nodes > 80 || weight(p.events[idle.event]) > 200 || p.configs[p.trees[tr]].vars.size() > 12)) { wide = 0; turn = 256; }
            idle.report = 0; idle.times = (uint64_t)(turn - (int64_t)some.size() + (ch(0.5) ? 0 : r.range(-2, 2)));
            if(ch(0.85)) { for(auto& o : some) c0.push_back(o); c0.push_back(idle); for(size_t i = some.size(); i > 1; i--) std::swap(some[i - 1], some[r.below(i)]); for(auto& o : some) c0.push_back(o); }
            else if(!capacity && mode == 0) { // trees come and go as often
                Op o; o.k = OP_DROP; o.tree = tr; o.path = again[tr] < 0 || ch(0.5) ? 0 : again[tr] + 1; o.times = wide ? 65536 : p.configs[p.trees[tr]].vars.size() > 20 ? 256 : (uint64_t)turn;
                c0.push_back(o); for(auto& x : ins) if(x.tree == tr && x.k == OP_INSERT && x.fault.first < 0) c0.push_back(x);
            }
        }
        if(ch(f.p_churn) && !crowd && !capacity && mode == 0 && !ins.empty()) {
            int n = (ch(0.2) ? 257 : ch(0.5) ? 65 : 17) + (int)r.range(0, 3), tr = (int)r.below(nt2); std::vector<Op> mine; for(auto& o : ins) if(o.tree == tr) mine.push_back(o);
            for(int i = 0; i < n && !mine.empty(); i++) {
                Op o; o.k = OP_DROP; o.tree = tr; o.path = again[tr] < 0 || ch(0.4) ? 0 : ch(0.5) ? p.trees[tr] + 1 : again[tr] + 1; c0.push_back(o);
                for(int j = (int)r.range(0, 3); j > 0; j--) c0.push_back(pick(mine));
                if(ch(0.7)) c0.push_back(search_op(tr));
            }
        }
        int extra = (int)r.range(0, nc > 1 ? 1 : 4);
        for(int i = 0; i < extra; i++) mixed(c0, (int)r.below(nt2));
        for(int c = 1; c < nc; c++) {
            int n = (int)r.range(f.opmin, f.opmax); if(thorough && ch(0.3)) n *= 2;
            for(int i = 0; i < n; i++) {
                if(!later.empty() && ch(0.35)) { tail(p.clients[c], later.back().second); later.pop_back(); }
                else mixed(p.clients[c], (int)r.below(nt2));
            }
        }
        for(auto& l : later) tail(p.clients[1 + r.below(nc - 1)], l.second);
        p.rebuild_perm = ch(0.6) ? (int)r.range(1, 1000) : 0;
        p.rebuild_path = shrink ? (int)(mode != 2) : mode == 1 || mode == 3 ? (int)r.below(3) : 0;
        if(capacity) { p.rebuild_path = 0; p.rebuild_perm = 0; }
        if(shrink) for(auto& c : p.configs) for(auto& v : c.vars) if(v.bounded && (v.ty == T_INT || v.ty == T_IL || v.ty == T_FLOAT) && v.name != "now" && v.name != "latitude" && v.name != "longitude" && v.lo < v.hi && (v.ty != T_FLOAT || (!huge(v.lo) && !huge(v.hi)) || (huge(v.lo) && huge(v.hi) && (v.lo > 0) == (v.hi > 0))) && ch(0.7)) {
            uint64_t span = (uint64_t)v.hi - (uint64_t)v.lo, cut = r.below(4) == 0 ? span : r.below(span / 2 + 1), at = r.below(span - cut + 1);
            if(ch(0.3)) at = 0; else if(ch(0.3)) at = span - cut;
            v.lo = (int64_t)((uint64_t)v.lo + at); v.hi = (int64_t)((uint64_t)v.lo + cut);
        }
        schedule();
        p.sweep = 1;
    }
};
} // namespace

static const std::vector<std::string> PROPS = [] { std::vector<std::string> v; for(int i = 1; i < 100; i++) { char b[8]; snprintf(b, sizeof b, "P%02d", i); Prof f; if(set_profile(b, f)) v.push_back(b); } return v; }();
const std::vector<std::string>& all_properties() { return PROPS; }
bool known_property(const std::string& prop) { Prof f; return set_profile(prop, f); }

Plan generate(const std::string& prop, uint64_t seed, bool thorough) {
    uint64_t h = seed; for(char c : prop) h = h * 1099511628211ull + (unsigned char)c;
    Gen g(h);
    set_profile(prop, g.f);
    g.p.prop = prop; g.p.seed = seed; g.thorough = thorough;
    g.run();
    return g.p;
}

uint64_t violation_mask(const std::string& id) {
    auto b = [](std::initializer_list<int> l) { uint64_t m = 0; for(int c : l) m |= 1ull << c; return m; };
    const uint64_t die = b({V_CRASH, V_HANG, V_MEM, V_DEADLOCK});
    const uint64_t answers = die | b({V_RESULT, V_EXISTS, V_ACCEPT});
    if(id == "P04") return die | b({V_EXISTS});
    if(id == "P05") return answers | b({V_RACE, V_VALIDATE, V_REPORT, V_DIVERGE});
    if(id == "P06") return answers | b({V_REPORT, V_DIVERGE});
    if(id == "P07") return answers | b({V_REFUSE, V_LEAK});
    if(id == "P08") return answers | b({V_REFUSE, V_VALIDATE, V_REPORT});
    if(id == "P09") return die | b({V_LEAK});
    if(id == "P11") return answers | b({V_VALIDATE});
    if(id == "P14") return answers | b({V_REPORT, V_DIVERGE});
    if(id == "P15") return die | b({V_VALIDATE, V_RESULT});
    if(id == "P16") return answers | b({V_REFUSE});
    if(id == "P18") return answers | b({V_DIVERGE});
    if(id == "P19") return die;
    if(id == "P20") return answers | b({V_RACE});
    if(id == "P21") return answers | b({V_REFUSE});
    if(id == "P25") return answers | b({V_VALIDATE});
    return answers;
}
