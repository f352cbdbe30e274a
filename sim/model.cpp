#include "model.h"
#include "rt.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>

Env::Env(const Config& c, const Event& e) : v(c.vars.size(), nullptr) {
    for(auto& p : e.vals) if(p.second.ty >= 0 && p.first < (int)v.size()) v[p.first] = &p.second;
}

bool required_defined(const Config& c, const Env& env) {
    for(size_t i = 0; i < c.vars.size(); i++) if(!c.vars[i].undef && !env.v[i]) return false;
    return true;
}

const char* freq_constant(const std::string& t) {
    if(t == "advertiser" || t == "advertiser:ip") return "advertiser_id";
    if(t == "campaign" || t == "campaign:ip") return "campaign_id";
    if(t == "campaign_group" || t == "campaign_group:ip") return "campaign_group_id";
    if(t == "flight" || t == "flight:ip") return "flight_id";
    if(t == "product" || t == "product:ip") return "product_id";
    return nullptr;
}

std::vector<int> Config::declared() const {
    std::vector<int> d; for(size_t i = 0; i < vars.size(); i++) d.push_back((int)i);
    if(order & 0xFFFFF) { Rng r((uint64_t)(order & 0xFFFFF)); for(size_t i = d.size(); i > 1; i--) std::swap(d[i - 1], d[r.below(i)]); }
    return d;
}

double geo_distance(double lat1, double lon1, double lat2, double lon2) {
    // great-circle distance on a sphere of radius 6372.8 km
    const double R = 6372.8, P = 3.1415926536 / 180;
    double a1 = lat1 * P, a2 = lat2 * P, d = (lon1 - lon2) * P;
    double x = std::sin((a1 - a2) / 2), y = std::sin(d / 2);
    double h = x * x + std::cos(a1) * std::cos(a2) * y * y;
    if(h > 1) h = 1;
    return 2 * R * std::asin(std::sqrt(h));
}

static int64_t get_const(const Consts& k, const std::string& type, bool& ok) {
    const char* n = freq_constant(type);
    ok = false;
    if(n) for(auto& p : k) if(p.first == n) { ok = true; return p.second; }
    return 0;
}

bool needs_consts_ok(const Expr& e, const Consts& k) {
    if(e.k == E_FREQ) { bool ok; get_const(k, e.s, ok); return ok; }
    for(auto& c : e.kid) if(!needs_consts_ok(*c, k)) return false;
    return true;
}

bool geo_near_threshold(const Expr& e, const Config& c, const Env& env) {
    if(e.k == E_GEO) {
        const Val* la = env.get(c.find("latitude")); const Val* lo = env.get(c.find("longitude"));
        if(!la || !lo) return false;
        if(fval(la->i) == e.a / 4.0 && fval(lo->i) == e.b / 4.0) return false; // the centre itself: a distance of exactly nothing
        double d = geo_distance(e.a / 4.0, e.b / 4.0, fval(la->i), fval(lo->i)), r = e.c / 4.0;
        return std::fabs(d - r) < 0.01; // numerically delicate: near the rim
    }
    for(auto& x : e.kid) if(geo_near_threshold(*x, c, env)) return true;
    return false;
}

bool eval(const Expr& e, const Config& c, const Env& env, const Consts& k) {
    switch(e.k) {
        case E_AND: for(auto& x : e.kid) if(!eval(*x, c, env, k)) return false; return true;
        case E_OR: for(auto& x : e.kid) if(eval(*x, c, env, k)) return true; return false;
        case E_NOT: return !eval(*e.kid[0], c, env, k);
        case E_LIT: return e.a != 0;
        case E_BOOL: { const Val* v = env.get(e.var); return v && v->i != 0; }
        case E_CMP: {
            const Val* v = env.get(e.var); if(!v) return false;
            if(c.vars[e.var].ty == T_FLOAT) {
                double x = fval(v->i), y = fval(e.a);
                switch(e.op) { case LT: return x < y; case LE: return x <= y; case GT: return x > y; default: return x >= y; }
            }
            switch(e.op) { case LT: return v->i < e.a; case LE: return v->i <= e.a; case GT: return v->i > e.a; default: return v->i >= e.a; }
        }
        case E_EQ: {
            const Val* v = env.get(e.var); if(!v) return false;
            bool eq = c.vars[e.var].ty == T_STR ? v->s == e.s
                : c.vars[e.var].ty == T_FLOAT ? std::fabs(fval(v->i) - fval(e.a)) < __DBL_EPSILON__ : v->i == e.a;
            return e.op ? !eq : eq;
        }
        case E_SETL: {
            const Val* v = env.get(e.var); if(!v) return false;
            bool in = c.vars[e.var].ty == T_STR ? std::count(e.sl.begin(), e.sl.end(), v->s) > 0 : std::count(e.il.begin(), e.il.end(), v->i) > 0;
            return e.op ? !in : in;
        }
        case E_SETV: {
            const Val* v = env.get(e.var); if(!v) return false;
            bool in = c.vars[e.var].ty == T_SL ? std::count(v->sl.begin(), v->sl.end(), e.s) > 0 : std::count(v->il.begin(), v->il.end(), e.a) > 0;
            return e.op ? !in : in;
        }
        case E_LIST: {
            const Val* v = env.get(e.var); if(!v) return false;
            size_t n = 0, tot;
            if(c.vars[e.var].ty == T_SL) { tot = e.sl.size(); for(auto& x : e.sl) if(std::count(v->sl.begin(), v->sl.end(), x)) n++; }
            else { tot = e.il.size(); for(auto& x : e.il) if(std::count(v->il.begin(), v->il.end(), x)) n++; }
            if(e.op == ONE_OF) return n > 0;
            if(e.op == NONE_OF) return n == 0;
            return n == tot;
        }
        case E_NULL: {
            const Val* v = env.get(e.var);
            if(e.op == IS_NULL) return !v;
            if(e.op == NOT_NULL) return v != nullptr;
            if(!v) return false;
            switch(c.vars[e.var].ty) { case T_IL: return v->il.empty(); case T_SL: return v->sl.empty(); case T_SEG: return v->seg.empty(); case T_FREQ: return v->caps.empty(); default: return false; }
        }
        case E_FREQ: {
            const Val* v = env.get(c.find("frequency_caps")); if(!v) return false;
            const Val* now = env.get(c.find("now")); if(!now) return false;
            if(v->caps.empty()) return true;
            bool ok; uint32_t id = (uint32_t)get_const(k, e.s, ok);
            for(auto& cap : v->caps) {
                if(cap.type != e.s || cap.id != id || cap.ns != e.ns) continue;
                bool below = e.a > (int64_t)cap.value;
                if(e.b == 0) return below;
                if(!cap.tsdef) return true;
                if(now->i - cap.ts / 1000000 > e.b) return true; // the period is over
                return below;
            }
            return true;
        }
        case E_SEG: {
            const Val* v = env.get(e.var >= 0 ? e.var : c.find("segments_with_timestamp")); if(!v) return false;
            const Val* now = env.get(c.find("now")); if(!now) return false;
            for(auto& s : v->seg) if(s.first == e.a) {
                int64_t t = s.second / 1000000;
                return e.op == 0 ? now->i - e.b <= t : now->i - e.b > t;
            }
            return false;
        }
        case E_GEO: {
            const Val* la = env.get(c.find("latitude")); const Val* lo = env.get(c.find("longitude"));
            if(!la || !lo) return false;
            return geo_distance(e.a / 4.0, e.b / 4.0, fval(la->i), fval(lo->i)) <= e.c / 4.0;
        }
        case E_STR: {
            const Val* v = env.get(e.var); if(!v) return false;
            const std::string &h = v->s, &p = e.s;
            if(e.op == S_CONTAINS) return h.find(p) != std::string::npos;
            if(h.size() < p.size()) return false;
            return e.op == S_STARTS ? h.compare(0, p.size(), p) == 0 : h.compare(h.size() - p.size(), p.size(), p) == 0;
        }
    }
    return false;
}

double fval(int64_t x) {
    if(x >= HUGE_CODE || x <= -HUGE_CODE) { int64_t m = x < 0 ? -x : x; double d; memcpy(&d, &m, sizeof d); return x < 0 ? -d : d; }
    if(x >= GRID_CODE || x <= -GRID_CODE) return (x < 0 ? x + GRID_CODE : x - GRID_CODE) / 65536.0;
    int64_t n = (x + FINE / 2) >> 44;
    return (x - n * FINE) / 4.0 + std::ldexp((double)n, -54);
}

std::string quarter(int64_t q) {
    if((q + FINE / 2) >> 44) { // every digit
        char b[1200]; snprintf(b, sizeof b, "%.80f", fval(q));
        std::string s = b; while(s.back() == '0' && s[s.size() - 2] != '.') s.pop_back();
        return s;
    }
    bool neg = q < 0; uint64_t u = neg ? (uint64_t)-q : (uint64_t)q;
    static const char* fr[] = {"0", "25", "5", "75"};
    return (neg ? "-" : "") + std::to_string(u / 4) + "." + fr[u % 4];
}

static std::string num(int64_t v) { return std::to_string(v); }
// Can the text between two quotes q be exactly s? (The lexers keep a backslash and what follows it as they are.)
static bool quotable(const std::string& s, char q) {
    for(size_t i = 0; i < s.size(); i++) {
        if(s[i] == 0 || s[i] == q) return false;
        if(s[i] == '\\' && (++i == s.size() || s[i] == '\n' || s[i] == 0)) return false;
    }
    return true;
}
bool text_ok(const std::string& s) { return quotable(s, '"') || quotable(s, '\''); }
static std::string qs(const std::string& s, int style) {
    char q = (style & 1) ? '\'' : '"';
    if(!quotable(s, q)) q ^= '"' ^ '\'';
    return q + s + q;
}

// The same tokens with other white space between them and other spellings of the numbers.
static std::string mess(const std::string& t, uint64_t seed) {
    Rng r(seed); std::string o;
    auto blank = [&](bool needed) {
        int n = r.below(3) ? 0 : (int)r.range(1, 3); if(needed && !n) n = 1;
        if(n && r.below(40) == 0) n = (int)r.range(20, 300);
        for(int i = 0; i < n; i++) o += " \t\n"[r.below(3)];
    };
    auto word = [](char c) { return isalnum((unsigned char)c) || c == '_' || c == '-'; };
    size_t i = 0;
    blank(false);
    while(i < t.size()) {
        char c = t[i];
        if(c == '"' || c == '\'') {
            size_t j = i + 1; while(t[j] != c) j += t[j] == '\\' ? 2 : 1;
            o += t.substr(i, j + 1 - i); i = j + 1;
            blank(false);
        }
        else if(isalpha((unsigned char)c) || c == '_') {
            size_t j = i; while(j < t.size() && word(t[j])) j++;
            static const char* multi[] = {"not in", "one of", "none of", "all of", "is not null", "is null", "is empty"};
            for(auto* m : multi) { size_t n = strlen(m); if(t.compare(i, n, m) == 0 && (i + n == t.size() || !word(t[i + n]))) { j = i + n; break; } }
            o += t.substr(i, j - i); i = j;
            if(i < t.size()) blank(t[i] == ' ' && i + 1 < t.size() && (word(t[i + 1])));
        }
        else if(isdigit((unsigned char)c)) {
            size_t j = i; bool dot = false; while(j < t.size() && (isdigit((unsigned char)t[j]) || t[j] == '.')) { dot |= t[j] == '.'; j++; }
            if(r.below(3) == 0) o += std::string(r.below(10) ? (size_t)r.range(1, 3) : (size_t)r.range(20, 400), '0');
            std::string n = t.substr(i, j - i); i = j;
            if(dot && r.below(3) == 0) { if(r.below(2)) n += std::string(r.below(10) ? (size_t)r.range(1, 3) : (size_t)r.range(20, 400), '0'); else while(n.back() == '0') n.pop_back(); }
            o += n;
            if(i < t.size()) blank(word(t[i]) || (t[i] == ' ' && i + 1 < t.size() && word(t[i + 1])));
        }
        else if(c == ' ') i++;
        else {
            size_t j = i + 1;
            if(j < t.size() && (t.compare(i, 2, "<=") == 0 || t.compare(i, 2, ">=") == 0 || t.compare(i, 2, "<>") == 0 || t.compare(i, 2, "&&") == 0 || t.compare(i, 2, "||") == 0)) j++;
            o += t.substr(i, j - i); i = j;
            if(i < t.size()) blank(false);
        }
    }
    return o;
}

static std::string ident(const Config& c, int v, int style) {
    std::string n = c.vars[v].name; // names are looked up without regard to letter case
    if(style & 32768) for(size_t i = v & 1; i < n.size(); i += 2) n[i] = (char)toupper(n[i]);
    return n;
}

static void rend1(const Expr& e, const Config& c, int st, std::string& o);
static void rend(const Expr& e, const Config& c, int st, std::string& o) {
    int n = (st & 64) && (expr_size(e) + e.k) % 3 != 0 ? 1 : 0;
    if(st & 128) n += (expr_size(e) * 7 + e.k) % 4 == 0 ? 2 : 0;
    o += std::string(n, '('); rend1(e, c, st, o); o += std::string(n, ')');
}
static void rend1(const Expr& e, const Config& c, int st, std::string& o) {
    const char* sp = (st & 2) ? "" : " ";
    auto lst = [&](bool str) {
        std::string r = "(";
        size_t n = str ? e.sl.size() : e.il.size();
        for(size_t i = 0; i < n; i++) { if(i) r += (st & 2) ? "," : ", "; r += str ? qs(e.sl[i], st) : num(e.il[i]); }
        return r + ")";
    };
    switch(e.k) {
        case E_AND: case E_OR: {
            const char* w = e.k == E_AND ? ((st & 4) ? " && " : " and ") : ((st & 4) ? " || " : " or ");
            for(size_t i = 0; i < e.kid.size(); i++) {
                if(i) o += w;
                bool par = e.kid[i]->k == E_OR || e.kid[i]->k == E_AND;
                if(par && (st & 8) && e.k == E_OR && e.kid[i]->k == E_AND) par = false;
                if(par) o += "("; rend(*e.kid[i], c, st, o); if(par) o += ")";
            }
            return;
        }
        case E_NOT: {
            bool par = !((st & 16) && (e.kid[0]->k == E_BOOL || e.kid[0]->k == E_LIT));
            o += par ? "not (" : "not "; rend(*e.kid[0], c, st, o); if(par) o += ")";
            return;
        }
        case E_LIT: o += e.a ? "true" : "false"; return;
        case E_BOOL: o += ident(c, e.var, st); return;
        case E_CMP: {
            static const char* ops[] = {"<", "<=", ">", ">="};
            static const char* rev[] = {">", ">=", "<", "<="};
            std::string v = c.vars[e.var].ty == T_FLOAT ? ((st & 32) && whole(e.a) ? num(e.a / 4) : quarter(e.a)) : num(e.a);
            if(e.flip) o += v + " " + rev[e.op] + " " + ident(c, e.var, st);
            else o += ident(c, e.var, st) + sp + ops[e.op] + sp + v;
            return;
        }
        case E_EQ: {
            std::string v = c.vars[e.var].ty == T_STR ? qs(e.s, st) : c.vars[e.var].ty == T_FLOAT ? ((st & 32) && whole(e.a) ? num(e.a / 4) : quarter(e.a)) : num(e.a);
            const char* w = e.op ? "<>" : "=";
            if(e.flip) o += v + " " + w + " " + ident(c, e.var, st);
            else o += ident(c, e.var, st) + sp + w + sp + v;
            return;
        }
        case E_SETL: o += ident(c, e.var, st) + (e.op ? " not in " : " in ") + lst(c.vars[e.var].ty == T_STR); return;
        case E_SETV: o += (c.vars[e.var].ty == T_SL ? qs(e.s, st) : num(e.a)) + (e.op ? " not in " : " in ") + ident(c, e.var, st); return;
        case E_LIST: {
            static const char* w[] = {" one of ", " none of ", " all of "};
            o += ident(c, e.var, st) + w[e.op] + lst(c.vars[e.var].ty == T_SL); return;
        }
        case E_NULL: {
            static const char* w[] = {" is null", " is not null", " is empty"};
            o += ident(c, e.var, st) + w[e.op]; return;
        }
        case E_FREQ: o += "within_frequency_cap(" + qs(e.s, st) + ", " + qs(e.ns, st) + ", " + num(e.a) + ", " + num(e.b) + ")"; return;
        case E_SEG: o += std::string(e.op ? "segment_before(" : "segment_within(") + (e.var >= 0 ? ident(c, e.var, st) + ", " : "") + num(e.a) + ", " + num(e.b) + ")"; return;
        case E_GEO:
            if((st & 32) && e.a % 4 == 0 && e.b % 4 == 0 && e.c % 4 == 0) o += "geo_within_radius(" + num(e.a / 4) + ", " + num(e.b / 4) + ", " + num(e.c / 4) + ")";
            else o += "geo_within_radius(" + quarter(e.a) + ", " + quarter(e.b) + ", " + quarter(e.c) + ")";
            return;
        case E_STR: {
            static const char* w[] = {"contains(", "starts_with(", "ends_with("};
            o += w[e.op] + ident(c, e.var, st) + ", " + qs(e.s, st) + ")"; return;
        }
    }
}
std::string render(const Expr& e, const Config& c, int style) {
    std::string o; rend(e, c, style, o);
    if(style & 256) { int n = (style >> 16) % 16 ? (style >> 16) % 16 : 40 + (style >> 20) % 1000; o = std::string(n, '(') + o + std::string(n, ')'); }
    return style & 512 ? mess(o, (uint64_t)style) : o;
}

std::string render(const Event& e, const Config& c) {
    int st = e.style;
    const char* cm = (st & 2) ? "," : ", ";
    std::string o = "{";
    bool first = true;
    for(auto& p : e.vals) {
        if(!first) o += cm; first = false;
        std::string n = c.vars[p.first].name;
        if(st & 4) for(size_t i = 0; i < n.size(); i += 2) n[i] = (char)toupper(n[i]);
        o += qs(n, st) + ((st & 2) ? ":" : ": ");
        const Val& v = p.second;
        switch(v.ty) {
            case -1: o += "null"; break;
            case T_BOOL: o += v.i ? "true" : "false"; break;
            case T_INT: case T_ENUM: o += num(v.i); break;
            case T_FLOAT: o += (st & 64) && whole(v.i) ? num(v.i / 4) : quarter(v.i); break;
            case T_STR: o += qs(v.s, st); break;
            case T_IL: { o += "["; for(size_t i = 0; i < v.il.size(); i++) o += (i ? cm : "") + num(v.il[i]); o += "]"; break; }
            case T_SL: { o += "["; for(size_t i = 0; i < v.sl.size(); i++) o += (i ? cm : "") + qs(v.sl[i], st); o += "]"; break; }
            case T_SEG: { o += "["; for(size_t i = 0; i < v.seg.size(); i++) o += (i ? std::string(cm) : "") + "[" + num(v.seg[i].first) + cm + num(v.seg[i].second) + "]"; o += "]"; break; }
            case T_FREQ: {
                o += "[";
                for(size_t i = 0; i < v.caps.size(); i++) {
                    const Cap& k = v.caps[i]; if(i) o += cm;
                    if(st & 8) o += "[[" + qs(k.type, st) + cm + num(k.id) + cm + qs(k.ns, st) + "]" + cm + num(k.value) + cm + num(k.ts) + "]";
                    else o += "[" + qs(k.type, st) + cm + num(k.id) + cm + qs(k.ns, st) + cm + num(k.value) + cm + num(k.ts) + "]";
                }
                o += "]"; break;
            }
        }
    }
    // style 16: the first given value once more; 32: as many entries as the configuration has variables
    if(st & 48) for(auto& p : e.vals) if(p.second.ty >= 0) {
        Event one; one.style = st & 79; one.vals.push_back(p);
        std::string again = render(one, c); again = again.substr(1, again.size() - 2);
        size_t given = 0; for(auto& q : e.vals) given += q.second.ty >= 0;
        size_t n = (st & 32) && c.vars.size() > given ? std::min<size_t>(c.vars.size() - given, 12) : 1;
        for(size_t i = 0; i < n; i++) o += cm + again;
        break;
    }
    o += "}";
    return st & 512 ? mess(o, (uint64_t)st) : o;
}

bool representable(const Event& e) {
    for(auto& p : e.vals) {
        if(p.second.ty == T_FREQ) for(auto& k : p.second.caps) if(!k.tsdef || k.ts == INT64_MIN) return false;
        if((p.second.ty == T_INT || p.second.ty == T_ENUM) && p.second.i == INT64_MIN) return false;
        if(p.second.ty == T_STR && !text_ok(p.second.s)) return false;
        if(p.second.ty == T_SL) for(auto& x : p.second.sl) if(!text_ok(x)) return false;
        if(p.second.ty == T_IL) for(auto x : p.second.il) if(x == INT64_MIN) return false;
    }
    return true;
}

void strings_of(const Expr& e, const Config& c, std::map<int, std::set<std::string>>& out) {
    if(e.k == E_EQ && c.vars[e.var].ty == T_STR) out[e.var].insert(e.s);
    if(e.k == E_SETL && c.vars[e.var].ty == T_STR) out[e.var].insert(e.sl.begin(), e.sl.end());
    if(e.k == E_SETV && c.vars[e.var].ty == T_SL) out[e.var].insert(e.s);
    if(e.k == E_LIST && c.vars[e.var].ty == T_SL) out[e.var].insert(e.sl.begin(), e.sl.end());
    for(auto& k : e.kid) strings_of(*k, c, out);
}
void ints_of_enum(const Expr& e, const Config& c, std::map<int, std::set<int64_t>>& out) {
    if(e.k == E_EQ && c.vars[e.var].ty == T_ENUM) out[e.var].insert(e.a);
    for(auto& k : e.kid) ints_of_enum(*k, c, out);
}
bool uses_var(const Expr& e, const Config& c, int var) {
    if(e.var == var) return true;
    const std::string& n = c.vars[var].name;
    if(e.k == E_FREQ && (n == "frequency_caps" || n == "now")) return true;
    if(e.k == E_SEG && ((e.var < 0 && n == "segments_with_timestamp") || n == "now")) return true;
    if(e.k == E_GEO && (n == "latitude" || n == "longitude")) return true;
    for(auto& k : e.kid) if(uses_var(*k, c, var)) return true;
    return false;
}
int expr_size(const Expr& e) { int n = 1; for(auto& k : e.kid) n += expr_size(*k); return n; }
