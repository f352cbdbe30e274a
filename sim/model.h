// Reference model: configurations, expressions, events and the documented matching semantics.
// Nothing here looks at the library; it is written from the README and the grammar.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>

enum Ty { T_BOOL, T_INT, T_FLOAT, T_STR, T_IL, T_SL, T_SEG, T_FREQ, T_ENUM, T_NTY };

struct VarDef {
    std::string name;
    int ty = T_BOOL;
    bool undef = true;
    bool bounded = false;
    int64_t lo = 0, hi = 0;   // T_INT / T_IL: integers; T_FLOAT: quarters
    uint64_t count = 0;       // T_STR / T_SL / T_ENUM when bounded
};

struct Config {
    bool dflt = false;        // betree_make() instead of betree_make_with_parameters()
    int64_t cap = 3, part = 0;
    int order = 0;            // the order the variables are declared in, 0 as listed; bit 20: some with a line of text
    std::vector<int> declared() const;
    std::vector<VarDef> vars;
    int find(const std::string& n) const { for(size_t i = 0; i < vars.size(); i++) if(vars[i].name == n) return (int)i; return -1; }
};

struct Cap { std::string type; uint32_t id = 0; std::string ns; bool tsdef = true; int64_t ts = 0; uint32_t value = 0; };

struct Val {
    int ty = -1;              // -1: explicit null
    int64_t i = 0;            // bool, int, enum; floats encoded, see fval
    std::string s;
    std::vector<int64_t> il;
    std::vector<std::string> sl;
    std::vector<std::pair<int64_t, int64_t>> seg;
    std::vector<Cap> caps;
};

struct Event {
    std::vector<std::pair<int, Val>> vals; // (variable index, value) in textual order
    int style = 0;                         // quoting, spacing and letter case of the textual form
};

enum EK { E_AND, E_OR, E_NOT, E_LIT, E_BOOL, E_CMP, E_EQ, E_SETL, E_SETV, E_LIST, E_NULL, E_FREQ, E_SEG, E_GEO, E_STR };
enum { LT, LE, GT, GE };
enum { ONE_OF, NONE_OF, ALL_OF };
enum { IS_NULL, NOT_NULL, IS_EMPTY };
enum { S_CONTAINS, S_STARTS, S_ENDS };

struct Expr;
typedef std::shared_ptr<const Expr> ExprP;
struct Expr {
    int k = E_LIT, op = 0, var = -1;
    int64_t a = 0, b = 0, c = 0;
    bool flip = false;        // value on the left, or integer spelling of a float
    std::string s, ns;
    std::vector<int64_t> il;
    std::vector<std::string> sl;
    std::vector<ExprP> kid;
};

typedef std::vector<std::pair<std::string, int64_t>> Consts;

// The value bound to a variable in an event, or null.
struct Env {
    std::vector<const Val*> v;
    Env(const Config& c, const Event& e);
    const Val* get(int i) const { return i < 0 ? nullptr : v[i]; }
};

bool eval(const Expr& e, const Config& c, const Env& env, const Consts& k);
bool needs_consts_ok(const Expr& e, const Consts& k); // every frequency predicate has its constant
bool required_defined(const Config& c, const Env& env);
std::string render(const Expr& e, const Config& c, int style = 0);
std::string render(const Event& e, const Config& c);
// Floats are encoded as a number of quarters plus FINE times a number of 2^-54 steps.
const int64_t FINE = 1ll << 44;
// From 2^62 on, the code is the magnitude's own bit pattern (with the sign in front), so that
// adding one is one rounding step; used for values beyond 2^20.
const int64_t HUGE_CODE = 1ll << 62;
// From 2^60 on, a number of 2^-16 steps (coordinates).
const int64_t GRID_CODE = 1ll << 60;
double fval(int64_t x);
inline bool whole(int64_t x) { return x % 4 == 0 && x < FINE / 2 && x > -FINE / 2; } // a float with no fraction
std::string quarter(int64_t q);
bool representable(const Event& e);   // has a textual form
bool text_ok(const std::string& s);   // can be written between quotes
const char* freq_constant(const std::string& type);
void strings_of(const Expr& e, const Config& c, std::map<int, std::set<std::string>>& out); // bounded-interned strings per variable
void ints_of_enum(const Expr& e, const Config& c, std::map<int, std::set<int64_t>>& out);
bool uses_var(const Expr& e, const Config& c, int var);
int expr_size(const Expr& e);
double geo_distance(double lat1, double lon1, double lat2, double lon2);
bool geo_near_threshold(const Expr& e, const Config& c, const Env& env);
