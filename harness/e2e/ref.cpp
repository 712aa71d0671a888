// Evaluates the equations of a solution by their definition.
#include "yask_compiler_api.hpp"
#include "ref.hpp"
#include <unordered_map>
#include <stdio.h>
#include <stdlib.h>
using namespace yask;
namespace yask { RSoln* ref_cur; }
static RSoln* S; static RefInfo I;
struct LEq { REqP e; int64_t tofs; }; // tofs: step of the left-hand side minus step of evaluation.
static std::vector<std::vector<LEq>> EQ;
static std::map<std::string, int64_t> size_, Dp; static int64_t T0, Tlast; static unsigned SEED; static int64_t curT;
struct Key { int v; std::vector<int64_t> i; bool operator==(const Key& o) const { return v == o.v && i == o.i; } };
struct KH { size_t operator()(const Key& k) const { size_t h = k.v * 7919 + 17; for (auto x : k.i) h = h * 1000003 + (size_t)x + 12345; return h; } };
static std::unordered_map<Key, double, KH> memo;

static const RNode* stepof(const RNode* n) { return n->op == R_STEP ? n : 0; }
static void scan(const RNode* n, bool& used, std::vector<std::string>& dom, std::string& st) {
    if (n->op == R_STEP) st = n->name;
    if (n->op == R_DOM) { bool f = false; for (auto& d : dom) f |= d == n->name; if (!f) dom.push_back(n->name); }
    for (auto& a : n->a) scan(a.get(), used, dom, st);
}
struct Env { int64_t t; std::map<std::string, int64_t> p; };
static double ev(const RNode* n, const Env& e);
static double get(int v, const std::vector<int64_t>& ix, int64_t t);
static int64_t ei(const RNode* n, const Env& e) { return (int64_t)llround(ev(n, e)); }
static double ev(const RNode* n, const Env& e) {
    auto A = [&](int k) { return ev(n->a[k].get(), e); };
    switch (n->op) {
    case R_CONST: return n->c;
    case R_STEP: return (double)e.t;
    case R_DOM: return (double)e.p.at(n->name);
    case R_FIRST: return 0;
    case R_LAST: return (double)size_.at(n->name) - 1;
    case R_ADD: return A(0) + A(1);
    case R_SUB: return A(0) - A(1);
    case R_MUL: return A(0) * A(1);
    case R_DIV: return A(0) / A(1);
    case R_MOD: return (double)((int64_t)A(0) % (int64_t)A(1));
    case R_NEG: return -A(0);
    case R_FUN: return n->f(A(0), n->a.size() > 1 ? A(1) : 0);
    case R_EQ: return A(0) == A(1);
    case R_NE: return A(0) != A(1);
    case R_LT: return A(0) < A(1);
    case R_GT: return A(0) > A(1);
    case R_LE: return A(0) <= A(1);
    case R_GE: return A(0) >= A(1);
    case R_AND: return A(0) != 0 && A(1) != 0;
    case R_OR: return A(0) != 0 || A(1) != 0;
    case R_NOT: return A(0) == 0;
    case R_VAR: { std::vector<int64_t> ix; for (auto& a : n->a) ix.push_back(ei(a.get(), e)); return get(n->var, ix, e.t); }
    }
    fprintf(stderr, "ref: bad node\n"); abort();
}
RefInfo& ref_info(const char* sol) {
    auto& reg = yc_solution_base::get_registry();
    if (!reg.count(sol)) { fprintf(stderr, "ref: no solution %s\n", sol); abort(); }
    auto* b = reg[sol]; S = b->get_soln().get(); ref_cur = S;
    b->define();
    I = RefInfo(); I.dir = 0; EQ.assign(S->vars.size(), {});
    for (auto& v : S->vars) {
        RefVar r; r.name = v.name; r.scratch = v.scratch; r.output = false; r.alloc = 1;
        for (auto& d : v.dims) {
            r.dims.push_back(d->name); r.kind.push_back(d->op == R_STEP ? 0 : d->op == R_DOM ? 1 : 2);
            if (d->op == R_STEP) I.step = d->name;
        }
        I.vars.push_back(r);
    }
    bool u = false; std::string st;
    for (auto& e : S->eqs) for (auto& n : {e->lhs, e->rhs, e->dc, e->sc}) if (n) scan(n.get(), u, I.domain, st);
    if (I.step == "") I.step = st;
    for (auto& e : S->eqs) {
        auto& v = I.vars[e->lhs->var]; v.output = true;
        LEq l{e, 0};
        for (size_t k = 0; k < v.dims.size(); k++) if (v.kind[k] == 0) { Env z; z.t = 0; l.tofs = ei(e->lhs->a[k].get(), z); }
        if (l.tofs) I.dir = l.tofs;
        EQ[e->lhs->var].push_back(l);
    }
    if (!I.dir) I.dir = 1;
    return I;
}
void ref_run(const int64_t* sz, int64_t t0, unsigned seed) {
    size_.clear(); memo.clear(); T0 = t0; SEED = seed;
    for (size_t k = 0; k < I.domain.size(); k++) size_[I.domain[k]] = sz[k];
}
static double h(int v, const std::vector<int64_t>& ix, int64_t t) {
    uint64_t x = SEED * 0x9E3779B97F4A7C15ull + v * 1000003 + (uint64_t)t * 7777777;
    for (auto i : ix) { x ^= (uint64_t)(i + 1000); x *= 0x100000001b3ull; x ^= x >> 29; }
    x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32;
    double d = (double)(int64_t)(x % 9) - 4; return d == 0 ? 5 : d;
}
static bool inside(const RefVar& r, const std::vector<int64_t>& ix) { for (size_t k = 0; k < ix.size(); k++) if (r.kind[k] == 1 && (ix[k] < 0 || ix[k] >= size_[r.dims[k]])) return false; return true; }
static bool match(const LEq& l, const RefVar& r, const std::vector<int64_t>& ix) { for (size_t k = 0; k < ix.size(); k++) if (r.kind[k] == 2 && (int64_t)l.e->lhs->a[k]->c != ix[k] && !(l.e->lhs->a[k]->op == R_NEG && -(int64_t)l.e->lhs->a[k]->a[0]->c == ix[k])) return false; return true; }
static double init(int v, const std::vector<int64_t>& ix) {
    auto& r = I.vars[v]; int64_t t = 0; bool always = false; std::vector<int64_t> j = ix;
    for (auto& l : EQ[v]) always |= match(l, r, ix) && !l.e->dc && !l.e->sc;
    for (size_t k = 0; k < ix.size(); k++) if (r.kind[k] == 0) { if (always && inside(r, ix)) t = ix[k]; j[k] = 0; }
    return h(v, j, t);
}
// The element v[ix] as seen by an equation evaluated at step t (steps matter only for variables without a step index).
static double get(int v, const std::vector<int64_t>& ix, int64_t t) {
    auto& r = I.vars[v];
    if (!r.output) return init(v, ix);
    int sp = -1; for (size_t k = 0; k < ix.size(); k++) if (r.kind[k] == 0) sp = (int)k;
    if (!r.scratch && !inside(r, ix)) return init(v, ix);
    Key key{v, ix}; if (sp < 0) key.i.push_back(t);
    auto f = memo.find(key); if (f != memo.end()) return f->second;
    double val = 0; bool done = false;
    if (sp >= 0 ? (ix[sp] - T0) * I.dir > 0 : (t - T0) * I.dir >= 0) {
        for (auto& l : EQ[v]) {
            if (!match(l, r, ix)) continue;
            Env e; e.t = sp >= 0 ? ix[sp] - l.tofs : t;
            for (size_t k = 0; k < ix.size(); k++) if (r.kind[k] == 1) e.p[r.dims[k]] = ix[k];
            if (l.e->dc && ev(l.e->dc.get(), e) == 0) continue;
            if (l.e->sc && ev(l.e->sc.get(), e) == 0) continue;
            val = ev(l.e->rhs.get(), e); done = true; break;
        }
        if (!done && r.scratch) { val = NAN; done = true; }
        if (!done) { // not updated: the storage keeps what it held.
            if (sp >= 0) { auto j = ix; j[sp] -= (int64_t)r.alloc * I.dir; val = get(v, j, t); }
            else val = get(v, ix, t - I.dir);
            done = true;
        }
    }
    if (!done) val = init(v, ix);
    memo[key] = val;
    return val;
}
double ref_init(int v, const int64_t* ix) { return init(v, std::vector<int64_t>(ix, ix + I.vars[v].dims.size())); }
double ref_value(int v, const int64_t* ix, int64_t last) { return get(v, std::vector<int64_t>(ix, ix + I.vars[v].dims.size()), last); }
bool ref_settled(int, const int64_t*) { return true; }
