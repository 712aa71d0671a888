// The stencil DSL, read as a definition: expressions are kept as trees and evaluated by ref.cpp.
#pragma once
#include <math.h>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <iostream>
#include <initializer_list>
#include <functional>
namespace yask {
struct RNode { int op; double c; std::string name; int var; std::vector<std::shared_ptr<RNode>> a; std::function<double(double, double)> f; };
typedef std::shared_ptr<RNode> RP;
enum { R_CONST, R_STEP, R_DOM, R_MISC, R_FIRST, R_LAST, R_ADD, R_SUB, R_MUL, R_DIV, R_MOD, R_NEG, R_FUN, R_VAR, R_EQ, R_NE, R_LT, R_GT, R_LE, R_GE, R_AND, R_OR, R_NOT };
inline RP rnode(int op, std::vector<RP> a = {}, double c = 0, const std::string& n = "", int var = -1) { auto p = std::make_shared<RNode>(); p->op = op; p->a = a; p->c = c; p->name = n; p->var = var; return p; }
struct RNum { RP n; RNum() {} RNum(double c) : n(rnode(R_CONST, {}, c)) {} RNum(int c) : n(rnode(R_CONST, {}, c)) {} RNum(long c) : n(rnode(R_CONST, {}, (double)c)) {} explicit RNum(RP p) : n(p) {} };
struct RIdx : RNum { RIdx() {} explicit RIdx(RP p) : RNum(p) {} };
struct RPt : RNum { explicit RPt(RP p) : RNum(p) {} };
struct RBool { RP n; RBool() {} explicit RBool(RP p) : n(p) {} };
struct REq { RP lhs, rhs, dc, sc; };
typedef std::shared_ptr<REq> REqP;
struct RVarDef { std::string name; std::vector<RP> dims; bool scratch; };
struct RSoln { std::string name; std::vector<RVarDef> vars; std::vector<REqP> eqs; std::string desc; void set_description(const std::string&) {} std::string get_name() const { return name; }
    void set_step_alloc_size(int) {} };
typedef std::shared_ptr<RSoln> yc_solution_ptr;
typedef RIdx yc_index_node_ptr; typedef RNum yc_number_node_ptr; typedef RPt yc_var_point_node_ptr; typedef RBool yc_bool_node_ptr; typedef REqP yc_equation_node_ptr; typedef RNum yc_number_any_arg;
extern RSoln* ref_cur; // solution whose equations are being defined.
inline RP rz(const RNum& a) { return a.n; }
#define ROP(o, k) inline RNum operator o(const RNum& a, const RNum& b) { return RNum(rnode(k, {a.n, b.n})); }
ROP(+, R_ADD) ROP(-, R_SUB) ROP(*, R_MUL) ROP(/, R_DIV) ROP(%, R_MOD)
#undef ROP
inline RNum operator-(const RNum& a) { return RNum(rnode(R_NEG, {a.n})); }
// An empty node is the identity of the operator.
inline void operator+=(RNum& a, const RNum& b) { a = a.n ? a + b : b; }
inline void operator-=(RNum& a, const RNum& b) { a = a.n ? a - b : -b; }
inline void operator*=(RNum& a, const RNum& b) { a = a.n ? a * b : b; }
inline void operator/=(RNum& a, const RNum& b) { a = a.n ? a / b : RNum(1) / b; }
#define ROP(o, k) inline RBool operator o(const RNum& a, const RNum& b) { return RBool(rnode(k, {a.n, b.n})); }
ROP(==, R_EQ) ROP(!=, R_NE) ROP(<, R_LT) ROP(>, R_GT) ROP(<=, R_LE) ROP(>=, R_GE)
#undef ROP
inline RBool operator&&(const RBool& a, const RBool& b) { return RBool(rnode(R_AND, {a.n, b.n})); }
inline RBool operator||(const RBool& a, const RBool& b) { return RBool(rnode(R_OR, {a.n, b.n})); }
inline RBool operator!(const RBool& a) { return RBool(rnode(R_NOT, {a.n})); }
#define RF1(fn) inline RNum fn(const RNum& a) { auto p = rnode(R_FUN, {a.n}); p->f = [](double x, double) { return ::fn(x); }; return RNum(p); }
RF1(sqrt) RF1(cbrt) RF1(fabs) RF1(erf) RF1(exp) RF1(log) RF1(sin) RF1(cos) RF1(atan)
#undef RF1
inline RNum pow(const RNum& a, const RNum& b) { auto p = rnode(R_FUN, {a.n, b.n}); p->f = [](double x, double y) { return ::pow(x, y); }; return RNum(p); }
inline RNum max(const RNum& a, const RNum& b) { auto p = rnode(R_FUN, {a.n, b.n}); p->f = [](double x, double y) { return x > y ? x : y; }; return RNum(p); }
inline RNum min(const RNum& a, const RNum& b) { auto p = rnode(R_FUN, {a.n, b.n}); p->f = [](double x, double y) { return x < y ? x : y; }; return RNum(p); }
struct yc_var_proxy {
    int id;
    yc_var_proxy(const std::string& n, RSoln* s, std::initializer_list<RIdx> d, bool scratch) { id = (int)s->vars.size(); RVarDef v; v.name = n; v.scratch = scratch; for (auto& i : d) v.dims.push_back(i.n); s->vars.push_back(v); }
    yc_var_proxy(const std::string& n, yc_solution_ptr s, std::initializer_list<RIdx> d, bool scratch) : yc_var_proxy(n, s.get(), d, scratch) {}
    RPt at(std::vector<RP> a) { return RPt(rnode(R_VAR, a, 0, "", id)); }
    template <typename... T> RPt operator()(const T&... a) { return at({RNum(a).n...}); }
    operator RNum() { return at({}); }
};
inline REqP operator<<(const RPt& l, const RNum& r) { auto e = std::make_shared<REq>(); e->lhs = l.n; e->rhs = r.n; ref_cur->eqs.push_back(e); return e; }
inline REqP operator^=(REqP e, const RBool& c) { e->dc = c.n; return e; }
inline REqP operator|=(REqP e, const RBool& c) { e->sc = c.n; return e; }
#define EQUALS <<
#define IF_DOMAIN ^=
#define IF_STEP |=
class yc_solution_base {
    yc_solution_ptr _s;
public:
    typedef std::map<std::string, yc_solution_base*> soln_map;
    static soln_map& get_registry() { static soln_map m; return m; }
    yc_solution_base(const std::string& n) : _s(std::make_shared<RSoln>()) { _s->name = n; get_registry()[n] = this; }
    virtual ~yc_solution_base() {}
    virtual void define() {}
    yc_solution_ptr get_soln() { return _s; }
    RIdx new_step_index(const std::string& n) { return RIdx(rnode(R_STEP, {}, 0, n)); }
    RIdx new_domain_index(const std::string& n) { return RIdx(rnode(R_DOM, {}, 0, n)); }
    RIdx new_misc_index(const std::string& n) { return RIdx(rnode(R_MISC, {}, 0, n)); }
    RNum new_number_node(const RNum& a) { return a; }
    RNum first_domain_index(const RIdx& i) { return RNum(rnode(R_FIRST, {}, 0, i.n->name)); }
    RNum last_domain_index(const RIdx& i) { return RNum(rnode(R_LAST, {}, 0, i.n->name)); }
};
class yc_solution_with_radius_base : public yc_solution_base {
    int _r;
public:
    yc_solution_with_radius_base(const std::string& n, int r) : yc_solution_base(n), _r(r) {}
    virtual bool set_radius(int r) { _r = r; return r >= 0; }
    virtual int get_radius() const { return _r; }
};
#define MAKE_STEP_INDEX(d) yc_index_node_ptr d = new_step_index(#d)
#define MAKE_DOMAIN_INDEX(d) yc_index_node_ptr d = new_domain_index(#d)
#define MAKE_MISC_INDEX(d) yc_index_node_ptr d = new_misc_index(#d)
#define MAKE_VAR(v, ...) yc_var_proxy v = yc_var_proxy(#v, get_soln(), { __VA_ARGS__ }, false)
#define MAKE_SCRATCH_VAR(v, ...) yc_var_proxy v = yc_var_proxy(#v, get_soln(), { __VA_ARGS__ }, true)
#define MAKE_SCALAR_VAR(v) MAKE_VAR(v)
#define REGISTER_SOLUTION(c) static c c##_instance
}
