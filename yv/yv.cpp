// yv: a contract-based deductive verifier for the LLVM IR that clang
// generates from the real sources.
//
//  * Every harness entry 'h_*' states pre-conditions (yv_assume), symbolic inputs
//    (yv_i64, ...) and post-conditions (yv_assert) around calls to the real code.
//  * Integers are mathematical integers; every signed operation carries an
//    explicit no-overflow obligation, so the abstraction is exact.
//  * Memory is a set of objects with byte-exact concrete contents plus symbolic
//    cells; every access carries an in-bounds obligation.
//  * yv_contract(f, c) replaces calls to f by its contract c (assert
//    precondition / havoc / assume postcondition).
//  * yv_loop(..) applies the "arbitrary iteration" proof rule to counted loops
//    whose trip count is symbolic.
//  * Obligations go to Z3 (in process) and, when it answers unknown, to cvc5.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <z3++.h>
#include <chrono>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_map>
#include <optional>
#include <llvm/ADT/DenseMap.h>
#include <unistd.h>
using namespace llvm;
using std::string; using std::vector; using std::shared_ptr; using std::make_shared;
typedef __int128 i128;

static string i2s(i128 v) {
    if (v == 0) return "0";
    bool neg = v < 0; string s;
    unsigned __int128 u = neg ? -(unsigned __int128)v : v;
    while (u) { s.insert(s.begin(), char('0' + int(u % 10))); u /= 10; }
    return neg ? "-" + s : s;
}
static i128 s2i(const string& t) {
    i128 v = 0; bool neg = false;
    for (char c : t) { if (c == '-') neg = true; else if (c >= '0' && c <= '9') v = v * 10 + (c - '0'); }
    return neg ? -v : v;
}
static const i128 IMAX = ((i128)1 << 126), IMIN = -((i128)1 << 126);
static i128 sat(i128 v) { return v > IMAX ? IMAX : v < IMIN ? IMIN : v; }
static bool big(i128 a) { return a >= IMAX || a <= IMIN; }
static i128 smul(i128 a, i128 b) {
    if (a == 0 || b == 0) return 0;
    i128 r;
    if (big(a) || big(b) || __builtin_mul_overflow(a, b, &r) || big(r)) return ((a < 0) != (b < 0)) ? IMIN : IMAX;
    return r;
}
static i128 sadd(i128 a, i128 b) { if (big(a)) return a; if (big(b)) return b; return sat(a + b); }

// ---------------------------------------------------------------- globals
static z3::context* zc;
static double g_solver_s = 0;
static long g_queries = 0, g_cvc5 = 0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double g_start, g_deadline;
static unsigned g_rlimit = 8000000;      // per query, deterministic.
static bool g_trace = false;
static int g_maxfork = 64;

struct Unsupported { string what; };
struct PathEnd { };                       // path is finished (killed/infeasible).

// ---------------------------------------------------------------- values
struct Sym { z3::expr e; i128 lo, hi; };
typedef shared_ptr<Sym> SymP;
struct V;
typedef shared_ptr<vector<V>> AggP;
struct V {
    enum K : uint8_t { U, I, F, P, A } k = U;
    uint8_t w = 0;
    uint32_t obj = 0;
    i128 c = 0;                           // concrete int or concrete ptr offset.
    double d = 0;
    SymP s;                               // symbolic int/bool/real or ptr offset.
    AggP a;
    bool sym() const { return (bool)s; }
};
static i128 canon(i128 c, unsigned w) {
    if (w >= 128) return c;
    if (w == 1) return c & 1;
    i128 m = (i128)1 << w; c &= (m - 1);
    if (c >> (w - 1)) c -= m;
    return c;
}
static i128 wmin(unsigned w) { return w == 1 ? 0 : -((i128)1 << (w - 1)); }
static i128 wmax(unsigned w) { return w == 1 ? 1 : ((i128)1 << (w - 1)) - 1; }
static V mkI(unsigned w, i128 c) { V v; v.k = V::I; v.w = w; v.c = canon(c, w); return v; }
static V mkF(unsigned w, double d) { V v; v.k = V::F; v.w = w; v.d = w == 32 ? (double)(float)d : d; return v; }
static V mkP(uint32_t obj, i128 off) { V v; v.k = V::P; v.w = 64; v.obj = obj; v.c = off; return v; }
static V mkU() { return V(); }
static V mkA(vector<V> x) { V v; v.k = V::A; v.a = make_shared<vector<V>>(std::move(x)); return v; }
static z3::expr zi(i128 c) { return zc->int_val(i2s(c).c_str()); }
static bool numval(const z3::expr& e, i128& out) {
    if (!e.is_numeral()) return false;
    string s; if (!e.is_numeral(s)) return false;
    out = s2i(s); return true;
}
static V mkS(unsigned w, z3::expr e, i128 lo, i128 hi) {  // symbolic int (Int sort, or Bool for w==1)
    e = e.simplify();
    if (w == 1) {
        if (e.is_true()) return mkI(1, 1);
        if (e.is_false()) return mkI(1, 0);
    } else {
        i128 c; if (numval(e, c)) return mkI(w, c);
        if (lo == hi) return mkI(w, lo);
    }
    V v; v.k = V::I; v.w = w; v.s = make_shared<Sym>(Sym{e, lo, hi}); return v;
}
static V mkB(z3::expr e) { return mkS(1, e, 0, 1); }
static z3::expr E(const V& v) {           // Int-sort (or Bool for i1) expression of an int value.
    if (v.s) return v.s->e;
    if (v.w == 1) return zc->bool_val(v.c != 0);
    return zi(v.c);
}
static i128 lo(const V& v) { return v.s ? v.s->lo : v.c; }
static i128 hi(const V& v) { return v.s ? v.s->hi : v.c; }
static z3::expr zr(double d) {            // exact rational of a double.
    if (d == 0) return zc->real_val(0);
    int ex; double m = std::frexp(d, &ex); // d = m * 2^ex
    long long mi = (long long)std::ldexp(m, 53); ex -= 53;
    string num = std::to_string(mi);
    z3::expr r = zc->real_val(num.c_str());
    z3::expr two = zc->real_val(1);
    // power of two as exact big numeral string via z3.
    z3::expr p = z3::pw(zc->int_val(2), zc->int_val(std::abs(ex)));
    z3::expr pr = z3::to_real(p).simplify();
    return (ex >= 0 ? r * pr : r / pr).simplify();
}
static V mkSF(unsigned w, z3::expr e) {
    V v; v.k = V::F; v.w = w; v.s = make_shared<Sym>(Sym{e.simplify(), 0, 0}); return v;
}
static z3::expr EF(const V& v) { return v.s ? v.s->e : zr(v.d); }

// ---------------------------------------------------------------- memory
struct Cell { uint32_t size; V v; };
struct SymStore { z3::expr off; uint32_t size; V v; };
struct Obj {
    uint64_t base = 0; uint64_t size = 0; bool live = true, ro = false, stack = false;
    Function* fn = nullptr; string name;
    vector<uint8_t> bytes, def;
    std::map<uint64_t, Cell> cells;
    // symbolic buffer: unbounded size, log of stores over an uninterpreted initial content.
    bool symbuf = false; SymP symsize; vector<SymStore> log; int id = 0;
};
typedef shared_ptr<Obj> ObjP;

struct Frame {
    Function* f = nullptr; BasicBlock* bb = nullptr; BasicBlock* prev = nullptr;
    BasicBlock::iterator it;
    vector<V> loc;
    vector<uint32_t> allocas;
    CallBase* call = nullptr;             // call inst in the caller.
    vector<V> varargs;
    std::map<const Loop*, V> arb;         // arbitrary-iteration loops in progress.
    void* stop_tag = nullptr;
};
struct LoopRule { string fn; int mode; int id; };
struct InputRec { string name; z3::expr e; int kind; }; // kind 0 int, 1 real
struct PtrAddr { };
struct State {
    vector<Frame> st;
    vector<ObjP> objs;
    vector<z3::expr> pc;
    vector<InputRec> inputs;
    std::map<std::pair<unsigned, unsigned>, std::pair<V, V>> divmemo; // by expr ids
    vector<z3::expr> keep;                // keeps divmemo ids alive.
    shared_ptr<z3::model> model;
    uint64_t next_base = 0x100000;
    // exceptions
    bool throwing = false; V exc; GlobalVariable* exc_ti = nullptr; V exc_tiv;
    vector<std::pair<V, V>> caught;       // (object, typeinfo)
    vector<string> loop_notes;
    long steps = 0; int depthforks = 0; int fresh = 0; int uncaught = 0;
    std::map<int, V> witness; std::map<const Function*, Function*> contracts; vector<LoopRule> looprules;
    vector<int> arbEntries; vector<vector<ObjP>> arbSnap; std::set<uint32_t> ghosts; int restartEntry = -1; bool restartFinal = false; vector<std::pair<z3::expr, bool>> exitSub; std::vector<int> probes; std::map<int, V> iters;
};
typedef shared_ptr<State> StateP;

// ---------------------------------------------------------------- results
struct Ob { string label, kind, where; long n = 0, trivial = 0, proved = 0, failed = 0, unknown = 0; string model; vector<std::pair<string,string>> inputs; };
static std::map<string, Ob> g_obs;
static std::set<string> g_covers_hit, g_covers_all;
static std::map<string, long> g_contract_calls, g_ext_used, g_stub_used, g_loop_used;
static llvm::DenseMap<const Function*, long> g_fn_exec;
static vector<string> g_unsupported;
static long g_paths = 0, g_steps = 0, g_forks = 0, g_throws = 0;
static string g_smt_dump;

struct RetryLoop {};

class Exec {
public:
    Module& M; const DataLayout& DL;
    llvm::DenseMap<const Value*, int> slots;
    llvm::DenseMap<const Function*, int> nslots;
    std::map<const Function*, std::pair<shared_ptr<DominatorTree>, shared_ptr<LoopInfo>>> loops;
    std::unordered_map<const Function*, string> dem;
    std::map<const GlobalValue*, uint32_t> gobj;
    std::map<uint32_t, Function*> fobj;
    
    z3::solver sol;
    vector<z3::expr> pushed;
    StateP S;                             // current state.
    vector<StateP> work;
    Instruction* cur = nullptr;

    Exec(Module& m) : M(m), DL(m.getDataLayout()), sol(*zc) {
        z3::params p(*zc);
        p.set("rlimit", g_rlimit);
        p.set("timeout", 20000u);
        p.set("random_seed", 1u);
        sol.set(p);
    }

    // ------------------------------------------------------------ naming
    const string& dname(const Function* f) {
        auto i = dem.find(f);
        if (i != dem.end()) return i->second;
        return dem[f] = demangle(f->getName().str());
    }
    string where() {
        if (!cur) return "?";
        string fn = cur->getFunction() ? dname(cur->getFunction()) : "?";
        if (fn.size() > 100) fn = fn.substr(0, 100) + "...";
        if (auto* dl = cur->getDebugLoc().get()) {
            string f = dl->getFilename().str();
            auto p = f.rfind('/'); if (p != string::npos) f = f.substr(p + 1);
            return f + ":" + std::to_string(dl->getLine()) + " in " + fn;
        }
        return fn;
    }
    string where_fn() { string fn = cur && cur->getFunction() ? dname(cur->getFunction()) : "?"; return fn.size() > 120 ? fn.substr(0,120) : fn; }
    string backtrace() {
        string r;
        for (int i = (int)S->st.size() - 1; i >= 0 && i > (int)S->st.size() - 8; i--) {
            string n = dname(S->st[i].f); if (n.size() > 80) n = n.substr(0, 80) + "..";
            r += "\n    < " + n;
        }
        return r;
    }

    // ------------------------------------------------------------ solver
    void sync() {
        size_t n = 0;
        while (n < pushed.size() && n < S->pc.size() && z3::eq(pushed[n], S->pc[n])) n++;
        if (pushed.size() > n) { sol.pop(pushed.size() - n); pushed.erase(pushed.begin() + n, pushed.end()); }
        for (; n < S->pc.size(); n++) { sol.push(); sol.add(S->pc[n]); pushed.push_back(S->pc[n]); }
    }
    z3::check_result cvc5(const z3::expr& q) {
        z3::solver s2(*zc);
        for (auto& e : S->pc) s2.add(e);
        s2.add(q);
        string smt = s2.to_smt2();
        char fn[] = "/tmp/yv_XXXXXX"; int fd = mkstemp(fn);
        if (fd < 0) return z3::unknown;
        string t = "(set-logic ALL)\n" + smt;
        if (write(fd, t.data(), t.size()) < 0) {}
        close(fd);
        g_cvc5++;
        string cmd = string("cvc5 --lang smt2 --tlimit=15000 ") + fn + " 2>/dev/null";
        FILE* p = popen(cmd.c_str(), "r"); char buf[64] = {0};
        if (p) { if (!fgets(buf, 60, p)) buf[0] = 0; pclose(p); }
        unlink(fn);
        string r = buf;
        if (r.substr(0, 5) == "unsat") return z3::unsat;
        if (r.substr(0, 3) == "sat") return z3::sat;
        return z3::unknown;
    }
    // Is pc /\ q satisfiable?
    z3::check_result check(const z3::expr& q, shared_ptr<z3::model>* mdl = nullptr, bool hard = false) {
        double t0 = now(); g_queries++;
        z3::check_result r = z3::unknown;
        try {
            sync();
            sol.push(); sol.add(q);
            r = sol.check();
            if (r == z3::sat && mdl) { try { *mdl = make_shared<z3::model>(sol.get_model()); } catch (z3::exception&) {} }
            sol.pop();
        } catch (z3::exception& ex) { throw Unsupported{string("z3: ") + ex.msg()}; }
        if (r == z3::unknown && hard) {
            // Fresh, non-incremental solver (enables nlsat etc.).
            z3::solver s2(*zc); z3::params p(*zc);
            p.set("rlimit", g_rlimit * 4); p.set("timeout", 30000u); s2.set(p);
            for (auto& e : S->pc) s2.add(e);
            s2.add(q);
            r = s2.check();
            if (r == z3::sat && mdl) { try { *mdl = make_shared<z3::model>(s2.get_model()); } catch (z3::exception&) {} }
            if (r == z3::unknown) {
                r = cvc5(q);
                if (r == z3::sat && mdl) mdl->reset();
            }
        }
        g_solver_s += now() - t0;
        static double slow = getenv("YV_SLOW") ? atof(getenv("YV_SLOW")) : 1e9;
        if (now() - t0 > slow) { std::cerr << "SLOW " << now() - t0 << " s " << r << " @ " << where() << backtrace() << "\n  q: " << q << "\n"; for (auto& e : S->pc) std::cerr << "  pc: " << e << "\n"; }
        if (now() > g_deadline) throw Unsupported{"time limit reached"};
        return r;
    }
    bool modelTrue(const z3::expr& c) {
        if (!S->model) return false;
        try { return S->model->eval(c, true).is_true(); } catch (z3::exception&) { return false; }
    }
    // must c hold?
    bool must(const z3::expr& c0, bool hard = false) {
        z3::expr c = c0.simplify();
        if (c.is_true()) return true;
        if (c.is_false()) return false;
        if (S->model && modelTrue(!c)) return false;
        shared_ptr<z3::model> m;
        auto r = check(!c, &m, hard);
        if (r == z3::sat && m && !S->model) S->model = m;
        return r == z3::unsat;
    }
    bool may(const z3::expr& c0) {
        z3::expr c = c0.simplify();
        if (c.is_true()) return true;
        if (c.is_false()) return false;
        if (modelTrue(c)) return true;
        shared_ptr<z3::model> m;
        auto r = check(c, &m);
        if (r == z3::sat && m) S->model = m;
        return r != z3::unsat;
    }
    void addpc(const z3::expr& c0) {
        z3::expr c = c0.simplify();
        if (c.is_true()) return;
        if (c.is_false()) throw PathEnd{};
        if (c.is_app() && c.decl().decl_kind() == Z3_OP_AND) {
            for (unsigned i = 0; i < c.num_args(); i++) S->pc.push_back(c.arg(i));
        } else S->pc.push_back(c);
        if (S->model && !modelTrue(c)) S->model.reset();
    }
    string modelStr(shared_ptr<z3::model> m, vector<std::pair<string,string>>* out) {
        string r;
        for (auto& in : S->inputs) {
            string v = "?";
            if (m) {
                try {
                    z3::expr x = m->eval(in.e, true);
                    v = in.kind == 1 ? x.get_decimal_string(17) : x.to_string();
                    string t; for (char ch : v) if (ch != '(' && ch != ')' && ch != ' ') t += ch;
                    v = t;
                } catch (z3::exception&) {}
            }
            r += in.name + "=" + v + " ";
            if (out) out->push_back({in.name, v});
        }
        return r;
    }
    // An obligation: pc |= c.  Returns whether it holds; afterwards c is assumed.
    bool prove(const z3::expr& c0, const string& kind, const string& label) {
        if (!S->probes.empty()) { // exploratory pass of a loop: discover what the body changes; nothing is claimed.
            if (kind == "assert") return true;
            z3::expr c = c0.simplify();
            if (c.is_true()) return true;
            if (c.is_false()) throw PathEnd{};
            addpc(c); return true;
        }
        string key = kind + "|" + label;
        Ob& ob = g_obs[key];
        if (!ob.n) { ob.label = label; ob.kind = kind; ob.where = where(); }
        ob.n++;
        z3::expr c = c0.simplify();
        if (c.is_true()) { ob.trivial++; return true; }
        if (ob.failed) { // already refuted: don't re-prove, continue under the assumption.
            addpc(c); return false;
        }
        shared_ptr<z3::model> m;
        z3::check_result r;
        if (S->model && modelTrue(!c)) { r = z3::sat; m = S->model; }
        else r = check(!c, &m, true);
        if (r == z3::unsat) { ob.proved++; S->pc.size(); return true; }
        if (r == z3::sat) {
            ob.failed++;
            if (getenv("YV_FAILQ")) { std::cerr << "FAIL " << label << backtrace() << "\n  q0: " << c0 << "\n  q: " << c << "\n"; for (auto& e : S->pc) std::cerr << "  pc: " << e << "\n"; }
            ob.where = where() + backtrace();
            ob.model = modelStr(m, &ob.inputs);
        } else {
            ob.unknown++;
            if (g_smt_dump.size()) {
                z3::solver s2(*zc); for (auto& e : S->pc) s2.add(e); s2.add(!c);
                std::ofstream(g_smt_dump) << s2.to_smt2();
            }
        }
        // continue under the assumption.
        if (c.is_false()) throw PathEnd{};
        addpc(c);
        if (!may(zc->bool_val(true))) throw PathEnd{};
        return false;
    }
    void proveIf(bool ok, const string& kind, const string& label) {
        prove(zc->bool_val(ok), kind, label);
    }

    // ------------------------------------------------------------ objects
    uint32_t newObj(uint64_t size, const string& name, bool undef = true) {
        if (size > (64u << 20)) throw Unsupported{"huge concrete object " + std::to_string(size)};
        auto o = make_shared<Obj>();
        o->size = size; o->name = name;
        o->base = (S->next_base + 63) & ~63ull;
        S->next_base = o->base + size + 64;
        o->bytes.assign(size, 0); o->def.assign(size, undef ? 0 : 1);
        S->objs.push_back(o);
        return (uint32_t)S->objs.size() - 1;
    }
    Obj& wr(uint32_t id) {
        ObjP& p = S->objs[id];
        if (p.use_count() > 1) p = make_shared<Obj>(*p);
        return *p;
    }
    Obj& rd(uint32_t id) { return *S->objs[id]; }
    uint32_t objAt(uint64_t addr) { // raw address -> object
        for (uint32_t i = 1; i < S->objs.size(); i++)
            if (S->objs[i] && S->objs[i]->live && addr >= S->objs[i]->base && addr <= S->objs[i]->base + S->objs[i]->size) return i;
        return 0;
    }
    uint32_t gvObj(const GlobalValue* gv0) {
        const GlobalValue* gv = gv0;
        auto i = gobj.find(gv);
        if (i != gobj.end()) return i->second;
        throw Unsupported{"unknown global " + gv->getName().str()};
    }
    void clearRange(Obj& o, uint64_t off, uint64_t n) {
        auto it = o.cells.lower_bound(off >= 16 ? off - 16 : 0);
        while (it != o.cells.end() && it->first < off + n) {
            if (it->first + it->second.size > off) {
                // partially overwritten symbolic cell: invalidate rest.
                uint64_t a = it->first, b = a + it->second.size;
                if (a < off || b > off + n) {
                    V v = it->second.v;
                    // split ints bytewise if concrete-possible: mark the remainder undefined unless int cell.
                    if (v.k == V::I && v.w % 8 == 0) {
                        uint32_t sz = it->second.size;
                        it = o.cells.erase(it);
                        for (uint32_t b8 = 0; b8 < sz; b8++) {
                            uint64_t p = a + b8;
                            if (p >= off && p < off + n) continue;
                            o.cells[p] = Cell{1, extractByte(v, b8)};
                        }
                        it = o.cells.lower_bound(a);
                        if (it != o.cells.end() && it->first < off) { while (it != o.cells.end() && it->first < off) ++it; }
                        continue;
                    }
                    for (uint64_t p = a; p < b; p++) o.def[p] = 0;
                }
                it = o.cells.erase(it);
            } else ++it;
        }
    }
    V extractByte(const V& v, unsigned b) {
        // unsigned byte b of int v.
        z3::expr u = E(v);
        if (v.w == 1) u = z3::ite(u, zi(1), zi(0));
        z3::expr q = b ? z3::expr(*zc, Z3_mk_div(*zc, u, zi((i128)1 << (8 * b)))) : u;
        z3::expr m = z3::mod(q, zi(256));
        z3::expr sg = z3::ite(m >= zi(128), m - zi(256), m);
        return mkS(8, sg, -128, 127);
    }
    unsigned vsize(Type* t) { return (unsigned)DL.getTypeStoreSize(t).getFixedValue(); }

    void storeScalar(Obj& o, uint64_t off, uint32_t sz, const V& v) {
        clearRange(o, off, sz);
        for (uint32_t i = 0; i < sz; i++) o.def[off + i] = v.k == V::U ? 0 : 1;
        if (v.k == V::U) return;
        if (v.k == V::I && !v.s) {
            i128 c = v.c; memcpy(&o.bytes[off], &c, std::min<uint32_t>(sz, 16));
        } else if (v.k == V::F && !v.s) {
            if (v.w == 32) { float f = (float)v.d; memcpy(&o.bytes[off], &f, 4); }
            else memcpy(&o.bytes[off], &v.d, 8);
        } else if (v.k == V::P && v.obj == 0 && !v.s) {
            uint64_t a = (uint64_t)v.c; memcpy(&o.bytes[off], &a, 8);
        } else o.cells[off] = Cell{sz, v};
    }
    void storeV(Obj& o, uint64_t off, Type* t, const V& v) {
        if (auto* st = dyn_cast<StructType>(t)) {
            auto* sl = DL.getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++)
                storeV(o, off + sl->getElementOffset(i), st->getElementType(i), v.k == V::A ? (*v.a)[i] : v);
            return;
        }
        if (isa<ArrayType>(t) || isa<FixedVectorType>(t)) {
            Type* et = isa<ArrayType>(t) ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
            uint64_t n = isa<ArrayType>(t) ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
            if (et->isIntegerTy() && et->getIntegerBitWidth() % 8) throw Unsupported{"store of bit vector"};
            uint64_t es = DL.getTypeAllocSize(et);
            for (uint64_t i = 0; i < n; i++) storeV(o, off + i * es, et, v.k == V::A ? (*v.a)[i] : v);
            return;
        }
        uint32_t sz = vsize(t);
        if (t->isIntegerTy() && v.k == V::I && t->getIntegerBitWidth() < sz * 8u) {
            V x = zext(v, sz * 8); storeScalar(o, off, sz, x); return;
        }
        storeScalar(o, off, sz, v);
    }
    V loadScalar(const Obj& o, uint64_t off, uint32_t sz, Type* t) {
        // exact cell?
        auto it = o.cells.find(off);
        if (it != o.cells.end() && it->second.size == sz) return retype(it->second.v, t);
        // any overlapping cell?
        bool ov = false;
        auto j = o.cells.lower_bound(off >= 16 ? off - 16 : 0);
        for (; j != o.cells.end() && j->first < off + sz; ++j)
            if (j->first + j->second.size > off) { ov = true; break; }
        if (!ov) {
            bool alldef = true;
            for (uint32_t i = 0; i < sz; i++) if (!o.def[off + i]) alldef = false;
            if (!alldef) return mkU();
            i128 c = 0; memcpy(&c, &o.bytes[off], std::min<uint32_t>(sz, 16));
            if (t->isFloatTy()) { float f; memcpy(&f, &c, 4); return mkF(32, f); }
            if (t->isDoubleTy()) { double d; memcpy(&d, &c, 8); return mkF(64, d); }
            if (t->isX86_FP80Ty()) { long double d; memcpy(&d, &c, 10); return mkF(80, (double)d); }
            if (t->isPointerTy()) return mkP(0, (i128)(uint64_t)c);
            if (t->isIntegerTy()) return mkI(t->getIntegerBitWidth(), c);
            throw Unsupported{"load type"};
        }
        // Assemble from bytes (integers only).
        if (t->isIntegerTy() || t->isPointerTy()) {
            // If covered by a single larger pointer cell etc.: unsupported.
            z3::expr acc = zi(0);
            for (uint32_t i = 0; i < sz; i++) {
                uint64_t p = off + i;
                // find cell covering p
                const Cell* cc = nullptr; uint64_t cb = 0;
                auto k = o.cells.upper_bound(p);
                if (k != o.cells.begin()) { --k; if (k->first + k->second.size > p) { cc = &k->second; cb = k->first; } }
                z3::expr by(*zc);
                if (cc) {
                    if (cc->v.k != V::I) {
                        if (cc->v.k == V::P) throw Unsupported{"partial load of a pointer"};
                        throw Unsupported{"partial load of fp"};
                    }
                    V b = extractByte(cc->v, (unsigned)(p - cb));
                    by = z3::mod(E(b), zi(256));
                } else {
                    if (!o.def[p]) return mkU();
                    by = zi(o.bytes[p]);
                }
                acc = acc + by * zi((i128)1 << (8 * i));
            }
            unsigned w = t->isPointerTy() ? 64 : t->getIntegerBitWidth();
            acc = z3::ite(acc > zi(wmax(w)), acc - zi((i128)1 << w), acc);
            return retype(mkS(w, acc, wmin(w), wmax(w)), t);
        }
        throw Unsupported{"mixed load of non-integer"};
    }
    V retype(const V& v, Type* t) {
        if (v.k == V::U || v.k == V::A) return v;
        if (t->isPointerTy()) {
            if (v.k == V::P) return v;
            if (v.k == V::I) return intToPtr(v);
        } else if (t->isIntegerTy()) {
            if (v.k == V::I) {
                unsigned w = t->getIntegerBitWidth();
                if (w == v.w) return v;
                if (w < v.w) return trunc(v, w);
                return zext(v, w);
            }
            if (v.k == V::P) return ptrToInt(v, t->getIntegerBitWidth());
            if (v.k == V::F && !v.s) { if (v.w == 64) { int64_t x; memcpy(&x, &v.d, 8); return mkI(64, x); } else { float f = (float)v.d; int32_t x; memcpy(&x, &f, 4); return mkI(32, x); } }
            return v; // symbolic real carried through an integer copy.
        } else if (t->isFloatingPointTy()) {
            if (v.k == V::F) return v;
            if (v.k == V::I && !v.s) { if (t->isDoubleTy()) { int64_t x = (int64_t)v.c; double d; memcpy(&d, &x, 8); return mkF(64, d); } else { int32_t x = (int32_t)v.c; float d; memcpy(&d, &x, 4); return mkF(32, d); } }
        }
        throw Unsupported{"retype of value"};
    }
    V loadV(const Obj& o, uint64_t off, Type* t) {
        if (auto* st = dyn_cast<StructType>(t)) {
            auto* sl = DL.getStructLayout(st); vector<V> r;
            for (unsigned i = 0; i < st->getNumElements(); i++) r.push_back(loadV(o, off + sl->getElementOffset(i), st->getElementType(i)));
            return mkA(r);
        }
        if (isa<ArrayType>(t) || isa<FixedVectorType>(t)) {
            Type* et = isa<ArrayType>(t) ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
            uint64_t n = isa<ArrayType>(t) ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
            uint64_t es = DL.getTypeAllocSize(et); vector<V> r;
            for (uint64_t i = 0; i < n; i++) r.push_back(loadV(o, off + i * es, et));
            return mkA(r);
        }
        if (t->isIntegerTy(1)) { V b = loadScalar(o, off, 1, Type::getInt8Ty(M.getContext())); return b.k == V::U ? b : trunc(b, 1); }
        return loadScalar(o, off, vsize(t), t);
    }
    // Resolve a pointer to (obj, concrete offset), proving in-bounds.  May fork on symbolic offsets.
    // For symbuf objects the offset stays symbolic (returned in so).
    struct Ref { uint32_t obj; uint64_t off; bool sym; std::optional<z3::expr> so; };
    Ref resolve(V p, uint64_t size, const char* what) {
        if (p.k == V::U) throw Unsupported{string(what) + " through undefined pointer @ " + where()};
        if (p.k == V::I) p = intToPtr(p);
        if (p.k != V::P) throw Unsupported{"not a pointer"};
        if (p.obj == 0) {
            if (p.s) throw Unsupported{"symbolic raw address"};
            uint32_t o = objAt((uint64_t)p.c);
            if (!o) { proveIf(false, "memory", string("valid pointer for ") + what + " in " + where_fn()); throw PathEnd{}; }
            p = mkP(o, (i128)((uint64_t)p.c - S->objs[o]->base));
        }
        Obj& o = rd(p.obj);
        if (!o.live) { proveIf(false, "memory", string("no use after free: ") + what + " in " + where_fn()); throw PathEnd{}; }
        if (o.symbuf) {
            z3::expr off = p.s ? p.s->e : zi(p.c);
            prove(off >= 0 && off + zi(size) <= o.symsize->e, "memory", string(what) + " in bounds of " + o.name + " in " + where_fn());
            return Ref{p.obj, 0, true, off};
        }
        if (!p.s) {
            if (p.c < 0 || p.c + (i128)size > (i128)o.size) {
                proveIf(false, "memory", string(what) + " in bounds in " + where_fn()); throw PathEnd{};
            }
            return Ref{p.obj, (uint64_t)p.c, false, {}};
        }
        if (size == 0) return Ref{p.obj, 0, false, {}};
        if (!(p.s->lo >= 0 && p.s->hi + (i128)size <= (i128)o.size))
            prove(p.s->e >= 0 && p.s->e + zi(size) <= zi(o.size), "memory", string(what) + " in bounds in " + where_fn());
        // Enumerate the feasible offsets by forking.
        i128 c = concretize(p.s->e);
        return Ref{p.obj, (uint64_t)c, false, {}};
    }
    // Fork over all feasible values of an Int expr; returns this path's value.
    // The current instruction is re-executed in the sibling states.
    i128 concretize(const z3::expr& e) {
        shared_ptr<z3::model> m;
        z3::expr t = zc->bool_val(true);
        i128 c = 0; bool have = false;
        if (S->model) { try { have = numval(S->model->eval(e, true), c); } catch (z3::exception&) {} }
        if (!have) {
            auto r = check(t, &m);
            if (r == z3::unsat) throw PathEnd{};
            if (r != z3::sat || !m) throw Unsupported{"cannot concretize"};
            S->model = m;
            if (!numval(m->eval(e, true), c)) throw Unsupported{"cannot concretize (2)"};
        }
        z3::expr ne = !(e == zi(c));
        if (may_other(ne)) {
            if (++S->depthforks > 4000) throw Unsupported{"too many concretization forks"};
            StateP T = clone();
            swap(T); bool ok = true;
            try { addpc(ne); } catch (PathEnd&) { ok = false; }
            swap(T);
            if (ok) { g_forks++; work.push_back(T); }   // sibling re-executes the instruction.
        }
        addpc(e == zi(c));
        return c;
    }
    bool may_other(const z3::expr& c) { auto r = check(c.simplify()); return r != z3::unsat; }
    void swap(StateP& T) { std::swap(S, T); }
    StateP clone() { return make_shared<State>(*S); }


    V memLoad(const V& p, Type* t) {
        if (p.k == V::U && p.a) {
            V r; bool first = true;
            for (auto& c : *p.a) { V x = memLoad(c, t); if (first) r = x; else if (!sameV(r, x)) r = mkU(); first = false; }
            return r;
        }
        Ref r = resolve(p, vsize(t), "load");
        Obj& o = rd(r.obj);
        if (!r.sym) return loadV(o, r.off, t);
        return symLoad(o, *r.so, t);
    }
    V symLoad(Obj& o, z3::expr off, Type* t) {
        if (auto* vt = dyn_cast<FixedVectorType>(t)) {
            vector<V> r; unsigned es = vsize(vt->getElementType());
            for (unsigned i = 0; i < vt->getNumElements(); i++) r.push_back(symLoad(o, off + zi(i * es), vt->getElementType()));
            return mkA(r);
        }
        unsigned sz = vsize(t);
        off = off.simplify();
        if (t->isFloatingPointTy()) {
            z3::func_decl f = z3::function(("buf" + std::to_string(o.id)).c_str(), zc->int_sort(), zc->real_sort());
            z3::expr acc = f(off);
            for (auto& s : o.log) {
                if (s.size != sz) throw Unsupported{"mixed-size symbuf access"};
                z3::expr same = (s.off == off).simplify();
                if (same.is_true()) acc = EF(s.v);
                else if (same.is_false()) continue;
                else if (must(!same)) { prove(off + zi(sz) <= s.off || off >= s.off + zi(sz), "memory", "no partial overlap in " + where_fn()); }
                else { acc = z3::ite(same, EF(s.v), acc); }
            }
            return mkSF(t->isFloatTy() ? 32 : 64, acc);
        }
        for (auto i = o.log.rbegin(); i != o.log.rend(); ++i) { // newest store that is provably the one read.
            if (i->size == sz && must(i->off == off)) return i->v;
            if (!must(i->off + zi(i->size) <= off || off + zi(sz) <= i->off)) throw Unsupported{"symbuf load of possibly overlapping stores"};
        }
        throw Unsupported{"symbuf load of non-fp content"};
    }
    void symStore(uint32_t id, z3::expr off, Type* t, const V& v) {
        if (auto* vt = dyn_cast<FixedVectorType>(t)) {
            unsigned es = vsize(vt->getElementType());
            for (unsigned i = 0; i < vt->getNumElements(); i++) symStore(id, off + zi(i * es), vt->getElementType(), v.k == V::A ? (*v.a)[i] : v);
            return;
        }
        if (!t->isFloatingPointTy() && !t->isIntegerTy()) throw Unsupported{"symbuf store of non-arithmetic"};
        if (v.k == V::U) throw Unsupported{"store undef to symbuf"};
        wr(id).log.push_back(SymStore{off.simplify(), vsize(t), v});
    }
    void memStore(const V& p, Type* t, const V& v) {
        Ref r = resolve(p, vsize(t), "store");
        if (r.sym) { symStore(r.obj, *r.so, t, v); return; }
        if (rd(r.obj).ro) { proveIf(false, "memory", "no store to constant in " + where_fn()); throw PathEnd{}; }
        storeV(wr(r.obj), r.off, t, v);
    }
    void memCopy(const V& d, const V& s, uint64_t n) {
        if (!n) return;
        Ref rs = resolve(s, n, "memcpy source"), rd_ = resolve(d, n, "memcpy target");
        if (rs.sym || rd_.sym) throw Unsupported{"memcpy on symbuf"};
        const Obj& so = rd(rs.obj);
        vector<uint8_t> by(so.bytes.begin() + rs.off, so.bytes.begin() + rs.off + n);
        vector<uint8_t> df(so.def.begin() + rs.off, so.def.begin() + rs.off + n);
        vector<std::pair<uint64_t, Cell>> cs;
        auto it = so.cells.lower_bound(rs.off >= 16 ? rs.off - 16 : 0);
        for (; it != so.cells.end() && it->first < rs.off + n; ++it) {
            if (it->first + it->second.size <= rs.off) continue;
            if (it->first < rs.off || it->first + it->second.size > rs.off + n) {
                if (it->second.v.k != V::I) throw Unsupported{"memcpy splits a cell"};
                for (uint32_t b = 0; b < it->second.size; b++) { uint64_t p = it->first + b; if (p >= rs.off && p < rs.off + n) cs.push_back({p - rs.off, Cell{1, extractByte(it->second.v, b)}}); }
                continue;
            }
            cs.push_back({it->first - rs.off, it->second});
        }
        Obj& o = wr(rd_.obj);
        if (o.ro) throw Unsupported{"memcpy to constant"};
        clearRange(o, rd_.off, n);
        memcpy(&o.bytes[rd_.off], by.data(), n); memcpy(&o.def[rd_.off], df.data(), n);
        for (auto& c : cs) o.cells[rd_.off + c.first] = c.second;
    }
    void memSet(const V& d, const V& val, uint64_t n) {
        if (!n) return;
        Ref r = resolve(d, n, "memset");
        if (r.sym || val.s) throw Unsupported{"symbolic memset"};
        Obj& o = wr(r.obj);
        clearRange(o, r.off, n);
        for (uint64_t i = 0; i < n; i++) { o.bytes[r.off + i] = (uint8_t)val.c; o.def[r.off + i] = val.k == V::U ? 0 : 1; }
    }

    // ------------------------------------------------------------ ints
    V trunc(const V& v, unsigned w) {
        if (v.k != V::I) return v;
        if (!v.s) return mkI(w, v.c);
        if (v.w == 1) return v;
        if (w == 1) { // lowest bit
            z3::expr e = v.s->e;
            // common: ite(b,1,0)
            if (v.s->lo >= 0 && v.s->hi <= 1) return mkB(e != 0);
            return mkB(z3::mod(e, zi(2)) == 1);
        }
        if (v.s->lo >= wmin(w) && v.s->hi <= wmax(w)) { V r = v; r.w = w; return r; }
        if (must(v.s->e >= zi(wmin(w)) && v.s->e <= zi(wmax(w)))) return mkS(w, v.s->e, std::max(lo(v), wmin(w)), std::min(hi(v), wmax(w)));
        return wrap(v.s->e, w);
    }
    V wrap(z3::expr e, unsigned w) {
        z3::expr r = z3::mod(e + zi((i128)1 << (w - 1)), zi((i128)1 << w)) - zi((i128)1 << (w - 1));
        return mkS(w, r, wmin(w), wmax(w));
    }
    V zext(const V& v, unsigned w) {
        if (v.k != V::I) return v;
        if (!v.s) { i128 c = v.c; if (v.w > 1 && c < 0) c += (i128)1 << v.w; return mkI(w, c); }
        if (v.w == 1) return mkS(w, z3::ite(v.s->e, zi(1), zi(0)), 0, 1);
        if (v.w == w) return v;
        if (v.s->lo >= 0) { V r = v; r.w = w; return r; }
        if (must(v.s->e >= 0)) return mkS(w, v.s->e, 0, hi(v));
        return mkS(w, z3::ite(v.s->e >= 0, v.s->e, v.s->e + zi((i128)1 << v.w)), 0, ((i128)1 << v.w) - 1);
    }
    V sext(const V& v, unsigned w) {
        if (v.k != V::I) return v;
        if (!v.s) { if (v.w == 1) return mkI(w, v.c ? -1 : 0); return mkI(w, v.c); }
        if (v.w == 1) return mkS(w, z3::ite(v.s->e, zi(-1), zi(0)), -1, 0);
        V r = v; r.w = w; return r;
    }
    z3::expr uns(const V& v) { // unsigned interpretation
        if (!v.s) return zi(v.c < 0 && v.w > 1 ? v.c + ((i128)1 << v.w) : v.c);
        if (v.w == 1) return z3::ite(v.s->e, zi(1), zi(0));
        if (v.s->lo >= 0 || must(v.s->e >= 0)) return v.s->e;
        return z3::ite(v.s->e >= 0, v.s->e, v.s->e + zi((i128)1 << v.w));
    }
    V ptrToInt(const V& p, unsigned w) {
        if (p.k == V::I || p.k == V::U) return p;
        i128 b = p.obj ? (i128)S->objs[p.obj]->base : 0;
        if (!p.s) return mkI(w, b + p.c);
        return mkS(w, zi(b) + p.s->e, sadd(b, p.s->lo), sadd(b, p.s->hi));
    }
    V intToPtr(const V& v) {
        if (v.k == V::P || v.k == V::U) return v;
        if (!v.s) return mkP(0, v.c);
        // Find the object whose base appears: try each symbuf/obj by solver? Use interval.
        for (uint32_t i = 1; i < S->objs.size(); i++) {
            auto& o = S->objs[i]; if (!o || !o->live) continue;
            if (v.s->lo >= (i128)o->base && v.s->hi <= (i128)(o->base + o->size)) {
                V p = mkP(i, 0); z3::expr e = (v.s->e - zi(o->base)).simplify();
                i128 c; if (numval(e, c)) { p.c = c; return p; }
                p.s = make_shared<Sym>(Sym{e, v.s->lo - (i128)o->base, v.s->hi - (i128)o->base});
                return p;
            }
        }
        throw Unsupported{"inttoptr of symbolic value"};
    }
    // Lift a binary op over ite-trees with constant leaves.
    bool iteLeaves(const z3::expr& e, int depth, int& n) {
        i128 c;
        if (numval(e, c)) { return ++n <= 64; }
        if (depth > 12) return false;
        if (e.is_app() && e.decl().decl_kind() == Z3_OP_ITE) return iteLeaves(e.arg(1), depth + 1, n) && iteLeaves(e.arg(2), depth + 1, n);
        return false;
    }
    template <typename Fn> z3::expr iteMap(const z3::expr& e, Fn f) {
        i128 c;
        if (numval(e, c)) return f(c);
        return z3::ite(e.arg(0), iteMap(e.arg(1), f), iteMap(e.arg(2), f));
    }
    // truncated division with (proved or checked) nonzero divisor.
    std::pair<V, V> divrem(const V& a, const V& b, unsigned w) {
        if (!a.s && !b.s) {
            if (b.c == 0) { proveIf(false, "arith", "no division by zero in " + where_fn()); throw PathEnd{}; }
            return {mkI(w, a.c / b.c), mkI(w, a.c % b.c)};
        }
        if (b.s) prove(b.s->e != 0, "arith", "no division by zero in " + where_fn());
        else if (b.c == 0) { proveIf(false, "arith", "no division by zero in " + where_fn()); throw PathEnd{}; }
        z3::expr ea = E(a), eb = E(b);
        bool apos = lo(a) >= 0 || must(ea >= 0);
        i128 mag = std::max(hi(a) < 0 ? -hi(a) : hi(a), lo(a) < 0 ? -lo(a) : lo(a));
        if (!b.s) {
            i128 c = b.c, ac = c < 0 ? -c : c;
            z3::expr C = zi(ac);
            z3::expr q(*zc), r(*zc);
            auto D = [&](z3::expr x) { return z3::expr(*zc, Z3_mk_div(*zc, x, C)); };
            if (apos) { q = D(ea); r = z3::mod(ea, C); }
            else {
                bool aneg = must(ea <= 0);
                if (aneg) { q = -D(-ea); r = -z3::mod(-ea, C); }
                else { q = z3::ite(ea >= 0, D(ea), -D(-ea)); r = z3::ite(ea >= 0, z3::mod(ea, C), -z3::mod(-ea, C)); }
            }
            if (c < 0) q = -q;
            i128 ql = apos ? lo(a) / ac : -(mag / ac), qh = apos ? hi(a) / ac : mag / ac;
            if (ql < 0 && apos) ql = 0;
            if (c < 0) { i128 t = ql; ql = -qh; qh = -t; }
            return {mkS(w, q, std::max(ql, wmin(w)), std::min(qh, wmax(w))), mkS(w, r, apos ? 0 : -(ac - 1), (!apos && hi(a) <= 0) ? 0 : ac - 1)};
        }
        // symbolic divisor.
        auto key = std::make_pair(Z3_get_ast_id(*zc, ea), Z3_get_ast_id(*zc, eb));
        auto it = S->divmemo.find(key);
        if (it != S->divmemo.end()) return it->second;
        bool bpos = lo(b) > 0 || must(eb > 0);
        // A constant multiple of the divisor, as polynomials.
        if (bpos) {
            z3::params sp(*zc); sp.set("som", true);
            for (int k = 1; k <= 32; k++) { i128 z; if (numval((ea - k * eb).simplify(sp), z) && z == 0) { auto pr = std::make_pair(mkI(w, k), mkI(w, 0)); S->divmemo.emplace(key, pr); S->keep.push_back(ea); S->keep.push_back(eb); return pr; } }
        }
        // Try the split a = k*b + rest with 0 <= rest < b (both nonneg).
        if (apos && bpos) {
            z3::expr rest(*zc), kq(*zc);
            if (splitMul(ea, eb, kq, rest)) {
                if (must(rest >= 0 && rest < eb) && must(kq >= 0)) {
                    auto pr = std::make_pair(mkS(w, kq, 0, hi(a)), mkS(w, rest, 0, std::min(hi(a), hi(b))));
                    S->divmemo.emplace(key, pr); S->keep.push_back(ea); S->keep.push_back(eb);
                    return pr;
                }
            }
        }
        string n = std::to_string(S->fresh++);
        z3::expr q = zc->int_const(("q!" + n).c_str()), r = zc->int_const(("r!" + n).c_str());
        addpc(ea == q * eb + r);
        z3::expr ab = bpos ? eb : z3::ite(eb >= 0, eb, -eb);
        if (apos) { addpc(r >= 0); addpc(r < ab); if (bpos) { addpc(q >= 0); addpc(q <= ea); } }
        else { addpc(r < ab); addpc(-ab < r); addpc(z3::implies(ea >= 0, r >= 0)); addpc(z3::implies(ea <= 0, r <= 0)); }
        addpc(q <= zi(mag)); addpc(q >= zi(-mag));
        auto pr = std::make_pair(mkS(w, q, apos && bpos ? 0 : -mag, mag), mkS(w, r, apos ? 0 : -mag, mag));
        S->divmemo.emplace(key, pr); S->keep.push_back(ea); S->keep.push_back(eb);
        return pr;
    }
    // ea == kq*eb + rest, found syntactically on the sum-of-products form.
    bool splitMul(const z3::expr& ea0, const z3::expr& eb, z3::expr& kq, z3::expr& rest) {
        z3::params sp(*zc); sp.set("som", true);
        z3::expr ea = ea0.simplify(sp);
        vector<z3::expr> terms;
        if (ea.is_app() && ea.decl().decl_kind() == Z3_OP_ADD) for (unsigned i = 0; i < ea.num_args(); i++) terms.push_back(ea.arg(i));
        else terms.push_back(ea);
        z3::expr k = zi(0), rr = zi(0); bool any = false;
        for (auto& t : terms) {
            bool hit = false;
            if (z3::eq(t, eb)) { k = k + 1; hit = true; }
            else if (t.is_app() && t.decl().decl_kind() == Z3_OP_MUL) {
                for (unsigned i = 0; i < t.num_args() && !hit; i++)
                    if (z3::eq(t.arg(i), eb)) {
                        z3::expr p = zi(1);
                        for (unsigned j = 0; j < t.num_args(); j++) if (j != i) p = p * t.arg(j);
                        k = k + p; hit = true;
                    }
            }
            if (hit) any = true; else rr = rr + t;
        }
        if (!any) { kq = zi(0); rest = ea; return true; }
        kq = k.simplify(); rest = rr.simplify();
        return true;
    }
    // x != 0 for x in {0,1}.
    z3::expr truth(const z3::expr& x) {
        if (x.is_bool()) return x;
        i128 c, d;
        if (numval(x, c)) return zc->bool_val(c != 0);
        if (x.is_app() && x.decl().decl_kind() == Z3_OP_ITE && numval(x.arg(1), c) && numval(x.arg(2), d) && c == 1 && d == 0) return x.arg(0);
        return x != 0;
    }
    V rangeCheck(z3::expr r, i128 l, i128 h, unsigned w, bool nsw, bool nuw, const char* opn) {
        if (l >= wmin(w) && h <= wmax(w)) return mkS(w, r, l, h);
        r = r.simplify();
        i128 c;
        if (numval(r, c)) { if (c >= wmin(w) && c <= wmax(w)) return mkI(w, c); }
        z3::expr in = (r >= zi(wmin(w)) && r <= zi(wmax(w)));
        if (nsw) {
            prove(in, "overflow", string("no signed overflow of ") + opn + " in " + where_fn());
            return mkS(w, r, std::max(l, wmin(w)), std::min(h, wmax(w)));
        }
        if (must(in)) return mkS(w, r, std::max(l, wmin(w)), std::min(h, wmax(w)));
        return wrap(r, w);
    }
    V binop(unsigned op, const V& a0, const V& b0, unsigned w, bool nsw, bool nuw) {
        V a = a0, b = b0;
        if (a.k == V::P) a = ptrToInt(a, w);
        if (b.k == V::P) b = ptrToInt(b, w);
        // Packed bit words (vector<bool>, bitset): unused bits of a fresh word are never
        // observed on their own; masking one takes them as a fixed pattern.
        if ((op == Instruction::And || op == Instruction::Or) && w == 64 && a.k == V::U && b.k == V::I && !b.s) a = mkI(w, 0x5a5a5a5a5a5a5a5aLL);
        if (a.k == V::U || b.k == V::U) return mkU();
        if (a.k != V::I || b.k != V::I) throw Unsupported{"int op on non-int"};
        if (!a.s && !b.s) {
            i128 x = a.c, y = b.c, r;
            unsigned __int128 ux = x < 0 && w > 1 && w < 128 ? x + ((i128)1 << w) : x, uy = y < 0 && w > 1 && w < 128 ? y + ((i128)1 << w) : y;
            switch (op) {
            case Instruction::Add: r = x + y; break;
            case Instruction::Sub: r = x - y; break;
            case Instruction::Mul: r = (i128)((unsigned __int128)x * (unsigned __int128)y); break;
            case Instruction::SDiv: case Instruction::SRem: { auto p = divrem(a, b, w); return op == Instruction::SDiv ? p.first : p.second; }
            case Instruction::UDiv: if (!uy) { divrem(a, b, w); } r = ux / uy; break;
            case Instruction::URem: if (!uy) { divrem(a, b, w); } r = ux % uy; break;
            case Instruction::And: r = x & y; break;
            case Instruction::Or: r = x | y; break;
            case Instruction::Xor: r = x ^ y; break;
            case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
                if (uy >= w) { proveIf(false, "arith", "shift amount in range in " + where_fn()); throw PathEnd{}; }
                r = op == Instruction::Shl ? (i128)(ux << (unsigned)uy) : op == Instruction::LShr ? (i128)(ux >> (unsigned)uy) : x >> (unsigned)uy; break;
            default: throw Unsupported{"binop"};
            }
            V v = mkI(w, r);
            if (nsw && w <= 64 && v.c != r && (op == Instruction::Add || op == Instruction::Sub || op == Instruction::Mul))
                proveIf(false, "overflow", string("no signed overflow of ") + Instruction::getOpcodeName(op) + " in " + where_fn());
            return v;
        }
        if (w == 1) {
            z3::expr x = E(a), y = E(b);
            switch (op) {
            case Instruction::And: return mkB(x && y);
            case Instruction::Or: return mkB(x || y);
            case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return mkB(x != y);
            default: throw Unsupported{"i1 op"};
            }
        }
        z3::expr x = E(a), y = E(b);
        switch (op) {
        case Instruction::Add: return rangeCheck(x + y, sadd(lo(a), lo(b)), sadd(hi(a), hi(b)), w, nsw, nuw, "+");
        case Instruction::Sub: return rangeCheck(x - y, sadd(lo(a), -hi(b)), sadd(hi(a), -lo(b)), w, nsw, nuw, "-");
        case Instruction::Mul: {
            i128 p[4] = {smul(lo(a), lo(b)), smul(lo(a), hi(b)), smul(hi(a), lo(b)), smul(hi(a), hi(b))};
            return rangeCheck(x * y, *std::min_element(p, p + 4), *std::max_element(p, p + 4), w, nsw, nuw, "*");
        }
        case Instruction::SDiv: return divrem(a, b, w).first;
        case Instruction::SRem: return divrem(a, b, w).second;
        case Instruction::UDiv: case Instruction::URem: {
            V ua = a, ub = b;
            if (lo(ua) < 0) { z3::expr u = uns(ua); ua = mkS(w, u, 0, hi(a) >= 0 ? ((z3::eq(u, x)) ? hi(a) : ((i128)1 << w) - 1) : ((i128)1 << w) - 1); }
            if (lo(ub) < 0) { z3::expr u = uns(ub); ub = mkS(w, u, 0, (z3::eq(u, y)) ? hi(b) : ((i128)1 << w) - 1); }
            auto p = divrem(ua, ub, 127);
            V r = op == Instruction::UDiv ? p.first : p.second;
            if (!r.s) return mkI(w, r.c);
            if (r.s->hi <= wmax(w)) { r.w = w; return r; }
            if (must(r.s->e <= zi(wmax(w)))) return mkS(w, r.s->e, 0, wmax(w));
            return wrap(r.s->e, w);
        }
        case Instruction::Shl:
            if (!b.s) return rangeCheck(x * zi((i128)1 << (int)b.c), smul(lo(a), (i128)1 << (int)b.c), smul(hi(a), (i128)1 << (int)b.c), w, nsw, nuw, "<<");
            break;
        case Instruction::AShr:
            if (!b.s) {
                if (lo(a) >= 0 && (hi(a) >> (int)b.c) == 0) return mkI(w, 0);
                if ((int)b.c == (int)w - 1) return mkS(w, z3::ite(x < 0, zi(-1), zi(0)), lo(a) < 0 ? -1 : 0, hi(a) >= 0 ? 0 : -1);
                return mkS(w, z3::expr(*zc, Z3_mk_div(*zc, x, zi((i128)1 << (int)b.c))), lo(a) >> (int)b.c, hi(a) >> (int)b.c);
            }
            break;
        case Instruction::LShr:
            if (!b.s) {
                z3::expr u = uns(a);
                i128 h = lo(a) >= 0 ? hi(a) >> (int)b.c : ((((i128)1 << w) - 1) >> (int)b.c);
                return mkS(w, z3::expr(*zc, Z3_mk_div(*zc, u, zi((i128)1 << (int)b.c))), 0, h);
            }
            break;
        case Instruction::And:
            for (int t = 0; t < 2; t++) {
                const V& k = t ? a : b; const V& z = t ? b : a;
                if (k.s) continue;
                if (k.c == 0) return mkI(w, 0);
                if (k.c == -1) return z;
                if (k.c > 0 && ((k.c & (k.c + 1)) == 0)) // low mask
                    return (lo(z) >= 0 && hi(z) <= k.c) ? z : mkS(w, z3::mod(E(z), zi(k.c + 1)), 0, k.c);
                i128 nk = -k.c;
                if (k.c < 0 && (nk & (nk - 1)) == 0) // high mask: round down
                    return mkS(w, E(z) - z3::mod(E(z), zi(nk)), lo(z) >= 0 ? 0 : wmin(w), hi(z));
                if (k.c > 0 && (k.c & (k.c - 1)) == 0) { // single bit
                    z3::expr q = z3::expr(*zc, Z3_mk_div(*zc, E(z), zi(k.c)));
                    int n = 0; if (!iteLeaves(E(z), 0, n)) return mkS(w, z3::mod(q, zi(2)) * zi(k.c), 0, k.c);
                }
            }
            break;
        default: break;
        }
        // Truth values held in wider words.
        if ((op == Instruction::And || op == Instruction::Or || op == Instruction::Xor) && lo(a) >= 0 && hi(a) <= 1 && lo(b) >= 0 && hi(b) <= 1) {
            z3::expr p = truth(x), q = truth(y);
            return mkS(w, z3::ite(op == Instruction::And ? p && q : op == Instruction::Or ? p || q : p != q, zi(1), zi(0)), 0, 1);
        }
        // ite-lifting.
        {
            int na = 0, nb = 0;
            if (iteLeaves(x, 0, na) && iteLeaves(y, 0, nb) && na * nb <= 1024) {
                i128 rl = wmax(w), rh = wmin(w);
                z3::expr r = iteMap(x, [&](i128 ca) { return iteMap(y, [&](i128 cb) { V t = binop(op, mkI(w, ca), mkI(w, cb), w, nsw, nuw); rl = std::min(rl, t.c); rh = std::max(rh, t.c); return zi(t.c); }); });
                return mkS(w, r, rl, rh);
            }
        }
        if (op == Instruction::Or || op == Instruction::Xor) {
            if (!b.s && b.c == 0) return a;
            if (!a.s && a.c == 0) return b;
            if (op == Instruction::Xor && !b.s && b.c == -1) return mkS(w, -x - 1, sadd(-hi(a), -1), sadd(-lo(a), -1));
        }
        if (op == Instruction::Shl || op == Instruction::AShr || op == Instruction::LShr) { // symbolic amount: fork on it
            i128 c = concretize(E(b));
            return binop(op, a, mkI(w, c), w, nsw, nuw);
        }
        // General bit operation: through bit-vectors.
        {
            z3::expr bx(*zc, Z3_mk_int2bv(*zc, w, x)), by(*zc, Z3_mk_int2bv(*zc, w, y));
            z3::expr br = op == Instruction::And ? (bx & by) : op == Instruction::Or ? (bx | by) : (bx ^ by);
            z3::expr r(*zc, Z3_mk_bv2int(*zc, br, true));
            return mkS(w, r, wmin(w), wmax(w));
        }
    }
    V icmp(CmpInst::Predicate pr, V a, V b) {
        if (a.k == V::U || b.k == V::U) return mkU();
        if (a.k == V::P || b.k == V::P) {
            if (a.k == V::I) a = intToPtr(a);
            if (b.k == V::I) b = intToPtr(b);
            if (a.obj == b.obj) {
                if (!a.s && !b.s) return mkI(1, cmpc(pr, a.c, b.c));
                z3::expr x = a.s ? a.s->e : zi(a.c), y = b.s ? b.s->e : zi(b.c);
                return mkB(cmpe(pr, x, y));
            }
            if (pr == CmpInst::ICMP_EQ) { if (a.s || b.s) return mkI(1, 0); return mkI(1, ptrToInt(a, 64).c == ptrToInt(b, 64).c); }
            if (pr == CmpInst::ICMP_NE) { if (a.s || b.s) return mkI(1, 1); return mkI(1, ptrToInt(a, 64).c != ptrToInt(b, 64).c); }
            a = ptrToInt(a, 64); b = ptrToInt(b, 64);
        }
        if (a.k != V::I || b.k != V::I) throw Unsupported{"icmp kinds"};
        if (!a.s && !b.s) {
            i128 x = a.c, y = b.c;
            if (CmpInst::isUnsigned(pr) && a.w > 1) { if (x < 0) x += (i128)1 << a.w; if (y < 0) y += (i128)1 << a.w; }
            if (CmpInst::isSigned(pr) && a.w == 1) { x = -x; y = -y; }
            return mkI(1, cmpc(pr, x, y));
        }
        if (a.w == 1) {
            z3::expr x = E(a), y = E(b);
            switch (pr) {
            case CmpInst::ICMP_EQ: return mkB(x == y);
            case CmpInst::ICMP_NE: return mkB(x != y);
            case CmpInst::ICMP_ULT: case CmpInst::ICMP_SGT: return mkB(!x && y);
            case CmpInst::ICMP_UGT: case CmpInst::ICMP_SLT: return mkB(x && !y);
            default: return mkB(cmpe(pr, z3::ite(x, zi(1), zi(0)), z3::ite(y, zi(1), zi(0))));
            }
        }
        // interval shortcuts
        if (!CmpInst::isUnsigned(pr) || (lo(a) >= 0 && lo(b) >= 0)) {
            auto sp = pr;
            switch (sp) {
            case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: if (hi(a) < lo(b)) return mkI(1, 1); if (lo(a) >= hi(b)) return mkI(1, 0); break;
            case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: if (hi(a) <= lo(b)) return mkI(1, 1); if (lo(a) > hi(b)) return mkI(1, 0); break;
            case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: if (lo(a) > hi(b)) return mkI(1, 1); if (hi(a) <= lo(b)) return mkI(1, 0); break;
            case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE: if (lo(a) >= hi(b)) return mkI(1, 1); if (hi(a) < lo(b)) return mkI(1, 0); break;
            case CmpInst::ICMP_EQ: if (hi(a) < lo(b) || lo(a) > hi(b)) return mkI(1, 0); break;
            case CmpInst::ICMP_NE: if (hi(a) < lo(b) || lo(a) > hi(b)) return mkI(1, 1); break;
            default: break;
            }
        }
        z3::expr x = CmpInst::isUnsigned(pr) ? uns(a) : E(a), y = CmpInst::isUnsigned(pr) ? uns(b) : E(b);
        return mkB(cmpe(pr, x, y));
    }
    static bool cmpc(CmpInst::Predicate p, i128 x, i128 y) {
        switch (p) {
        case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y;
        case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: return x < y;
        case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: return x <= y;
        case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: return x > y;
        case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE: return x >= y;
        default: throw Unsupported{"pred"};
        }
    }
    static z3::expr cmpe(CmpInst::Predicate p, z3::expr x, z3::expr y) {
        switch (p) {
        case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y;
        case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: return x < y;
        case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: return x <= y;
        case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: return x > y;
        case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE: return x >= y;
        default: throw Unsupported{"pred"};
        }
    }
    // ------------------------------------------------------------ fp
    V fbin(unsigned op, const V& a, const V& b, unsigned w) {
        if (a.k == V::U || b.k == V::U) return mkU();
        if (!a.s && !b.s) {
            double r;
            auto cv = [&](double x) { return w == 32 ? (double)(float)x : x; };
            switch (op) {
            case Instruction::FAdd: r = a.d + b.d; break; case Instruction::FSub: r = a.d - b.d; break;
            case Instruction::FMul: r = a.d * b.d; break; case Instruction::FDiv: r = a.d / b.d; break;
            case Instruction::FRem: r = std::fmod(a.d, b.d); break;
            default: throw Unsupported{"fbin"};
            }
            return mkF(w, cv(r));
        }
        z3::expr x = EF(a), y = EF(b);
        switch (op) {
        case Instruction::FAdd: return mkSF(w, x + y); case Instruction::FSub: return mkSF(w, x - y);
        case Instruction::FMul: return mkSF(w, x * y);
        case Instruction::FDiv: {
            if (!b.s) { if (b.d == 0) throw Unsupported{"fp division of a symbolic by 0"}; return mkSF(w, x / y); }
            return mkSF(w, x / y);
        }
        default: throw Unsupported{"symbolic frem"};
        }
    }
    V fcmp(CmpInst::Predicate p, const V& a, const V& b) {
        if (a.k == V::U || b.k == V::U) return mkU();
        if (!a.s && !b.s) {
            double x = a.d, y = b.d; bool un = std::isnan(x) || std::isnan(y);
            bool r;
            switch (p) {
            case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break;
            case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break;
            case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break;
            case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_UEQ: r = un || x == y; break;
            case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break;
            case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break;
            case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_ORD: r = !un; break;
            case CmpInst::FCMP_TRUE: r = true; break; default: r = false;
            }
            return mkI(1, r);
        }
        // infinities / huge constants vs. finite reals
        for (int t = 0; t < 2; t++) { const V& k = t ? b : a; if (!k.s && !std::isfinite(k.d)) throw Unsupported{"fcmp with inf/nan"}; }
        z3::expr x = EF(a), y = EF(b);
        switch (p) {
        case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return mkB(x == y);
        case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return mkB(x != y);
        case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return mkB(x < y);
        case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return mkB(x <= y);
        case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return mkB(x > y);
        case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return mkB(x >= y);
        case CmpInst::FCMP_UNO: return mkI(1, 0); case CmpInst::FCMP_ORD: return mkI(1, 1);
        default: throw Unsupported{"fcmp pred"};
        }
    }
    #include "yv_exec.inc"
};
#include "yv_main.inc"
