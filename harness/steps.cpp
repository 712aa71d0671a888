// C07: the ring of valid step indices, and the per-step halo-update flags that follow it.
#include "kctx.hpp"
#define DEFINE_SOLUTION
#include "yask_stencil_code.hpp"
#include "khooks.hpp"
#include "omp_team.h"

static std::vector<idx_t> V(const Indices& i) { std::vector<idx_t> r; for (int d = 0; d < i.get_num_dims(); d++) r.push_back(i[d]); return r; }
static const idx_t TM = 1ll << 40;
struct World {
    Ctx c; std::shared_ptr<h_context_t> sp; YkVarImpl* v; yk_var_ptr keep; idx_t D;
    World(int which) : c(h_context_t::new_dims()) {
        sp = std::make_shared<h_context_t>(c.env, c.actl, c.req); c.actl->_allow_addl_pad = false;
        if (which == 0 || which == 3) { D = which ? 1 + 2 * yv_pick("steps_allocated", 2) : 1 + yv_pick("steps_allocated", 4); keep = sp->new_fixed_size_var("uv", {"t", "x"}, {D, 3}); v = dynamic_cast<YkVarImpl*>(keep.get()); }
        else if (which == 1) { v = sp->var_A_p.get(); D = 2; for (auto d : {"x", "y", "z"}) sp->set_rank_domain_size(d, 2); }
        else { D = 1 + yv_pick("steps_allocated", 3); keep = sp->new_fixed_size_var("uv", {"t"}, {D}); v = dynamic_cast<YkVarImpl*>(keep.get()); }
        v->alloc_storage();
        if (yv_symbolic()) { char* p = (char*)yv_symbuf("data", (int64_t)v->get_num_storage_bytes()); std::shared_ptr<char> q(p, [](char*) {}); v->gb().set_storage(q, 0); }
    }
};
// The window [a, a+D-1] after step t has been written, as documented.
static idx_t slide(idx_t a, idx_t D, idx_t t) { return t < a ? t : t > a + D - 1 ? t - D + 1 : a; }
static idx_t start(World& w) { idx_t a = yv_i64("first_valid", -TM, TM); w.v->gb()._corep->_local_offsets[0] = a; return a; }
static void window(World& w, idx_t a) {
    yv_assert(w.v->get_first_valid_step_index() == a, "first valid step");
    yv_assert(w.v->get_last_valid_step_index() == a + w.D - 1, "last valid step: as many steps as are allocated");
    yv_assert(w.v->gb().get_first_local_index(0) == a, "allocation starts at the first valid step");
    yv_assert(w.v->gb().get_last_local_index(0) == a + w.D - 1, "allocation ends at the last valid step");
}
// 1. update_valid_step.
static void upd(World& w) {
    idx_t a = start(w), t = yv_i64("t", -2 * TM, 2 * TM);
    window(w, a);
    if (yv_pick("through_indices", 2)) { Indices p(idx_t(0), w.v->get_num_dims()); p[0] = t; w.v->gb().update_valid_step(p); } else w.v->gb().update_valid_step(t);
    window(w, slide(a, w.D, t));
    yv_assert((w.v->get_first_valid_step_index() <= t) & (t <= w.v->get_last_valid_step_index()), "the step written is valid");
    yv_assert(((a <= t) & (t < a + w.D)) <= (w.v->get_first_valid_step_index() == a), "a step already valid leaves the window alone");
    yv_cover("upd");
}
extern "C" void h_update() { World w(0); upd(w); }
extern "C" void h_update_soln() { World w(1); upd(w); }
extern "C" void h_update_1d() { World w(2); upd(w); }

// 2. Writing single elements moves the window; values of steps that stay valid are kept.
static void write(World& w) {
    idx_t a = start(w), t = yv_i64("t", -2 * TM, 2 * TM), x = yv_i64("x", 0, 2), t2 = yv_i64("other_step", -TM, 2 * TM), x2 = yv_i64("other_x", 0, 2), b = slide(a, w.D, t);
    bool strict = yv_pick("strict", 2);
    yv_assume((t2 >= a) & (t2 < a + w.D) & (t2 >= b) & (t2 < b + w.D)); // valid before and after
    int n = w.v->get_num_dims();
    Indices p(idx_t(0), n), q(idx_t(0), n);
    p[0] = t; q[0] = t2; if (n > 1) { p[1] = x; q[1] = x2; }
    double before = w.v->get_element(q), val = yv_f64("value");
    yv_assert(w.v->set_element(val, p, strict) == 1, "a write to any step succeeds");
    window(w, b);
    yv_assert(yv_same(w.v->get_element(p), val), "the step written is readable");
    bool same = (t == t2) & (n < 2 ? true : x == x2);
    yv_assert(same | yv_same(w.v->get_element(q), before), "elements of steps that stay valid keep their values");
    idx_t t3 = yv_i64("third", -3 * TM, 3 * TM);
    Indices r(p); r[0] = t3;
    bool th = throws([&] { w.v->get_element(r); });
    yv_assert(th == ((t3 < b) | (t3 >= b + w.D)), "reading is refused exactly outside the valid steps");
    th = throws([&] { w.v->add_to_element(1., r, true); });
    yv_assert(th == ((t3 < b) | (t3 >= b + w.D)), "updating is refused exactly outside the valid steps");
    window(w, b);
    yv_cover("write");
}
extern "C" void h_write() { World w(0); write(w); }
extern "C" void h_write_1d() { World w(2); write(w); }

// 3. Flags: marking one step dirty marks it, only it, and makes it valid.
static void flags(World& w, bool all) {
    YkVarBase& g = w.v->gb();
    idx_t a = start(w), t = yv_i64("t", -2 * TM, 2 * TM);
    auto who = yv_pick("whose", 2) ? YkVarBase::others : YkVarBase::self, oth = who == YkVarBase::self ? YkVarBase::others : YkVarBase::self;
    bool on = yv_pick("dirty", 2), init = yv_pick("initially", 2);
    g.set_dirty_all(YkVarBase::self, init); g.set_dirty_all(YkVarBase::others, init);
    idx_t u = yv_i64("other", -2 * TM, 2 * TM);
    yv_assert(g.is_dirty(who, u) == init, "all steps marked");
    window(w, a);
    g.set_dirty(who, on, t);
    idx_t b = on ? slide(a, w.D, t) : a;
    window(w, b);
    yv_assert(g.is_dirty(who, t) == on, "the step marked is marked");
    yv_assert(g.is_dirty(oth, u) == init, "the other party's flags are untouched");
    yv_assert((imod_flr(u - t, w.D) == 0) | (g.is_dirty(who, u) == init), "no other step is marked");
    yv_cover("flags");
}
extern "C" void h_flags() { World w(3); flags(w, true); }
extern "C" void h_flags_soln() { World w(1); flags(w, true); }

// 4. Slices: only valid steps may be written; every step written is marked.
extern "C" void h_slice() {
    World w(0); YkVarBase& g = w.v->gb();
    idx_t a = start(w), f = a + yv_pick("first", (int)w.D), l = a + yv_pick("last", (int)w.D);
    yv_assume(f <= l);
    int op = yv_pick("op", 3);
    g.set_dirty_all(YkVarBase::self, false);
    Indices p(idx_t(0), 2), q(p); p[0] = f; q[0] = l; q[1] = 2;
    std::vector<double> b(3 * w.D, 1.5); std::vector<float> bf(3 * w.D, 1.5f);
    idx_t n = op == 0 ? w.v->set_elements_in_slice(b.data(), b.size(), V(p), V(q)) : op == 1 ? w.v->set_elements_in_slice(bf.data(), bf.size(), V(p), V(q)) : w.v->set_elements_in_slice_same(1.5, V(p), V(q), yv_pick("strict", 2));
    yv_assert(n == (l - f + 1) * 3, "number written");
    for (idx_t k = 0; k < w.D; k++) yv_assert(g.is_dirty(YkVarBase::self, a + k) == ((a + k >= f) & (a + k <= l)), "exactly the steps written are marked");
    window(w, a);
    yv_cover("slice");
}
// 5. After a stage has run over steps [start, stop), its outputs' windows hold the newest steps.
extern "C" void h_stage() {
    World w(1); YkVarBase& g = w.v->gb(); YkVarBase& gB = w.sp->var_B_p->gb();
    w.sp->var_B_p->alloc_storage();
    idx_t a = start(w), s = yv_i64("start", -TM, TM), n = yv_pick("steps", 4);
    bool mark = yv_pick("mark", 2), sel = yv_pick("selected", 2), back = yv_pick("backward", 2);
    g.set_dirty_all(YkVarBase::self, false); g.set_dirty_all(YkVarBase::others, false); gB.set_dirty_all(YkVarBase::others, false);
    StagePtr bp; if (sel) bp = w.sp->st_stages.at(0);
    w.sp->update_var_info(bp, s, back ? s - n : s + n, mark, false);
    idx_t e = a; bool m[2] = {false, false};
    for (int k = 0; k < n; k++) e = slide(e, 2, (back ? s - k : s + k) + 1);
    window(w, e);
    idx_t u = yv_i64("step", -TM, TM), hit = 0;
    for (int k = 0; k < n; k++) hit |= imod_flr(u - ((back ? s - k : s + k) + 1), idx_t(2)) == 0;
    yv_assert(g.is_dirty(YkVarBase::others, u) == (mark && hit), "exactly the output steps are marked");
    yv_assert(!g.is_dirty(YkVarBase::self, u), "own flags untouched");
    yv_assert(!gB.is_dirty(YkVarBase::others, u), "inputs are not marked");
    yv_cover("stage");
}
// 6. Variables without steps have no valid-step range; the setters leave them alone.
extern "C" void h_nostep() {
    World w(1); auto& b = *w.sp->var_B_p; b.alloc_storage();
    yv_assert(throws([&] { b.get_first_valid_step_index(); }), "no first valid step"); yv_assert(throws([&] { b.get_last_valid_step_index(); }), "no last valid step");
    idx_t t = yv_i64("t", -TM, TM); auto o = V(b.gb()._corep->_local_offsets);
    b.gb().update_valid_step(t);
    yv_assert(V(b.gb()._corep->_local_offsets) == o, "no step, no window");
    b.gb().set_dirty_all(YkVarBase::self, false); b.gb().set_dirty(YkVarBase::self, true, t);
    yv_assert(b.gb().is_dirty(YkVarBase::self, yv_i64("u", -TM, TM)), "one flag for all steps");
    yv_cover("nostep");
}
