// C06: slice and element access. Contracts of check_indices, set/get/add element,
// _visit_elements_in_slice; full reference-map comparison of every slice operation.
#include "kctx.hpp"
#define DEFINE_SOLUTION
#include "yask_stencil_code.hpp"
#include "khooks.hpp"
#include "omp_team.h"

typedef YkElemVar<Layout_123, true> USERT; typedef YkElemVar<Layout_123, false> USERT3; typedef YkVecVar<T_B_ARGS> BT; typedef YkVecVar<T_A_ARGS> AT;
static std::vector<idx_t> V(const Indices& i) { std::vector<idx_t> r; for (int d = 0; d < i.get_num_dims(); d++) r.push_back(i[d]); return r; }
struct World {
    Ctx c; std::shared_ptr<h_context_t> sp; YkVarImpl* v; yk_var_ptr keep;
    World() : c(h_context_t::new_dims()) { sp = std::make_shared<h_context_t>(c.env, c.actl, c.req); c.actl->_allow_addl_pad = false; }
    void user(std::vector<std::string> d, std::vector<idx_t> s) { keep = sp->new_fixed_size_var("uv", d, s); v = dynamic_cast<YkVarImpl*>(keep.get()); }
};
// 1. check_indices, for all indices, sizes and offsets.
static void check_idx(World& w, bool norm) {
    YkVarBase& g = w.v->gb();
    int n = g.get_num_dims();
    const idx_t M = 1 << 30;
    Indices in(idx_t(0), n);
    for (int i = 0; i < n; i++) {
        in[i] = yv_i64("index", -M, M);
        auto cp = g._corep;
        if (w.v->is_dim_used("t") && i == 0) cp->_local_offsets[i] = yv_i64("first_step", -M, M);
        else if (i < 3) {
            cp->_domains[i] = yv_i64("size", 1, M);
            cp->_actl_left_pads[i] = yv_i64("left_pad", 0, M); cp->_actl_right_pads[i] = yv_i64("right_pad", 0, M);
            if (g._domain_dim_mask & (1LL << i)) cp->_rank_offsets[i] = yv_i64("rank_offset", -M, M);
        }
    }
    bool wrap = yv_pick("step_wrap", 2), strict = yv_pick("strict", 2), cstep = yv_pick("check_step", 2);
    w.c.actl->_step_wrap = wrap;
    bool inr = true;
    Indices lo(idx_t(0), n), hi(idx_t(0), n), want(in);
    for (int i = 0; i < n; i++) {
        lo[i] = g.get_first_local_index(i); hi[i] = g.get_last_local_index(i);
        bool skip = (g._step_dim_mask & (1LL << i)) && (!cstep || wrap);
        if (skip) continue;
        inr &= (in[i] >= lo[i]) & (in[i] <= hi[i]);
        want[i] = in[i] < lo[i] ? lo[i] : in[i] > hi[i] ? hi[i] : in[i];
    }
    Indices out; bool ok = false, th;
    th = throws([&] { ok = g.check_indices(in, "f", strict, cstep, norm, &out); });
    yv_assert(th == (strict & !inr), "an out-of-range index is refused exactly when indices are strict");
    if (th) { yv_cover("refused"); return; }
    yv_assert(ok == inr, "result tells whether all indices are in the allocation");
    for (int i = 0; i < n; i++) {
        idx_t e = want[i];
        if (norm && (g._domain_dim_mask & (1LL << i))) { idx_t a = e - g._corep->_rank_offsets[i], l = g._corep->_var_vec_lens[i];
            yv_assert((out[i] * l <= a) & (a < out[i] * l + l), "normalised index is the vector that holds the clipped element"); }
        else yv_assert(out[i] == e, "clipped index is the nearest allocated one");
    }
    yv_cover(inr ? "in range" : "clipped");
}
extern "C" void h_check_user() { World w; w.user({"t", "x", "m"}, {2, 5, 4}); check_idx(w, false); }
extern "C" void h_check_vec() { World w; w.v = w.sp->var_B_p.get(); check_idx(w, false); }
extern "C" void h_check_norm() { World w; w.v = w.sp->var_B_p.get(); check_idx(w, true); }

// 2. Single elements: the last value written is read back, nothing else changes.
static idx_t rnd_idx(const char* nm, YkVarImpl& v, int d) { return yv_i64(nm, v.gb().get_first_local_index(d), v.gb().get_last_local_index(d)); }
static void elem(World& w) {
    YkVarImpl& v = *w.v;
    int n = v.get_num_dims();
    v.alloc_storage();
    if (yv_symbolic()) { // arbitrary previous content
        char* p = (char*)yv_symbuf("data", (int64_t)v.get_num_storage_bytes());
        std::shared_ptr<char> sp(p, [](char*) {});
        v.gb().set_storage(sp, 0);
    }
    Indices i(idx_t(0), n), j(idx_t(0), n);
    bool same = true;
    for (int d = 0; d < n; d++) { i[d] = rnd_idx("i", v, d); j[d] = rnd_idx("j", v, d); same &= i[d] == j[d]; }
    double before = v.get_element(j), a = yv_f64("value"), b = yv_f64("add");
    bool strict = yv_pick("strict", 2);
    yv_assert(v.set_element(a, i, strict) == 1, "one element set");
    yv_assert(yv_same(v.get_element(i), a), "the value set is read back");
    yv_assert(same | yv_same(v.get_element(j), before), "no other element changes");
    yv_assert(v.add_to_element(b, i, strict) == 1, "one element updated");
    yv_assert(yv_same(v.get_element(i), a + b), "the value added is added");
    yv_assert(same | yv_same(v.get_element(j), before), "no other element changes on update");
    yv_cover(same ? "same" : "different");
}
extern "C" void h_elem_user() { World w; w.user({"t", "x", "m"}, {2, 5, 4}); elem(w); }
extern "C" void h_elem_vec() { World w; w.v = w.sp->var_B_p.get(); w.sp->set_rank_domain_size("x", 5); w.sp->set_rank_domain_size("y", 3); w.sp->set_rank_domain_size("z", 2); elem(w); }
extern "C" void h_elem_vect() { World w; w.v = w.sp->var_A_p.get(); w.sp->set_rank_domain_size("x", 3); w.sp->set_rank_domain_size("y", 3); w.sp->set_rank_domain_size("z", 2); elem(w); }

// 3. The slice walk: each element once, at its row-major place in the buffer.
struct G { int n; idx_t w[8]; Indices first, last, tgt; idx_t ni, rank, hits, visits, tot, wt; bool step, wit; idx_t ring; YkVarBase* b; };
static G* gp;
template <typename VarT> struct VisT {
    static const char* fname() { return "visit"; }
    static void visit(VarT* vp, double* p, idx_t pofs, double val, const Indices& pt, idx_t ti, int thr) {
        idx_t r = 0, eq = 1, in = 1;
        for (int d = 0; d < gp->n; d++) {
            r = r * (gp->last[d] - gp->first[d] + 1) + (pt[d] - gp->first[d]);
            in &= (pt[d] >= gp->first[d]) & (pt[d] <= gp->last[d]);
            eq &= pt[d] == gp->tgt[d];
        }
        yv_assert(in, "only elements of the slice are visited");
        yv_assert(pofs == r, "buffer position is the row-major rank of the element");
        if (gp->step) yv_assert(ti == imod_flr(pt[0], gp->ring), "step slot is the step index modulo the allocation");
        yv_assert(val == 3.5, "value handed on"); yv_assert(p == (double*)0x1000, "buffer handed on");
        gp->hits += eq;
    }
};
// Contract of Indices::visit_all_points_in_parallel (proved for C03): one call per point of the box, index row-major.
static void c_visit(const Indices* self, bool first_inner, std::function<bool(const Indices&, size_t, int)>* f) {
    yv_assert(!first_inner, "walk is last-dimension-innermost");
    Indices ofs(*self); idx_t r = 0, cnt = 1;
    for (int d = 0; d < self->get_num_dims(); d++) { cnt *= (*self)[d]; }
    for (int d = 0; d < self->get_num_dims(); d++) {
        idx_t sz = (*self)[d], o;
        if (gp->wit) { o = (gp->step && d == 0) ? 0 : gp->tgt[d] - gp->first[d]; if (sz == 1) { o = 0; if (d == gp->n - 1) yv_witness(1, gp->tgt[d] - gp->first[d]); } else if (d == gp->n - 1) yv_witness(1, 0); yv_assert((o >= 0) & (o < sz), "every element of the slice lies in the walked box"); }
        else if (gp->w[d]) { o = yv_pick("o", (int)gp->w[d]); yv_assume(o < sz); }
        else { o = yv_fresh(0, 1ll << 40); yv_assume(o < sz); }
        ofs[d] = o; r = r * sz + o;
    }
    gp->visits++;
    (*f)(ofs, r, (int)yv_fresh(0, 7));
}
typedef void (Indices::*pmf)(bool, std::function<bool(const Indices&, size_t, int)>) const;
template <typename VarT> static void walk(World& w, int steps, int symdim) {
    VarT* b = dynamic_cast<VarT*>(&w.v->gb());
    if (!b) { yv_assert(0, "var class"); return; }
    w.v->alloc_storage();
    static G g; gp = &g; g.b = b; g.n = b->get_num_dims(); g.step = b->_has_step_dim;
    yv_ghost(&g);
    union { pmf m; void* p[2]; } u; u.m = &Indices::visit_all_points_in_parallel;
    const idx_t M = 1 << 12;
    g.first = g.last = g.tgt = Indices(idx_t(0), g.n);
    auto cp = b->_corep;
    g.ring = g.step ? (idx_t)cp->_domains[0] : 1;
    for (int d = 0; d < g.n; d++) {
        if (g.step && d == 0) { cp->_local_offsets[0] = yv_i64("first_step", -M, M);
            g.first[0] = cp->_local_offsets[0] + yv_pick("t0", (int)g.ring); g.last[0] = g.first[0] + steps - 1; yv_assume(g.last[0] < cp->_local_offsets[0] + g.ring); g.w[0] = 1; g.tgt[0] = g.first[0] + (steps > 1 ? yv_pick("tt", steps) : 0); continue; }
        cp->_domains[d] = yv_i64("size", 1, M); cp->_actl_left_pads[d] = yv_i64("lpad", 0, M); cp->_actl_right_pads[d] = yv_i64("rpad", 0, M);
        if (b->_domain_dim_mask & (1LL << d)) cp->_rank_offsets[d] = yv_i64("ofs", -M, M);
        idx_t lo = b->get_first_local_index(d), hi = b->get_last_local_index(d);
        static const idx_t W[] = {1, 2, 3, 7}; // width: any in one dim, enumerated in the others (linear obligations).
        g.first[d] = yv_i64("first", -4 * M, 4 * M);
        g.w[d] = d == symdim ? 0 : W[yv_pick("width", 2) * 2]; g.last[d] = d == symdim ? yv_i64("last", -4 * M, 4 * M) : g.first[d] + g.w[d] - 1; g.tgt[d] = g.w[d] ? g.first[d] + yv_pick("target", (int)g.w[d]) : yv_i64("target", -4 * M, 4 * M);
        yv_assume((g.first[d] >= lo) & (g.first[d] <= g.last[d]) & (g.last[d] <= hi) & (g.first[d] <= g.tgt[d]) & (g.tgt[d] <= g.last[d]));
    }
    idx_t ne = 1; for (int d = 0; d < g.n; d++) ne *= g.last[d] - g.first[d] + 1;
    int thr = 1 + (int)yv_pick("threads", 2); yask_num_threads[0] = thr;
    if (!yv_symbolic()) { yv_cover("walk"); return; }
    yv_contract(u.p[0], (void*)c_visit);
    yv_loop("'lambda'(yask::Indices const&, unsigned long, int)::operator()", 1, 1); // inner loop: arbitrary iteration
    idx_t n; g.wit = false; g.visits = 0; g.hits = 0;
    n = b->template _visit_elements_in_slice<VisT<VarT>, double, VarT>(true, (double*)0x1000, (size_t)ne, 3.5, g.first, g.last, false);
    yv_assert(n == ne, "number of elements is the volume of the slice");
    yv_assert(g.visits == steps, "one walk per step");
    yv_cover("walk");
    g.wit = true; g.hits = 0;
    yv_loop("'lambda'(yask::Indices const&, unsigned long, int)::operator()", 2, 1);
    b->template _visit_elements_in_slice<VisT<VarT>, double, VarT>(true, (double*)0x1000, (size_t)ne, 3.5, g.first, g.last, false);
    yv_assert(g.hits >= 1, "every element of the slice is visited");
}


#define WALK(nm, mkv, T, steps, sd) extern "C" void nm() { World w; mkv; walk<T>(w, steps, sd); }
#define UTX w.user({"t", "x", "m"}, {2, 5, 4})
#define U3 w.user({"m", "x", "n"}, {2, 5, 4})
#define VB w.v = w.sp->var_B_p.get()
WALK(h_walk_user_x, UTX, USERT, 1, 1)
WALK(h_walk_user_m, UTX, USERT, 1, 2)
WALK(h_walk_user2_x, UTX, USERT, 2, 1)
WALK(h_walk_user2_m, UTX, USERT, 2, 2)
WALK(h_walk_3_0, U3, USERT3, 1, 0)
WALK(h_walk_3_1, U3, USERT3, 1, 1)
WALK(h_walk_3_2, U3, USERT3, 1, 2)
WALK(h_walk_vec_0, VB, BT, 1, 0)
WALK(h_walk_vec_2, VB, BT, 1, 2)

// 4. Every slice operation against a reference map, on small variables (bounded).
struct Ref { YkVarImpl* v; int n; std::vector<idx_t> lo, hi; std::vector<double> m; idx_t tot;
    Ref(YkVarImpl* vp) : v(vp), n(vp->get_num_dims()), tot(1) { for (int d = 0; d < n; d++) { lo.push_back(v->gb().get_first_local_index(d)); hi.push_back(v->gb().get_last_local_index(d)); tot *= hi[d] - lo[d] + 1; } m.resize(tot); }
    Indices at(idx_t k) const { Indices r(idx_t(0), n); for (int d = n - 1; d >= 0; d--) { idx_t s = hi[d] - lo[d] + 1; r[d] = lo[d] + k % s; k /= s; } return r; }
    idx_t pos(const Indices& p) const { idx_t r = 0; for (int d = 0; d < n; d++) r = r * (hi[d] - lo[d] + 1) + (p[d] - lo[d]); return r; }
    void load() { for (idx_t k = 0; k < tot; k++) m[k] = v->get_element(at(k)); }
    void fill(int mode) { for (idx_t k = 0; k < tot; k++) v->set_element(m[k] = mode ? double((k * 7) % 5) - 2.5 : double(k + 1), at(k), true); }
    void same(const char* l) { for (idx_t k = 0; k < tot; k++) yv_assert(v->get_element(at(k)) == m[k], l); }
};
static World* mk(int which) {
    World* w = new World;
    if (which == 0) w->user({"t", "x", "m"}, {2, 4, 3});
    else if (which == 1) w->user({"x"}, {7});
    else if (which == 2) w->user({"t"}, {3});
    else if (which == 5) w->user({"x", "m", "y"}, {3, 2, 4});
    else { w->v = which == 3 ? (YkVarImpl*)w->sp->var_A_p.get() : w->sp->var_B_p.get();
        for (int i = 0; i < 3; i++) { const char* d[] = {"x", "y", "z"}; w->sp->set_rank_domain_size(d[i], yv_i64("size", 1, 4)); w->v->_set_rank_offset(d[i], yv_i64("offset", -1, 1) * 4); } }
    w->v->alloc_storage();
    if (w->v->is_dim_used("t")) w->v->gb()._corep->_local_offsets[0] = yv_i64("first_step", -5, 5);
    if (which == 0 || which == 5) w->v->set_first_misc_index("m", yv_i64("first_misc", -2, 2));
    return w;
}
static void full() {
    World* w = mk(yv_pick("var", 6));
    yask_num_threads[0] = 1 + yv_pick("threads", 3); yask_num_threads[1] = 0;
    YkVarImpl& v = *w->v; Ref R(&v); int n = R.n;
    int op = yv_pick("op", 9), out = op == 3 || op == 4 ? yv_pick("outside", 2) : 0;
    R.fill(op == 4);
    Indices f(idx_t(0), n), l(f), cf(f), cl(f); bool inr = true; idx_t ne = 1, cne = 1;
    for (int d = 0; d < n; d++) {
        idx_t o = out ? 3 : 0;
        f[d] = yv_i64("first", R.lo[d] - o, R.hi[d] + o); l[d] = yv_i64("last", R.lo[d] - o, R.hi[d] + o);
        if (l[d] < f[d] && yv_pick("swap", 8)) std::swap(f[d], l[d]);
        inr &= f[d] >= R.lo[d] && f[d] <= R.hi[d] && l[d] >= R.lo[d] && l[d] <= R.hi[d];
        cf[d] = std::max(f[d], R.lo[d]); cl[d] = std::min(l[d], R.hi[d]);
        ne *= std::max<idx_t>(0, l[d] - f[d] + 1); cne *= std::max<idx_t>(0, cl[d] - cf[d] + 1);
    }
    auto inside = [&](const Indices& p) { for (int d = 0; d < n; d++) if (p[d] < cf[d] || p[d] > cl[d]) return false; return true; };
    auto rank = [&](const Indices& p) { idx_t r = 0; for (int d = 0; d < n; d++) r = r * (cl[d] - cf[d] + 1) + (p[d] - cf[d]); return r; };
    idx_t slack = 3, fst = n && v.is_dim_used("t") ? v.get_first_valid_step_index() : 0;
    std::vector<double> bd(ne + slack, -1.0); std::vector<float> bf(ne + slack, -1.0f);
    switch (op) {
    case 0: { idx_t k = v.get_elements_in_slice(bd.data(), ne, V(f), V(l)); yv_assert(k == ne, "number of elements read");
        for (idx_t q = 0; q < R.tot; q++) if (inside(R.at(q))) yv_assert(bd[rank(R.at(q))] == R.m[q], "element read at its row-major place");
        for (idx_t q = ne; q < ne + slack; q++) yv_assert(bd[q] == -1.0, "buffer beyond the slice untouched"); R.same("reading changes nothing"); break; }
    case 1: { idx_t k = v.get_elements_in_slice(bf.data(), ne, V(f), V(l)); yv_assert(k == ne, "number of elements read");
        for (idx_t q = 0; q < R.tot; q++) if (inside(R.at(q))) yv_assert(bf[rank(R.at(q))] == (float)R.m[q], "element read at its row-major place"); R.same("reading changes nothing"); break; }
    case 2: { int fl = yv_pick("float", 2); for (idx_t q = 0; q < ne; q++) bd[q] = bf[q] = 1000.f + q;
        idx_t k = fl ? v.set_elements_in_slice(bf.data(), ne, V(f), V(l)) : v.set_elements_in_slice(bd.data(), ne, V(f), V(l)); yv_assert(k == ne, "number of elements written");
        for (idx_t q = 0; q < R.tot; q++) if (inside(R.at(q))) R.m[q] = 1000. + rank(R.at(q)); R.same("exactly the elements of the slice get the buffer values"); yv_cover("set"); break; }
    case 3: { bool strict = yv_pick("strict", 2); idx_t k = -1; bool th = throws([&] { k = v.set_elements_in_slice_same(77., V(f), V(l), strict); });
        yv_assert(th == (strict && !inr), "refused exactly when strict and out of range"); if (th) { R.same("a refused write changes nothing"); break; }
        yv_assert(k == cne, "number of elements set");
        for (idx_t q = 0; q < R.tot; q++) if (inside(R.at(q))) R.m[q] = 77.; R.same("exactly the allocated elements of the slice are set"); yv_cover("same"); break; }
    case 4: { bool strict = yv_pick("strict", 2); int mask = yv_pick("mask", 32); yk_var::yk_reduction_result_ptr r; bool th = throws([&] { r = v.reduce_elements_in_slice(mask, V(f), V(l), strict); });
        yv_assert(th == (strict && !inr), "refused exactly when strict and out of range"); if (th) break;
        yv_assert(r->get_num_elements_reduced() == cne, "number of elements reduced"); yv_assert(r->get_reduction_mask() == mask, "mask reads back");
        double s = 0, s2 = 0, p = 1, mx = -1e308, mn = 1e308;
        for (idx_t q = 0; q < R.tot; q++) if (inside(R.at(q))) { double e = R.m[q]; s += e; s2 += e * e; p *= e; mx = std::max(mx, e); mn = std::min(mn, e); }
        double g = 0; bool t;
        t = throws([&] { g = r->get_sum(); }); yv_assert(t == !(mask & yk_var::yk_sum_reduction), "sum available iff requested"); if (!t) yv_assert(yv_same(g, s), "sum of the slice");
        t = throws([&] { g = r->get_sum_squares(); }); yv_assert(t == !(mask & yk_var::yk_sum_squares_reduction), "sum of squares available iff requested"); if (!t) yv_assert(yv_same(g, s2), "sum of squares of the slice");
        t = throws([&] { g = r->get_product(); }); yv_assert(t == !(mask & yk_var::yk_product_reduction), "product available iff requested"); if (!t) yv_assert(std::abs(g - p) <= 1e-9 * std::abs(p), "product of the slice");
        t = throws([&] { g = r->get_max(); }); yv_assert(t == !(mask & yk_var::yk_max_reduction), "maximum available iff requested"); if (!t && cne) yv_assert(g == mx, "maximum of the slice");
        t = throws([&] { g = r->get_min(); }); yv_assert(t == !(mask & yk_var::yk_min_reduction), "minimum available iff requested"); if (!t && cne) yv_assert(g == mn, "minimum of the slice");
        R.same("reducing changes nothing"); yv_cover("reduce"); break; }
    case 5: { if (ne == 0) break; std::vector<double> b(ne); bool a = yv_pick("rd", 2); // too small a buffer
        bool th = throws([&] { if (a) v.get_elements_in_slice(b.data(), ne - 1, V(f), V(l)); else v.set_elements_in_slice(b.data(), ne - 1, V(f), V(l)); }); yv_assert(th, "a buffer too small for the slice is refused"); R.same("a refused call changes nothing"); break; }
    case 6: { int d = yv_pick("dim", n); bool a = yv_pick("rd", 2); if (yv_pick("hi", 2)) l[d] = R.hi[d] + 1; else f[d] = R.lo[d] - 1; std::vector<double> b(100000); // always strict
        bool th = throws([&] { if (a) v.get_elements_in_slice(b.data(), b.size(), V(f), V(l)); else v.set_elements_in_slice(b.data(), b.size(), V(f), V(l)); }); yv_assert(th, "an out-of-range slice is refused"); R.same("a refused call changes nothing"); break; }
    case 7: { // whole-vector slices round-trip: what is read can be written back elsewhere unchanged.
        YkVarBase& g = v.gb(); if (!dynamic_cast<AT*>(&g) && !dynamic_cast<BT*>(&g)) break;
        idx_t nv = 1; for (int d = 0; d < n; d++) { idx_t vl = g._corep->_var_vec_lens[d], o = (g._domain_dim_mask & (1LL << d)) ? (idx_t)g._corep->_rank_offsets[d] : 0; f[d] = o + round_down_flr(f[d] - o, vl); l[d] = o + round_down_flr(l[d] - o, vl) + vl - 1; cf[d] = f[d]; cl[d] = l[d]; if (l[d] < f[d]) return; nv *= l[d] - f[d] + 1; }
        real_vec_t* vb = (real_vec_t*)yv_symbuf("vb", (nv + 64) * 8);
        idx_t k = g.get_vecs_in_slice(vb, f, l, false); yv_assert(k == nv, "number of elements read as vectors");
        double sum = 0, want = 0; for (idx_t q = 0; q < nv; q++) sum += ((double*)vb)[q]; for (idx_t q = 0; q < R.tot; q++) if (inside(R.at(q))) want += R.m[q];
        yv_assert(sum == want, "the vectors read hold exactly the elements of the slice"); R.same("reading vectors changes nothing");
        Ref S(R); v.set_all_elements_same(-5.);
        yv_assert(g.set_vecs_in_slice(vb, f, l, false) == nv, "number of elements written as vectors");
        for (idx_t q = 0; q < R.tot; q++) if (!inside(R.at(q))) R.m[q] = -5.; R.same("vectors written restore exactly the slice"); yv_cover("vec"); free(yv_symbolic() ? 0 : (void*)vb); break; }
    case 8: { v.set_all_elements_same(9.); for (auto& e : R.m) e = 9.; R.same("all elements set");
        v.gb().set_all_elements_in_seq(2.); std::vector<double> a(R.m); R.load(); for (auto e : R.m) yv_assert(e == e && e != 9., "all elements initialised"); break; }
    }
    if (v.is_dim_used("t")) yv_assert(v.get_first_valid_step_index() == fst, "accesses to valid steps do not move the valid steps");
    delete w; yv_cover("full");
}
extern "C" void h_full() { full(); }
