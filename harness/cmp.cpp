// C25: comparison of results. Contracts of within_tolerance, YkVarBase::compare
// and StencilContext::compare_data.
#include "kctx.hpp"
#define DEFINE_SOLUTION
#include "yask_stencil_code.hpp"
#include "khooks.hpp"
#include "omp_team.h"

typedef YkVecVar<T_B_ARGS> BT; typedef YkVecVar<T_A_ARGS> AT; typedef YkElemVar<Layout_123, true> UT;
struct World {
    Ctx c; std::shared_ptr<h_context_t> sp;
    World() : c(h_context_t::new_dims()) { sp = std::make_shared<h_context_t>(c.env, c.actl, c.req); c.actl->_allow_addl_pad = false; }
    YkVarImpl* user() { auto k = sp->new_fixed_size_var("uv", {"t", "x", "m"}, {2, 5, 4}); return dynamic_cast<YkVarImpl*>(k.get()); }
};
// Values are close when equal, or apart by less than the tolerance, scaled by magnitudes above one.
static bool is_close(double v, double r, double eps) {
    double a = v - r, b = r < 0 ? -r : r, e = b > 1 ? b * eps : eps;
    return (v == r) | ((a < e) & (-a < e));
}
extern "C" void h_tol() {
    double v = yv_f64("val"), r = yv_f64("ref"), e = yv_f64("eps");
    yv_assume(e >= 0);
    yv_assert(within_tolerance<double>(v, r, e) == is_close(v, r, e), "values are close exactly when within the scaled tolerance");
    yv_cover("tol");
}
// NaN never compares as close, infinities only to themselves.
extern "C" void h_tol_special() {
    double n = __builtin_nan(""), i = __builtin_inf(), x = yv_f64("x"), e = 1e-3;
    yv_assert(!within_tolerance<double>(n, x, e) && !within_tolerance<double>(x, n, e) && !within_tolerance<double>(n, n, e), "NaN is a difference");
    yv_assert(within_tolerance<double>(i, i, e) && within_tolerance<double>(-i, -i, e), "equal infinities are close");
    yv_assert(!within_tolerance<double>(i, -i, e) && !within_tolerance<double>(i, x, e), "an infinity differs from anything else");
    yv_cover("special");
}

// One call of the comparison of two vars, its loop and its reads by contract.
struct G {
    int n; YkVarBase *v, *r; bool step; idx_t ring; bool wit;
    Indices tgt; idx_t tslot;         // element that must be compared.
    int reads[2]; bool hit; double val[2]; Indices at[2]; idx_t slot[2];
    bool same; double eps; idx_t want; Indices prev; idx_t pslot; int pts;
};
static G* gp;
static real_t c_read(const YkVarBase* self, const Indices* idxs, idx_t slot, int) {
    int w = self == gp->v ? 0 : 1;
    yv_assert((self == gp->v) | (self == gp->r), "only the two vars are read");
    for (int d = 0; d < gp->n; d++) {
        gp->at[w][d] = (*idxs)[d];
        idx_t f = gp->v->get_first_local_index(d), l = gp->v->get_last_local_index(d);
        if (gp->step && d == 0) continue;
        if (gp->v->_domain_dim_mask & (1LL << d)) { f = gp->v->_corep->_rank_offsets[d]; l = f + gp->v->_corep->_domains[d] - 1; }
        yv_assert(((*idxs)[d] >= f) & ((*idxs)[d] <= l), "only elements in the domain are compared");
    }
    yv_assert((slot >= 0) & (slot < gp->ring), "only allocated steps are compared");
    gp->slot[w] = slot; gp->reads[w]++;
    gp->val[w] = yv_fresh_f64();
    return gp->val[w];
}
static bool same_elem(const Indices& a, idx_t sa, const Indices& b, idx_t sb) {
    bool e = sa == sb;
    for (int d = gp->step ? 1 : 0; d < gp->n; d++) e &= a[d] == b[d];
    return e;
}
typedef std::function<bool(const IdxTuple&, size_t, int)> visitor_t;
static void one(visitor_t* f, const IdxTuple& p) {
    gp->reads[0] = gp->reads[1] = 0;
    (*f)(p, (size_t)yv_fresh(0, 1ll << 40), (int)yv_fresh(0, 7));
    yv_assert((gp->reads[0] <= 1) & (gp->reads[0] == gp->reads[1]), "an element is read once in each var");
    if (!gp->reads[0]) return;
    yv_assert(same_elem(gp->at[0], gp->slot[0], gp->at[1], gp->slot[1]), "the same element is read in both vars");
    if (gp->pts && gp->prev.get_num_dims()) yv_assert(!same_elem(gp->at[0], gp->slot[0], gp->prev, gp->pslot), "no element is compared twice");
    gp->prev = gp->at[0]; gp->pslot = gp->slot[0]; gp->pts++;
    gp->hit |= same_elem(gp->at[0], gp->slot[0], gp->tgt, gp->tslot);
    gp->want += is_close(gp->val[0], gp->val[1], gp->eps) ? 0 : 1;
}
// Contract of Tuple::visit_all_points_in_parallel (proved for C03): each point of the box once.
static void c_visit(const IdxTuple* self, visitor_t* f) {
    IdxTuple p(*self), q(*self);
    if (!gp->wit) { // two different points
        bool diff = false;
        for (int d = 0; d < gp->n; d++) {
            p[d] = yv_fresh(0, 1ll << 40); q[d] = yv_fresh(0, 1ll << 40);
            yv_assume((p[d] < (*self)[d]) & (q[d] < (*self)[d]));
            diff |= p[d] != q[d];
        }
        yv_assume(diff);
        one(f, p); one(f, q);
    } else { // is the wanted element among them? it is at its place from the start of the domain or of the allocation
        for (int k = 0; k < 2; k++) {
            bool in = true;
            for (int d = 0; d < gp->n; d++) {
                if (gp->step && d == 0) p[d] = gp->tslot;
                else p[d] = gp->tgt[d] - (gp->v->get_first_local_index(d) + (k ? gp->v->_corep->_actl_left_pads[d] : 0));
                in &= (p[d] >= 0) & (p[d] < (*self)[d]);
            }
            gp->pts = 0;
            if (in) one(f, p);
        }
    }
}
template <typename VarT> static void cmp(World& w, YkVarImpl* a, YkVarImpl* b) {
    static G g; g = G(); gp = &g; yv_ghost(&g);
    VarT* v = dynamic_cast<VarT*>(&a->gb()); VarT* r = dynamic_cast<VarT*>(&b->gb());
    if (!v || !r) { yv_assert(0, "var class"); return; }
    g.v = v; g.r = r; g.n = v->get_num_dims(); g.step = v->_has_step_dim;
    const idx_t M = 1 << 30;
    g.ring = g.step ? (idx_t)v->_corep->_domains[0] : 1;
    g.tgt = g.at[0] = g.at[1] = Indices(idx_t(0), g.n); g.tslot = 0;
    for (int d = 0; d < g.n; d++) {
        if (g.step && d == 0) { v->_corep->_local_offsets[0] = yv_i64("first_step", -M, M); r->_corep->_local_offsets[0] = yv_i64("ref_first_step", -M, M); g.tslot = yv_i64("slot", 0, g.ring - 1); continue; }
        idx_t n = yv_i64("size", 1, M), lp = 0, rp = 0, ro = 0, lo = 0;
        if (v->_domain_dim_mask & (1LL << d)) { lp = yv_i64("lpad", 0, M); rp = yv_i64("rpad", 0, M); ro = yv_i64("ofs", -M, M); }
        else lo = yv_i64("first_misc", -M, M);
        for (auto* c : {v->_corep, r->_corep}) { c->_domains[d] = n; c->_actl_left_pads[d] = lp; c->_actl_right_pads[d] = rp; c->_rank_offsets[d] = ro; c->_local_offsets[d] = lo; c->_allocs[d] = n + lp + rp; }
        g.tgt[d] = ro + lo + yv_i64("target", 0, M);
        yv_assume(g.tgt[d] < ro + lo + n);
    }
    if (!yv_symbolic()) { yv_cover("compare"); return; }
    union { void (IdxTuple::*m)(visitor_t) const; void* p[2]; } u; u.m = &IdxTuple::visit_all_points_in_parallel;
    yv_contract(u.p[0], (void*)c_visit);
    auto rd = &VarT::read_elem; void* t[2]; 
    VarT* vv = v; (void)vv; static_assert(sizeof rd == sizeof t, "pmf"); memcpy(t, &rd, sizeof t);
    // Virtual member: its pointer holds the offset in the table, plus one.
    void* fn = (uintptr_t)t[0] & 1 ? *(void**)(*(char**)v + ((uintptr_t)t[0] - 1)) : t[0];
    yv_contract(fn, (void*)c_read);
    g.eps = yv_f64("eps"); yv_assume(g.eps >= 0);
    g.wit = yv_pick("witness", 2);
    idx_t n = v->compare(r, g.eps, 0);
    if (g.wit) yv_assert(g.hit, "every element of the domain is compared");
    else yv_assert(n == g.want, "the differences are counted, each once");
    yv_cover(g.wit ? "witness" : "compare");
}
extern "C" void h_cmp_a() { World w, w2; cmp<AT>(w, w.sp->var_A_p.get(), w2.sp->var_A_p.get()); }
extern "C" void h_cmp_b() { World w, w2; cmp<BT>(w, w.sp->var_B_p.get(), w2.sp->var_B_p.get()); }
extern "C" void h_cmp_u() { World w, w2; cmp<UT>(w, w.user(), w2.user()); }

// Vars that cannot be compared element by element never count as equal.
extern "C" void h_cmp_shape() {
    World w, w2;
    YkVarImpl *a = w.sp->var_A_p.get(), *b = w2.sp->var_A_p.get();
    static const idx_t S[] = {1, 2, 3, 4, 5, 9};
    static const char* D[] = {"x", "y", "z"};
    const char* d = D[yv_pick("dim", 3)];
    a->_set_domain_size(d, S[yv_pick("size", 6)]); b->_set_domain_size(d, S[yv_pick("ref_size", 6)]);
    bool same = a->get_alloc_size(d) == b->get_alloc_size(d);
    if (same) { yv_cover("same"); return; }
    yv_assert(a->gb().compare(&b->gb(), 1e-3, 0) > 0, "vars of different shape differ");
    yv_assert(a->gb().compare(nullptr, 1e-3, 0) > 0, "a missing var differs");
    yv_cover("shape");
}
// Whole solutions: the differences of all output vars, each against its namesake.
static struct { int n; YkVarBase const *v[8], *r[8]; idx_t sum; } K;
static idx_t c_compare(const YkVarBase* self, const YkVarBase* ref, real_t, int) {
    if (K.n < 8) { K.v[K.n] = self; K.r[K.n] = ref; } K.n++;
    idx_t e = yv_fresh(0, 1ll << 40); K.sum += e; return e;
}
extern "C" void h_cmp_soln() {
    World w, w2; memset(&K, 0, sizeof K); yv_ghost(&K);
    if (!yv_symbolic()) { yv_cover("soln"); return; }
    auto cm = &YkVarBase::compare; void* t[2]; memcpy(t, &cm, sizeof t);
    YkVarBase* v = &w.sp->output_var_ptrs.at(0)->gb();
    void* fn = (uintptr_t)t[0] & 1 ? *(void**)(*(char**)v + ((uintptr_t)t[0] - 1)) : t[0];
    yv_contract(fn, (void*)c_compare);
    idx_t e = w.sp->compare_data(*w2.sp);
    yv_assert(K.n == (int)w.sp->output_var_ptrs.size() && K.n >= 1, "every output var is compared once");
    yv_assert(e == K.sum, "result is the sum over all output vars");
    for (int i = 0; i < K.n && i < 8; i++) {
        yv_assert(K.v[i]->get_name() == K.r[i]->get_name(), "vars of the same name are compared");
        bool in = false, inr = false; int cnt = 0;
        for (auto& p : w.sp->output_var_ptrs) in |= &p->gb() == K.v[i];
        for (auto& p : w2.sp->output_var_ptrs) inr |= &p->gb() == K.r[i];
        for (int j = 0; j < K.n; j++) cnt += K.v[j] == K.v[i];
        yv_assert(in && inr && cnt == 1, "each output var once, against the reference solution");
    }
    yv_cover("soln");
}
// Bounded: real runs of the whole comparison on small random vars.
extern "C" void h_full() {
    World w, w2;
    idx_t sz[3], of[3]; const char* D[] = {"x", "y", "z"};
    for (int d = 0; d < 3; d++) { sz[d] = yv_i64("size", 1, 5); of[d] = yv_i64("ofs", -3, 3) * 2; }
    std::vector<YkVarImpl*> a, b;
    for (World* q : {&w, &w2}) {
        for (int d = 0; d < 3; d++) q->sp->set_rank_domain_size(D[d], sz[d]);
        auto& l = q == &w ? a : b;
        l = {q->sp->var_A_p.get(), q->sp->var_C_p.get()};
        for (auto* v : l) { for (int d = 0; d < 3; d++) v->_set_rank_offset(D[d], of[d]); v->alloc_storage(); v->set_all_elements_same(1.5); }
    }
    yask_num_threads[0] = 1 + (int)yv_pick("threads", 3);
    static const int MP[] = {0, 1, 3, 20};
    int mp = MP[yv_pick("max_print", 4)];
    idx_t tot = 0;
    for (int v = 0; v < 2; v++) {
        yv_assert(a[v]->gb().compare(&b[v]->gb(), 1e-3, mp) == 0, "equal vars have no differences");
        std::map<std::vector<idx_t>, std::pair<double, double>> bad;
        int k = (int)yv_i64("bad", 0, 40);
        for (int i = 0; i < k; i++) {
            std::vector<idx_t> p = {yv_i64("t", 0, 1)};
            bool halo = false, al = true;
            for (int d = 0; d < 3; d++) {
                idx_t o = yv_i64("i", -1, 5), x = of[d] + o; p.push_back(x);
                halo |= o < 0 || o >= sz[d];
                al &= x >= a[v]->gb().get_first_local_index(d + 1) && x <= a[v]->gb().get_last_local_index(d + 1);
            }
            if (!al) continue;
            static const double X[] = {1.5, 1.5004, 1.5016, -7.25, 9.5, 2000, 2001.5, 2002.5, -2000, 0.1, 0.1009, 0.1012};
            double xa = X[yv_pick("val", 12)], xb = X[yv_pick("ref", 12)];
            a[v]->set_element(xa, p, true); b[v]->set_element(xb, p, true);
            if (!halo) bad[p] = {xa, xb};
        }
        idx_t n = 0;
        for (auto& q : bad) n += !is_close(q.second.first, q.second.second, 1e-3);
        yv_assert(a[v]->gb().compare(&b[v]->gb(), 1e-3, mp) == n, "as many differences as elements that differ");
        tot += n;
    }
    yv_assert(w.sp->compare_data(*w2.sp) == tot, "differences of a solution are those of all its output vars");
    yv_cover("full");
}
