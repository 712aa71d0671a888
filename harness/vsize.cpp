// C05: var sizing. Every size/pad/halo setter, for all values.
#include "kctx.hpp"
#define DEFINE_SOLUTION
#include "yask_stencil_code.hpp"
#include "khooks.hpp"

// Contract of the sizing invariant (YkVarBase::resize) for one dim.
static void size_inv(YkVarImpl& v, const char* d, idx_t dom, idx_t lh, idx_t rh, idx_t lw, idx_t rw, idx_t le, idx_t re, idx_t lp, idx_t rp, idx_t vl) {
    idx_t f = v.get_first_local_index(d), l = v.get_last_local_index(d);
    idx_t df = v.get_first_rank_domain_index(d), dl = v.get_last_rank_domain_index(d);
    idx_t lpad = v.get_left_pad_size(d), rpad = v.get_right_pad_size(d);
    yv_assert(v.get_rank_domain_size(d) == dom, "domain size reads back");
    yv_assert(dl - df + 1 == dom, "domain indices span the domain size");
    yv_assert(v.get_left_halo_size(d) == lh, "left halo reads back");
    yv_assert(v.get_right_halo_size(d) == rh, "right halo reads back");
    yv_assert(v.get_first_rank_halo_index(d) == df - lh, "first halo index");
    yv_assert(v.get_last_rank_halo_index(d) == dl + rh, "last halo index");
    yv_assert(lpad >= lp, "left pad at least the minimum requested");
    yv_assert(rpad >= rp, "right pad at least the minimum requested");
    yv_assert(lpad >= lh + lw + le, "left pad covers halo, wave-front extension and extra pad");
    yv_assert(rpad >= rh + rw + re, "right pad covers halo, wave-front extension and extra pad");
    yv_assert(v.get_left_extra_pad_size(d) == lpad - lh, "left extra pad is pad beyond halo");
    yv_assert(v.get_right_extra_pad_size(d) == rpad - rh, "right extra pad is pad beyond halo");
    yv_assert(f == df - lpad, "first local index");
    yv_assert(l == dl + rpad, "last local index");
    yv_assert(v.get_alloc_size(d) == l - f + 1, "allocation spans the local indices");
    yv_assert(v.get_alloc_size(d) % vl == 0, "allocation is whole vectors");
    yv_assert(lpad % vl == 0, "left pad is whole vectors");
    // Whole-vector reads around any domain point stay inside the allocation.
    if (vl > 1) {
        idx_t up = dom % vl == 0 ? dom : dom + vl - dom % vl;
        yv_assert(rpad >= (up - dom) + rh + rw, "right halo of the last whole vector is allocated");
        yv_assert(lpad >= lh + lw + 1, "left halo plus a partial vector is allocated");
    }
    yv_cover("size_inv");
}
static const idx_t M = 1 << 20;
template <int VAR> static void sizes(const char* d, idx_t vl) {
    Ctx c(h_context_t::new_dims());
    auto sp = std::make_shared<h_context_t>(c.env, c.actl, c.req);
    c.actl->_allow_addl_pad = false;
    YkVarImpl& v = *(VAR == 0 ? sp->var_A_p : sp->var_B_p);
    idx_t dom = yv_i64("domain", 1, M), lh = yv_i64("left_halo", 0, M), rh = yv_i64("right_halo", 0, M);
    idx_t lw = yv_i64("left_wf", 0, M), rw = yv_i64("right_wf", 0, M);
    idx_t le = yv_i64("left_epad", 0, M), re = yv_i64("right_epad", 0, M), lp = yv_i64("left_pad", 0, M), rp = yv_i64("right_pad", 0, M);
    idx_t ofs = yv_i64("rank_offset", -M, M);
    v._set_rank_offset(d, ofs);
    v._set_domain_size(d, dom);
    v.set_left_halo_size(d, lh); v.set_right_halo_size(d, rh);
    v._set_left_wf_ext(d, lw); v._set_right_wf_ext(d, rw);
    v.set_left_extra_pad_size(d, le); v.set_right_extra_pad_size(d, re);
    v.set_left_min_pad_size(d, lp);
    c.actl->_allow_addl_pad = yv_pick("allow_addl_pad", 2);
    v.set_right_min_pad_size(d, rp);
    yv_assert(v.get_first_rank_domain_index(d) == ofs, "rank offset reads back");
    size_inv(v, d, dom, lh, rh, lw, rw, le, re, lp, rp, vl);
}
extern "C" void h_size_x() { sizes<0>("x", 2); }
extern "C" void h_size_y() { sizes<0>("y", 2); }
extern "C" void h_size_z() { sizes<0>("z", 1); }
extern "C" void h_size_b() { sizes<1>("x", 2); }
// Setting both sides at once; "update" setters never lower a request.
extern "C" void h_size_both() {
    Ctx c(h_context_t::new_dims());
    auto sp = std::make_shared<h_context_t>(c.env, c.actl, c.req);
    YkVarImpl& v = *sp->var_A_p;
    idx_t dom = yv_i64("domain", 1, M), h = yv_i64("halo", 0, M), e = yv_i64("epad", 0, M), p = yv_i64("pad", 0, M), p2 = yv_i64("pad2", 0, M), e2 = yv_i64("epad2", 0, M);
    v._set_domain_size("y", dom);
    v.set_halo_size("y", h); v.set_extra_pad_size("y", e); v.set_min_pad_size("y", p);
    size_inv(v, "y", dom, h, h, 0, 0, e, e, p, p, 2);
    switch (yv_pick("how", 6)) {
    case 0: v.update_min_pad_size("y", p2); size_inv(v, "y", dom, h, h, 0, 0, e, e, p > p2 ? p : p2, p > p2 ? p : p2, 2); break;
    case 1: v.update_left_min_pad_size("y", p2); size_inv(v, "y", dom, h, h, 0, 0, e, e, p > p2 ? p : p2, p, 2); break;
    case 2: v.update_right_min_pad_size("y", p2); size_inv(v, "y", dom, h, h, 0, 0, e, e, p, p > p2 ? p : p2, 2); break;
    case 3: v.update_extra_pad_size("y", e2); size_inv(v, "y", dom, h, h, 0, 0, e > e2 ? e : e2, e > e2 ? e : e2, p, p, 2); break;
    case 4: v.update_left_extra_pad_size("y", e2); size_inv(v, "y", dom, h, h, 0, 0, e > e2 ? e : e2, e, p, p, 2); break;
    case 5: v.update_right_extra_pad_size("y", e2); size_inv(v, "y", dom, h, h, 0, 0, e, e > e2 ? e : e2, p, p, 2); break;
    }
}
// Negative requests are refused.
extern "C" void h_size_neg() {
    Ctx c(h_context_t::new_dims());
    auto sp = std::make_shared<h_context_t>(c.env, c.actl, c.req);
    YkVarImpl& v = *sp->var_A_p;
    idx_t n = yv_i64("neg", -M, -1);
    bool t = false;
    switch (yv_pick("which", 6)) {
    case 0: t = throws([&] { v.set_left_halo_size("x", n); }); break;
    case 1: t = throws([&] { v.set_right_halo_size("x", n); }); break;
    case 2: t = throws([&] { v.set_left_min_pad_size("y", n); }); break;
    case 3: t = throws([&] { v.set_right_min_pad_size("y", n); }); break;
    case 4: t = throws([&] { v.set_left_extra_pad_size("z", n); }); break;
    case 5: t = throws([&] { v.set_right_extra_pad_size("z", n); }); break;
    }
    yv_assert(t, "negative halo or pad is refused");
    yv_cover("neg");
}
// Once storage exists, the allocation is frozen: a request either leaves every
// size and index as it was, or throws and leaves them as they were.
extern "C" void h_size_frozen() {
    Ctx c(h_context_t::new_dims());
    auto sp = std::make_shared<h_context_t>(c.env, c.actl, c.req);
    YkVarImpl& v = *sp->var_A_p;
    sp->set_rank_domain_size("x", 8); sp->set_rank_domain_size("y", 8); sp->set_rank_domain_size("z", 8);
    v.set_left_min_pad_size("x", 6); v.set_right_min_pad_size("y", 5);
    v.alloc_storage();
    yv_assert(v.is_storage_allocated(), "allocated");
    const char* d[] = {"x", "y", "z"};
    idx_t f[3], l[3], a[3], lp[3], rp[3];
    for (int i = 0; i < 3; i++) { f[i] = v.get_first_local_index(d[i]); l[i] = v.get_last_local_index(d[i]); a[i] = v.get_alloc_size(d[i]); lp[i] = v.get_left_pad_size(d[i]); rp[i] = v.get_right_pad_size(d[i]); }
    idx_t sb = v.get_num_storage_bytes();
    idx_t n = yv_i64("n", 0, M);
    const char* q = d[yv_pick("dim", 3)];
    bool th = false; int w;
    switch (w = yv_pick("which", 5)) {
    case 0: th = throws([&] { v.set_left_min_pad_size(q, n); }); break;
    case 1: th = throws([&] { v.set_right_min_pad_size(q, n); }); break;
    case 2: th = throws([&] { v.set_left_extra_pad_size(q, n); }); break;
    case 3: th = throws([&] { v.set_right_extra_pad_size(q, n); }); break;
    case 4: th = throws([&] { v.set_halo_size(q, n); }); break;
    }
    for (int i = 0; i < 3; i++) {
        yv_assert(v.get_first_local_index(d[i]) == f[i], "first local index frozen after allocation");
        yv_assert(v.get_last_local_index(d[i]) == l[i], "last local index frozen after allocation");
        yv_assert(v.get_alloc_size(d[i]) == a[i], "allocation size frozen after allocation");
        yv_assert(v.get_left_pad_size(d[i]) == lp[i], "left pad frozen after allocation");
        yv_assert(v.get_right_pad_size(d[i]) == rp[i], "right pad frozen after allocation");
        // A request that is met by the present allocation is not refused; one that is not is.
        if (q == d[i]) {
            idx_t need = w == 0 ? lp[i] : w == 1 ? rp[i] : w == 2 ? v.get_left_extra_pad_size(d[i]) : w == 3 ? v.get_right_extra_pad_size(d[i]) : (lp[i] < rp[i] ? lp[i] : rp[i]);
            if (n > need) yv_assert(th, "a request beyond the allocation is refused");
        }
    }
    yv_assert(v.get_num_storage_bytes() == sb, "storage bytes frozen");
    if (th) yv_cover("refused"); else yv_cover("accepted");
}
// Vars with fixed sizes created through the API; misc and step dims.
extern "C" void h_size_user() {
    Ctx c(h_context_t::new_dims());
    auto sp = std::make_shared<h_context_t>(c.env, c.actl, c.req);
    static const idx_t sts[] = {1, 2, 3, 7};
    idx_t sx = yv_i64("x", 1, 1000), sy = yv_i64("y", 1, 1000), sm = yv_i64("m", 1, 1000), st = sts[yv_pick("t", 4)], fm = yv_i64("first_misc", -M, M);
    auto v = sp->new_fixed_size_var("ux", {"t", "x", "y", "m"}, {st, sx, sy, sm});
    yv_assert(v->get_num_dims() == 4, "dims");
    yv_assert(v->get_alloc_size("t") == st, "step allocation as given");
    yv_assert(v->get_alloc_size("m") == sm, "misc allocation as given");
    yv_assert(v->get_alloc_size("x") >= sx && v->get_alloc_size("x") % 1 == 0, "domain allocation at least as given");
    yv_assert(v->get_rank_domain_size("x") == sx && v->get_rank_domain_size("y") == sy, "fixed sizes read back");
    yv_assert(v->get_first_misc_index("m") == 0 && v->get_last_misc_index("m") == sm - 1, "misc indices start at zero");
    v->set_first_misc_index("m", fm);
    yv_assert(v->get_first_misc_index("m") == fm && v->get_last_misc_index("m") == fm + sm - 1, "misc indices move together");
    yv_assert(v->get_first_local_index("m") == fm && v->get_last_local_index("m") == fm + sm - 1, "local misc indices move together");
    yv_assert(v->get_num_storage_elements() == v->get_alloc_size("t") * v->get_alloc_size("x") * v->get_alloc_size("y") * v->get_alloc_size("m"), "elements are the product of the allocations");
    yv_cover("user");
}
// Sizes requested through the solution reach every var.
extern "C" void h_size_soln() {
    Ctx c(h_context_t::new_dims());
    auto sp = std::make_shared<h_context_t>(c.env, c.actl, c.req);
    idx_t n = yv_i64("n", 1, 1000000), p = yv_i64("pad", 0, 1000), e = yv_i64("extra", 0, 1000);
    sp->set_rank_domain_size("x", n); sp->set_rank_domain_size("y", 7); sp->set_rank_domain_size("z", 9);
    sp->set_min_pad_size("x", p);
    yv_assert(sp->get_rank_domain_size("x") == n && sp->get_min_pad_size("x") == p, "solution settings read back");
    for (auto vp : sp->get_vars()) {
        yv_assert(vp->get_rank_domain_size("x") == n, "domain size reaches every var");
        yv_assert(vp->get_left_pad_size("x") >= p && vp->get_right_pad_size("x") >= p, "minimum pad reaches every var");
        yv_assert(vp->get_left_pad_size("x") >= vp->get_left_halo_size("x"), "pad covers halo");
        yv_assert(vp->get_alloc_size("x") == vp->get_left_pad_size("x") + n + vp->get_right_pad_size("x"), "allocation is pads plus domain");
    }
    (void)e; yv_cover("soln");
}
// Every getter: by name, by position and as a vector of the dims it applies to, in order.
typedef idx_t (YkVarImpl::*by_name_t)(const std::string&) const;
typedef idx_t (YkVarImpl::*by_posn_t)(int) const;
typedef idx_t_vec (YkVarImpl::*by_vec_t)() const;
struct getter_t { by_name_t n; by_posn_t p; by_vec_t v; bool all; };
#define GETTER(f, all) {static_cast<by_name_t>(&YkVarImpl::f), static_cast<by_posn_t>(&YkVarImpl::f), &YkVarImpl::f##_vec, all}
static const getter_t getters[] = {
    GETTER(get_alloc_size, true), GETTER(get_first_local_index, true), GETTER(get_last_local_index, true),
    GETTER(get_left_pad_size, false), GETTER(get_right_pad_size, false), GETTER(get_left_halo_size, false), GETTER(get_right_halo_size, false),
    GETTER(get_left_extra_pad_size, false), GETTER(get_right_extra_pad_size, false), GETTER(get_rank_domain_size, false),
    GETTER(get_first_rank_domain_index, false), GETTER(get_last_rank_domain_index, false), GETTER(get_first_rank_halo_index, false), GETTER(get_last_rank_halo_index, false)};
extern "C" void h_size_vec() {
    Ctx c(h_context_t::new_dims());
    auto sp = std::make_shared<h_context_t>(c.env, c.actl, c.req);
    YkVarImpl& v = *sp->var_A_p;
    const char* d[] = {"x", "y", "z"};
    v._set_domain_size("x", 5); v._set_domain_size("y", 3); v._set_domain_size("z", 4);
    v.set_left_halo_size("x", 3); v.set_right_halo_size("z", 2); v.set_left_extra_pad_size("y", 1);
    const char* q = d[yv_pick("dim", 3)];
    v._set_rank_offset(q, yv_i64("ofs", -M, M));
    v._set_domain_size(q, yv_i64("domain", 1, M));
    v.set_left_halo_size(q, yv_i64("left_halo", 0, M)); v.set_right_halo_size(q, yv_i64("right_halo", 0, M));
    v.set_left_extra_pad_size(q, yv_i64("left_epad", 0, M)); v.set_right_min_pad_size(q, yv_i64("right_pad", 0, M));
    const char* all[] = {"t", "x", "y", "z"};
    for (auto& g : getters) {
        int lo = g.all ? 0 : 1;
        idx_t_vec r = (v.*g.v)();
        yv_assert((int)r.size() == 4 - lo, "vector getter lists the dims it applies to");
        for (int i = lo; i < 4; i++) {
            idx_t n = (v.*g.n)(all[i]);
            yv_assert((v.*g.p)(i) == n, "getter by position agrees with getter by name");
            yv_assert(r.at(i - lo) == n, "vector getter agrees with getter by name");
        }
        if (!g.all) yv_assert(throws([&] { (v.*g.n)("t"); }), "a domain size of the step dim is refused");
        yv_assert(throws([&] { (v.*g.n)("nodim"); }), "an unknown dim is refused");
    }
    yv_cover("vec");
}
// Vector counts agree with element counts, and strides follow the layout.
template <int D> static void strides(const char* d) {
    Ctx c(h_context_t::new_dims());
    auto sp = std::make_shared<h_context_t>(c.env, c.actl, c.req);
    YkVarImpl& v = *sp->var_A_p;
    const char* all[] = {"t", "x", "y", "z"};
    v._set_domain_size("x", 5); v._set_domain_size("y", 3); v._set_domain_size("z", 4);
    v._set_domain_size(d, yv_i64("domain", 1, M));
    v.set_left_halo_size(d, yv_i64("left_halo", 0, M)); v.set_right_halo_size(d, yv_i64("right_halo", 0, M));
    v.set_left_min_pad_size(d, yv_i64("left_pad", 0, M)); v.set_right_extra_pad_size(d, yv_i64("right_epad", 0, M));
    auto* cp = v.corep();
    idx_t prod = 1, vprod = 1, span = 0, vl = 1;
    for (int i = 0; i < 4; i++) {
        idx_t n = cp->_var_vec_lens[i];
        yv_assert(cp->_vec_allocs[i] * n == v.get_alloc_size(all[i]), "vectors times vector length is the allocation");
        yv_assert(cp->_vec_left_pads[i] * n == cp->_actl_left_pads[i], "left pad in vectors");
        yv_assert(cp->_vec_local_offsets[i] * n == cp->_local_offsets[i], "local offset in vectors");
        prod *= v.get_alloc_size(all[i]); vprod *= cp->_vec_allocs[i]; vl *= n;
        yv_assert(cp->_vec_strides[i] >= 1, "strides are positive");
        span += (cp->_vec_allocs[i] - 1) * cp->_vec_strides[i];
    }
    yv_assert(v.get_num_storage_elements() == prod && vprod * vl == prod, "elements are the product of the allocations");
    yv_assert(v.get_num_storage_bytes() == prod * (idx_t)sizeof(real_t), "bytes follow the elements");
    // Injective and dense: the last vector is at the end, and strides nest.
    yv_assert(span == vprod - 1, "the last vector is the last of the storage");
    int nest = 0;
    for (int i = 0; i < 4; i++) {
        bool in = cp->_vec_strides[i] * cp->_vec_allocs[i] == vprod;
        for (int j = 0; j < 4; j++) if (j != i && cp->_vec_strides[j] == cp->_vec_strides[i] * cp->_vec_allocs[i]) in = true;
        nest += in;
    }
    yv_assert(nest == 4, "each stride steps over whole inner dims");
    yv_cover("strides");
}
extern "C" void h_strides_x() { strides<1>("x"); }
extern "C" void h_strides_y() { strides<2>("y"); }
extern "C" void h_strides_z() { strides<3>("z"); }
