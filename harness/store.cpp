// C15: no two variables share storage unless they were fused or the compiler gave them one scratch slot.
// The real alloc_var_data(), alloc_scratch_data(), release_storage() and fuse_vars(); memory is given by contract.
#include "kctx.hpp"
#define DEFINE_SOLUTION
#include "yask_stencil_code.hpp"
#include "omp_team.h"
#include <vector>
namespace yask {
bool h_valid_domain(int, const Indices&) { return true; }
bool h_has_domain(int) { return false; }
bool h_valid_step(int, idx_t) { return true; }
bool h_has_step(int) { return false; }
void h_scalar(int, h_core_t*, int, const Indices&) {}
void h_vector(int, h_core_t*, int, idx_t, idx_t, idx_t, idx_t, bit_mask_t) {}
}
static std::string c_bytes(size_t) { return "B"; }
static std::string c_num(idx_t) { return "N"; }
static const idx_t M = 1ll << 30;
static const int NB = 16;
struct Block { char* p; idx_t n; int freed; std::pair<int, int> key; };
static Block blk[NB]; static int nblk;
struct Soln : h_context_t { using h_context_t::h_context_t;
    // contract of _alloc_data(): fresh memory of the size asked for, aligned to cache lines; given back when its last owner goes.
    void _alloc_data(AllocMap& m, const std::string&) override {
        for (auto& i : m) {
            auto& d = i.second; if (!d.nbytes) continue;
            yv_assert(nblk < NB, "few requests"); int k = nblk++;
            blk[k].p = yv_symbolic() ? new char[64] : (char*)((size_t)(k + 1) << 44); blk[k].n = d.nbytes; blk[k].freed = 0; blk[k].key = i.first;
            d.ptr = std::shared_ptr<char>(blk[k].p, [k](char*) { blk[k].freed++; });
        }
    }
};
struct World { Ctx c; std::shared_ptr<Soln> sp; World() : c(h_context_t::new_dims()) { nblk = 0; std::string (*f)(size_t) = make_byte_str; yv_contract((void*)f, (void*)c_bytes); std::string (*g)(idx_t) = make_num_str; yv_contract((void*)g, (void*)c_num); sp = std::make_shared<Soln>(c.env, c.actl, c.req); } };
struct At { int b; idx_t o, n; }; // block, offset, size.
static At at(YkVarPtr g) {
    const char* p = (const char*)g->get_raw_storage_buffer(); At r{-1, 0, (idx_t)g->get_num_storage_bytes()};
    if (!p) return r;
    for (int k = 0; k < nblk; k++) {
        if (yv_symbolic()) { if (yv_ptr_obj(p) == yv_ptr_obj(blk[k].p)) { r.b = k; r.o = yv_ptr_off(p) - yv_ptr_off(blk[k].p); } }
        else if (p >= blk[k].p && p < blk[k].p + (1ll << 43)) { r.b = k; r.o = p - blk[k].p; }
    }
    return r;
}
static void ok1(const At& a) {
    yv_assert(a.b >= 0, "a variable has storage");
    yv_assert(!blk[a.b].freed, "storage in use is not given back");
    yv_assert((a.o >= 0) & (a.o + a.n + YASK_PAD_BYTES <= blk[a.b].n), "storage and its pad lie in the memory asked for");
    yv_assert(a.o % CACHELINE_BYTES == 0, "storage begins at a cache line");
}
static bool apart(const At& a, const At& b) { return a.b != b.b || (int)((a.o + a.n + (idx_t)YASK_PAD_BYTES <= b.o) | (b.o + b.n + (idx_t)YASK_PAD_BYTES <= a.o)); }
static void size_of(YkVarPtr g, int i) {
    static const char* nm[5] = {"A", "B", "C", "U", "V"}; static const char* dn[3] = {"x", "y", "z"};
    if (g->is_dim_used(dn[i == 3 ? 1 : i % 3])) g->_set_domain_size(dn[i == 3 ? 1 : i % 3], yv_i64(nm[i], 1, M));
}
// vars with any sizes, any preferred NUMA node, with and without bundling; then some released, resized and allocated again.
static void vars(int mode) {
    World w; auto& c = *w.sp; idx_t one = yv_pick("bundle", 2); w.c.actl->_bundle_allocs = one;
    std::vector<YkVarPtr> v; for (auto n : {"A", "B", "C"}) v.push_back(c.get_var(n) ? c.all_var_map[n] : nullptr);
    c.new_var("U", {"y", "z"}); c.new_fixed_size_var("V", {"x", "y"}, {8, 24}); v.push_back(c.all_var_map["U"]); v.push_back(c.all_var_map["V"]);
    int pref = yv_pick("pref", 3);
    for (int i = 0; i < 5; i++) { if (i < 4) size_of(v[i], i); if (pref) v[i]->set_numa_preferred(pref == 1 ? i % 2 : i == 3 ? yask_numa_interleave : yask_numa_local); }
    bool early = yv_pick("early", 2); idx_t eb = 0; static char own[64]; std::shared_ptr<char> op(own, [](char*) {});
    if (early) { v[1]->set_storage(op, 0); eb = 1; } // storage that is there already is kept.
    c.alloc_var_data();
    int n0 = nblk;
    auto all = [&] {
        At a[5]; for (int i = 0; i < 5; i++) { if (early && i == 1) { yv_assert(v[i]->get_raw_storage_buffer() == own, "storage that is there already is kept"); continue; } a[i] = at(v[i]); ok1(a[i]);
            for (int j = 0; j < i; j++) if (!(early && j == 1)) yv_assert(apart(a[i], a[j]), "two variables do not share storage"); }
        if (n0 == nblk) for (int i = 0; i < 5; i++) if (!(early && i == 1)) yv_assert(blk[a[i].b].key.first == v[i]->get_numa_preferred(), "memory is of the kind preferred for the variable");
    };
    all(); yv_cover("allocated");
    if (mode) {
        int r = yv_pick("released", 5); void* keep[5]; for (int i = 0; i < 5; i++) keep[i] = v[i]->get_raw_storage_buffer();
        v[r]->release_storage(); yv_assert(!v[r]->is_storage_allocated(), "released storage is gone");
        if (r < 4) size_of(v[r], r);
        c.alloc_var_data();
        for (int i = 0; i < 5; i++) if (i != r) yv_assert(keep[i] == v[i]->get_raw_storage_buffer(), "other variables keep their storage");
        if (early && r == 1) { early = false; }
        all(); yv_cover("again");
        if (mode > 1) { for (int i = 0; i < 5; i++) v[i]->release_storage(); for (int k = 0; k < nblk; k++) yv_assert(blk[k].freed == 1, "memory is given back exactly once, when its last variable is released"); yv_cover("freed"); }
    }
}
extern "C" void h_store_vars() { vars(0); }
extern "C" void h_store_again() { vars(1); }
extern "C" void h_store_free() { vars(2); }
// scratch vars of all threads: S0 and S2 have one slot, S1 another.
extern "C" void h_store_scratch() {
    World w; auto& c = *w.sp; KernelSettings& o = *w.c.actl; o._bundle_allocs = yv_pick("bundle", 2); o._numa_pref = yask_numa_none;
    int T = 1 + yv_pick("threads", 3); o.max_threads = T * (1 + yv_pick("inner", 2)); o.num_outer_threads = T; o.num_inner_threads = 1;
    int d = 2 * yv_pick("dim", 2); static const char* dn[3] = {"x", "y", "z"};
    idx_t mb = yv_i64("micro", 1, M), wf = yv_i64("wf", 0, 1 << 16), sh = yv_i64("shifts", 0, 1 << 10), ml = yv_i64("wl", 0, 1 << 10), mr = yv_i64("wr", 0, 1 << 10);
    int ta = yv_pick("ta", 3), ma = yv_pick("ma", 2) * 3;
    for (auto t : {&c.wf_shift_pts, &c.tb_angles, &c.mb_angles, &c.max_write_halo_left, &c.max_write_halo_right}) *t = w.c.dims->_domain_dims;
    for (int k = 0; k < 3; k++) { o._micro_block_sizes[k + 1] = k == d ? mb : 8; c.wf_shift_pts[k] = k == d ? wf : 0; c.tb_angles[k] = k == d ? ta : 0; c.mb_angles[k] = k == d ? ma : 0; c.max_write_halo_left[k] = k == d ? ml : 0; c.max_write_halo_right[k] = k == d ? mr : 0; }
    c.num_tb_shifts = sh;
    c.alloc_scratch_data();
    std::vector<VarPtrs*> L{&c.var_S0_list, &c.var_S1_list, &c.var_S2_list};
    static const int slot[3] = {0, 1, 0};
    for (auto l : L) yv_assert((int)l->size() == T, "one scratch variable per thread");
    At a[3][3]; idx_t sp = std::max(wf, std::max((idx_t)ta, (idx_t)ma) * sh);
    for (int s = 0; s < 3; s++) for (int t = 0; t < T; t++) {
        auto g = (*L[s])[t]; a[s][t] = at(g); ok1(a[s][t]);
        if (g->is_dim_used(dn[d])) {
            idx_t lh = g->get_left_halo_size(dn[d]), rh = g->get_right_halo_size(dn[d]);
            yv_assert((g->_get_left_wf_ext(dn[d]) >= sp) & (g->_get_right_wf_ext(dn[d]) >= sp) & (g->get_rank_domain_size(dn[d]) == mb), "scratch holds a micro-block and its shifts");
            yv_assert((g->get_left_pad_size(dn[d]) >= lh) & (g->get_right_pad_size(dn[d]) >= rh) & (g->get_left_pad_size(dn[d]) >= ml) & (g->get_right_pad_size(dn[d]) >= mr), "scratch holds the points written beyond the micro-block");
        }
        for (int q = 0; q <= s; q++) for (int u = 0; u < (q < s ? T : t); u++)
            if (t == u && slot[s] == slot[q]) yv_assert((a[s][t].b == a[q][u].b) & (a[s][t].o == a[q][u].o), "one slot of one thread is one place");
            else yv_assert(apart(a[s][t], a[q][u]), "scratch of other threads and slots is elsewhere");
    }
    for (int t = 0; t < T; t++) yv_assert((void*)(*L[1])[t]->corep() == (void*)c._core_data._thread_core_list[t].var_S1_core_p.get(), "a thread uses its own scratch");
    int n1 = nblk; c.free_scratch_data(); c.make_scratch_vars(0); for (int k = 0; k < n1; k++) yv_assert(blk[k].freed == 1, "scratch memory is given back once");
    yv_cover("scratch");
}
// fusing: refused into a variable of the solution unless layouts are the same; then both names are one variable.
extern "C" void h_store_fuse() {
    World w; auto& c = *w.sp;
    VarDimNames dims[5] = {{"t", "x", "y", "z"}, {"x", "y", "z"}, {"x", "z", "y"}, {"y", "z"}, {"t", "x", "y"}};
    int k = yv_pick("dims", 5), fixed = yv_pick("fixed", 2), own = yv_pick("own", 3);
    idx_t n = yv_i64("n", 1, M); std::vector<idx_t> sz(dims[k].size(), 8);
    auto u = fixed ? c.new_fixed_size_var("U", dims[k], sz) : c.new_var("U", dims[k]);
    YkVarPtr U = c.all_var_map["U"]; if (!fixed && U->is_dim_used("y")) U->_set_domain_size("y", n);
    auto u2 = c.new_var("W", {"y", "z"}); YkVarPtr dst = own == 0 ? c.all_var_map["A"] : own == 1 ? c.all_var_map["B"] : c.all_var_map["W"];
    c.alloc_var_data();
    At a = at(U), b = at(dst); auto g0 = dst->gbp(); bool vec = k == (own == 0 ? 0 : 1);
    bool t = throws([&] { dst->fuse_vars(U); });
    if (own < 2) yv_assert(t == !vec, "a variable of the solution is fused only with one of the same dimensions and folding");
    else yv_assert(!t, "a user variable can be fused with any variable");
    if (t) { At d = at(dst); yv_assert(dst->gbp() == g0, "a refused fusion changes nothing"); yv_assert((d.b == b.b) & (d.o == b.o), "a refused fusion keeps the storage"); }
    else {
        At d = at(dst), e = at(U); ok1(d); yv_assert((d.b == a.b) & (d.o == a.o) & (e.b == a.b) & (e.o == a.o), "fused variables share the storage of the source");
        yv_assert(dst->is_storage_layout_identical(U), "fused variables have the same layout");
        yv_assert(dst->gb().is_user_var() == (own == 2), "a fused variable of the solution stays one");
    }
    yv_cover("fuse");
}
// the real _alloc_data(): each request gets memory of its own of the size and kind asked for.
static idx_t got[4]; static int kind[4], ngot, nfree; static char* gp[4];
static char* c_numa(size_t n, int k) { got[ngot] = n; kind[ngot] = k; return gp[ngot++] = (char*)yv_symbuf("numa", n); }
static void c_del(NumaDeleter* d, char* p) { for (int i = 0; i < ngot; i++) if (gp[i] == p) { nfree++; yv_assert((idx_t)d->_nbytes == got[i] && d->_numa_pref == kind[i], "memory is given back as it was got"); } }
extern "C" void h_store_alloc() {
    World w; StencilContext& c = *w.sp; ngot = nfree = 0; yv_contract((void*)numa_alloc, (void*)c_numa);
    void (NumaDeleter::*fn)(char*) = &NumaDeleter::operator(); void* fp; memcpy(&fp, &fn, sizeof fp); yv_contract(fp, (void*)c_del);
    { AllocMap m; int n = 1 + yv_pick("n", 3); static const int pr[3] = {yask_numa_none, yask_numa_none, 0}; idx_t sz[3]; int live = 0;
      for (int i = 0; i < n; i++) { auto& d = m[std::make_pair(yv_symbolic() ? pr[i] : (int)yask_numa_none, i)]; sz[i] = yv_i64("bytes", 0, yv_symbolic() ? M : 4096); d.nbytes = sz[i]; d.nvars = 1; }
      c.StencilContext::_alloc_data(m, "var");
      for (int i = 0; i < n; i++) {
        auto& d = m[std::make_pair(yv_symbolic() ? pr[i] : (int)yask_numa_none, i)];
        yv_assert((d.ptr.get() != 0) == (sz[i] > 0), "memory is given exactly to what needs some");
        yv_assert((idx_t)d.nbytes == sz[i], "the request is not changed");
        for (int j = 0; j < i; j++) yv_assert(!d.ptr || d.ptr.get() != m[std::make_pair(yv_symbolic() ? pr[j] : (int)yask_numa_none, j)].ptr.get(), "requests do not share memory");
        if (d.ptr && yv_symbolic()) { bool f = false; for (int j = 0; j < ngot; j++) if (gp[j] == d.ptr.get()) { f = true; yv_assert(got[j] == sz[i] && kind[j] == pr[i], "memory of the size and kind asked for"); } yv_assert(f, "memory comes from the allocator"); }
        else if (d.ptr) { d.ptr.get()[0] = 1; d.ptr.get()[sz[i] - 1] = 1; }
      } }
    if (yv_symbolic()) yv_assert(nfree == ngot, "memory is given back when its last owner goes");
    yv_cover("alloc");
}
