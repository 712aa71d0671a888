// C04: addressing of variable elements and vectors (yk_var.hpp core types).
// The layout is a contract class: it demands valid 0-based indices and records
// them; that distinct valid indices get distinct, in-range cells is proved for
// the generated layouts under C03.
#include "yask_stencil.hpp"
#include "yv.h"
using namespace yask;
static const idx_t M = idx_t(1) << 40;
static idx_t G[8]; // ghost: the cell requested.
static bool Gok;

template <int N> struct CLayout : public Layout {
    CLayout() : Layout(N) { }
    static constexpr int get_num_sizes() { return N; }
    idx_t layout(const Indices& j) const {
        Gok = j.get_num_dims() == N;
        for (int i = 0; i < N; i++) { Gok = Gok & (j[i] >= 0) & (j[i] < _sizes[i]); G[i] = j[i]; }
        return 0;
    }
    Indices unlayout(idx_t) const { return Indices(idx_t(0), N); }
    idx_t get_num_elements() const { return 1; }
};
// Class invariant of a core object, as established by resize() (C05). step: dim 0 is the step dim.
template <typename C, int N> static void fields(C& c, bool step, const int* vl, bool cov = false) {
    static const char* nm[4][6] = {
        { "dom0", "lpad0", "rpad0", "rofs0", "lofs0", "" }, { "dom1", "lpad1", "rpad1", "rofs1", "lofs1", "" },
        { "dom2", "lpad2", "rpad2", "rofs2", "lofs2", "" }, { "dom3", "lpad3", "rpad3", "rofs3", "lofs3", "" } };
    for (int i = 0; i < N; i++) {
        idx_t v = vl[i];
        bool st = step && i == 0;
        idx_t dom = yv_i64(nm[i][0], 1, 1 << 30);
        idx_t lp = st ? 0 : v * yv_i64(nm[i][1], 0, 1 << 20);
        idx_t rp = st ? 0 : yv_i64(nm[i][2], 0, 1 << 30);
        idx_t ro = st ? 0 : v * yv_i64(nm[i][3], -(1 << 30), 1 << 30);
        idx_t vlo = st ? 0 : yv_i64(nm[i][4], -(1 << 30), 1 << 30), lo = v * vlo;
        if (v > 1) yv_assume((lp + dom + rp) % v == 0);
        c._domains[i] = dom; c._actl_left_pads[i] = lp; c._actl_right_pads[i] = rp;
        c._rank_offsets[i] = ro; c._local_offsets[i] = lo;
        c._allocs[i] = lp + dom + rp;
        c._soln_vec_lens[i] = v; c._var_vec_lens[i] = v;
        c._vec_left_pads[i] = lp / v; c._vec_allocs[i] = c._allocs[i] / v; c._vec_local_offsets[i] = vlo;
        c._data._layout.set_size(i, c._vec_allocs[i]);
    }
}
static bool ok_idx(const YkVarBaseCore& c, const Indices& a, int N, bool step) {
    bool ok = true;
    for (int i = step ? 1 : 0; i < N; i++)
        ok = ok & (a[i] >= c.get_first_local_index(i)) & (a[i] <= c.get_last_local_index(i));
    return ok;
}
// Ring lemma (proved by h_lemma_ring): steps less than D apart share a slot only if they are equal.
static void lemma_ring(idx_t a, idx_t b, idx_t D, idx_t sa, idx_t sb) {
    yv_assert((D > 0) & (b > a - D) & (b < a + D) & (sa == imod_flr<idx_t>(a, D)) & (sb == imod_flr<idx_t>(b, D)), "step index wraps modulo the allocation");
    yv_assume((sa == sb) == (a == b));
}
extern "C" void h_lemma_ring() {
    idx_t a = yv_i64("a", -M, M), b = yv_i64("b", -M, M), D = yv_i64("D", 1, 1 << 30);
    yv_assume((b > a - D) & (b < a + D));
    idx_t sa = imod_flr<idx_t>(a, D), sb = imod_flr<idx_t>(b, D), qa = idiv_flr<idx_t>(a, D), qb = idiv_flr<idx_t>(b, D);
    yv_assume((a == qa * D + sa) & (b == qb * D + sb) & (sa >= 0) & (sa < D) & (sb >= 0) & (sb < D)); // proved under C01.
    idx_t k = qb - qa, m = (b - a) - (sb - sa);
    yv_assert(m == k * D, "difference");
    yv_assert((k <= 0) | (m >= D), "k > 0");
    yv_assert((k >= 0) | (m <= -D), "k < 0");
    yv_assert((m == 0) | (m >= D) | (m <= -D), "slots differ by a multiple of the allocation");
    yv_cover("ring");
}
extern "C" void h_lemma_ring2() { // linear part.
    idx_t a = yv_i64("a", -M, M), b = yv_i64("b", -M, M), D = yv_i64("D", 1, 1 << 30), sa = yv_i64("sa", 0, M), sb = yv_i64("sb", 0, M);
    idx_t m = (b - a) - (sb - sa);
    yv_assume((b > a - D) & (b < a + D) & (sa < D) & (sb < D) & ((m == 0) | (m >= D) | (m <= -D)) & ((a != b) | (sa == sb)));
    yv_assert((sa == sb) == (a == b), "steps less than the allocation apart share a slot only if equal");
    yv_cover("ring2");
}
template <bool STEP, int N> static void elem() {
    typedef YkElemVarCore<CLayout<N>, STEP> C;
    C c(N);
    static real_t cell[2];
    c._data._elems = cell;
    int vl[4] = { 1, 1, 1, 1 };
    fields<C, N>(c, STEP, vl);
    Indices a(idx_t(0), N), b(idx_t(0), N), l(idx_t(0), N);
    static const char* an[] = { "a0", "a1", "a2", "a3" };
    static const char* bn[] = { "b0", "b1", "b2", "b3" };
    for (int i = 0; i < N; i++) { a[i] = yv_i64(an[i], -M, M); b[i] = yv_i64(bn[i], -M, M); }
    if (STEP) { yv_assume((b[0] > a[0] - c._domains[0]) & (b[0] < a[0] + c._domains[0])); }
    yv_assume(ok_idx(c, a, N, STEP) & ok_idx(c, b, N, STEP));
    idx_t sa = STEP ? c._wrap_step(a[0]) : 0, sb = STEP ? c._wrap_step(b[0]) : 0;
    if (STEP) { yv_assert((sa >= 0) & (sa < c._domains[0]), "step index wraps into the allocation"); lemma_ring(a[0], b[0], c._domains[0], sa, sb); }
    idx_t g[8], h[8];
    yv_assert(c.get_elem_ptr(a, sa) == cell, "element pointer comes from the layout");
    yv_assert(Gok, "element of the allocation maps to a cell of the storage");
    for (int i = 0; i < N; i++) g[i] = G[i];
    c.get_elem_ptr(b, sb);
    bool same = true, idx = true;
    for (int i = 0; i < N; i++) { h[i] = G[i]; same = same & (g[i] == h[i]); idx = idx & (a[i] == b[i]); }
    yv_assert(same == idx, "two elements share a cell exactly when all their indices agree");
    // Local indices: relative to this rank.
    for (int i = 0; i < N; i++) l[i] = a[i] - (STEP && i == 0 ? 0 : c._rank_offsets[i]);
    yv_assert(c.get_elem_ptr_local(l, sa) == cell, "local element pointer comes from the layout");
    bool loc = Gok;
    for (int i = 0; i < N; i++) loc = loc & (G[i] == g[i]);
    yv_assert(loc, "local and global indices of an element address the same cell");
    yv_cover("elem");
}
// First and last local index address the first and last cell.
template <bool STEP, int N, typename C> static void ends(C& c) {
    Indices a(idx_t(0), N), b(idx_t(0), N);
    for (int i = 0; i < N; i++) { a[i] = c.get_first_local_index(i); b[i] = c.get_last_local_index(i); }
    bool f = true, l = true;
    c.get_elem_ptr(a, STEP ? c._wrap_step(a[0]) : 0);
    for (int i = STEP; i < N; i++) f = f & (G[i] == 0);
    c.get_elem_ptr(b, STEP ? c._wrap_step(b[0]) : 0);
    for (int i = STEP; i < N; i++) l = l & (G[i] == c._vec_allocs[i] - 1);
    yv_assert(f, "first local index is the first cell");
    yv_assert(l, "last local index is the last cell");
}
extern "C" {
void h_elem1() { elem<false, 1>(); }
void h_elem2() { elem<false, 2>(); }
void h_elem3() { elem<false, 3>(); }
void h_elem_step1() { elem<true, 1>(); }
void h_elem_step2() { elem<true, 2>(); }
void h_elem_step4() { elem<true, 4>(); }
void h_elem_ends() { typedef YkElemVarCore<CLayout<3>, true> C; C c(3); static real_t cell[2]; c._data._elems = cell; int vl[4] = {1,1,1,1}; fields<C, 3>(c, true, vl); ends<true, 3>(c); yv_cover("ends"); }
}
// Folded variables: the vector lengths of the solution are V.
template <bool STEP, int N, idx_t... V> static void vec(const int* posn) {
    typedef YkVecVarCore<CLayout<N>, STEP, V...> C;
    static const idx_t vls[N] { V... };
    int vl[4];
    for (int i = 0; i < N; i++) vl[i] = vls[i];
    C c(N);
    static real_vec_t cell[1];
    c._data._elems = cell;
    for (int k = 0; k < NUM_VEC_FOLD_DIMS; k++) c._vec_fold_posns[k] = posn[k];
    fields<C, N>(c, STEP, vl);
    Indices a(idx_t(0), N), b(idx_t(0), N);
    static const char* an[] = { "a0", "a1", "a2", "a3" };
    static const char* bn[] = { "b0", "b1", "b2", "b3" };
    for (int i = 0; i < N; i++) { a[i] = yv_i64(an[i], -M, M); b[i] = yv_i64(bn[i], -M, M); }
    if (STEP) { yv_assume((b[0] > a[0] - c._domains[0]) & (b[0] < a[0] + c._domains[0])); }
    yv_assume(ok_idx(c, a, N, STEP) & ok_idx(c, b, N, STEP));
    idx_t sa = STEP ? c._wrap_step(a[0]) : 0, sb = STEP ? c._wrap_step(b[0]) : 0;
    if (STEP) lemma_ring(a[0], b[0], c._domains[0], sa, sb);
    idx_t g[8];
    const real_t* base = (const real_t*)cell;
    idx_t la = c.get_elem_ptr(a, sa) - base;
    yv_assert(Gok, "element of the allocation maps to a vector of the storage");
    yv_assert((la >= 0) & (la < VLEN), "element lies inside its vector");
    for (int i = 0; i < N; i++) g[i] = G[i];
    idx_t lb = c.get_elem_ptr(b, sb) - base;
    bool same = la == lb, idx = true;
    for (int i = 0; i < N; i++) { same = same & (g[i] == G[i]); idx = idx & (a[i] == b[i]); }
    yv_assert(same == idx, "two elements share a vector lane exactly when all their indices agree");
    // The vector access used by the stencil code: vector index n covers elements n*V .. n*V+V-1 of this rank.
    Indices n(idx_t(0), N);
    Indices lane(idx_t(0), NUM_VEC_FOLD_DIMS);
    for (int i = 0; i < N; i++) {
        idx_t r = a[i] - (STEP && i == 0 ? 0 : c._rank_offsets[i]);
        n[i] = STEP && i == 0 ? r : idiv_flr<idx_t>(r, vls[i]);
        for (int k = 0; k < NUM_VEC_FOLD_DIMS; k++) if (posn[k] == i) lane[k] = imod_flr<idx_t>(r, vls[i]);
    }
    yv_assert(c.get_vec_ptr_norm(n, sa) == cell, "vector pointer comes from the layout");
    bool v = Gok;
    for (int i = 0; i < N; i++) v = v & (G[i] == g[i]);
    yv_assert(v, "vector access and element access find the element in the same vector");
    yv_assert(VEC_FOLD_LAYOUT(lane) == la, "lane of an element is its offset in the fold");
    ends<STEP, N>(c);
    yv_cover("vec");
}
extern "C" {
#define VP(a, b, cc) static const int p[3] = { a, b, cc }
#if CFG == 0 // fold x=2, y=2
void h_vec_xy() { VP(0, 1, 0); vec<false, 2, 2, 2>(p); }
void h_vec_yx() { VP(1, 0, 0); vec<false, 2, 2, 2>(p); }
void h_vec_txyz() { VP(1, 2, 0); vec<true, 4, 1, 2, 2, 1>(p); }
void h_vec_zyx() { VP(2, 1, 0); vec<false, 3, 1, 2, 2>(p); }
#elif CFG == 1 // fold z=4
void h_vec_z() { VP(0, 0, 0); vec<false, 1, 4>(p); }
void h_vec_tzx() { VP(1, 0, 0); vec<true, 3, 1, 4, 1>(p); }
void h_vec_xyz1() { VP(2, 0, 0); vec<false, 3, 1, 1, 4>(p); }
#else // fold x=4, y=2 (or x=2, y=2, z=2 with CFG 3)
#if CFG == 2
void h_vec_xy42() { VP(0, 1, 0); vec<false, 2, 4, 2>(p); }
void h_vec_tyx42() { VP(2, 1, 0); vec<true, 3, 1, 2, 4>(p); }
#else
void h_vec_xyz222() { VP(0, 1, 2); vec<false, 3, 2, 2, 2>(p); }
void h_vec_tzxy222() { VP(2, 3, 1); vec<true, 4, 1, 2, 2, 2>(p); }
#endif
#endif
}
