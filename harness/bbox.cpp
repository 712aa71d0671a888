// C11: bounding boxes: every valid point of a part lies in exactly one full box, and no other point does.
#include "kctx.hpp"
#define DEFINE_SOLUTION
#include "yask_stencil_code.hpp"
#include "omp_team.h"
#include <vector>

static idx_t B[3], N[3]; static std::vector<char> V; static bool has;
static bool inb(const idx_t* p) { for (int j = 0; j < 3; j++) if (p[j] < B[j] || p[j] >= B[j] + N[j]) return false; return true; }
static char& at(std::vector<char>& v, const idx_t* p) { return v[((p[0] - B[0]) * N[1] + p[1] - B[1]) * N[2] + p[2] - B[2]]; }
namespace yask {
bool h_valid_domain(int, const Indices& i) { idx_t p[3] = {i[1], i[2], i[3]}; return inb(p) && at(V, p); }
bool h_has_domain(int) { return has; }
bool h_valid_step(int, idx_t) { return true; }
bool h_has_step(int) { return false; }
void h_scalar(int, h_core_t*, int, const Indices&) {}
void h_vector(int, h_core_t*, int, idx_t, idx_t, idx_t, idx_t, bit_mask_t) {}
}
static const int F[3] = {VLEN_X, VLEN_Y, VLEN_Z};
struct World {
    Ctx c; std::shared_ptr<h_context_t> sp;
    World() : c(h_context_t::new_dims()) { sp = std::make_shared<h_context_t>(c.env, c.actl, c.req); }
};
static const idx_t M = 1ll << 36;

// Derived values of a box, for all corners, offsets and point counts.
static void flags_ok(const BoundingBox& b, const idx_t* lo, const idx_t* hi, const idx_t* ro, idx_t npts) {
    idx_t size = 1, al = 1, mul = 1;
    for (int j = 0; j < 3; j++) {
        size *= hi[j] - lo[j];
        yv_assert((b.bb_begin[j] == lo[j]) & (b.bb_end[j] == hi[j]), "corners of the box are kept");
        yv_assert(b.bb_len[j] == hi[j] - lo[j], "length of the box");
        al &= (lo[j] - ro[j]) % F[j] == 0;
        mul &= (hi[j] - lo[j]) % F[j] == 0;
    }
    yv_assert(b.bb_size == size, "size of the box is the product of its lengths");
    yv_assert(b.bb_num_points == npts, "number of points of the box");
    yv_assert(b.bb_is_full == (npts == size), "a box is full when all of its points are valid");
    yv_assert(b.bb_is_aligned == (al != 0), "a box is aligned when it starts on a vector boundary");
    yv_assert(b.bb_is_vec_mult == (mul != 0), "a box is whole vectors when its lengths are multiples of the fold");
    yv_assert(b.bb_valid, "the box is marked valid");
}
extern "C" void h_update_bb() {
    World w; BoundingBox b; idx_t lo[3], hi[3], ro[3];
    int big = yv_pick("big", 3);
    for (int j = 0; j < 3; j++) {
        lo[j] = yv_i64("lo", -M, M);
        hi[j] = lo[j] + (j == big ? yv_i64("len", 0, M) : yv_pick("slen", 4));
        ro[j] = w.sp->rank_domain_offsets[j] = yv_i64("rank_ofs", -M, M);
        b.bb_begin[j] = lo[j]; b.bb_end[j] = hi[j];
    }
    idx_t n = b.bb_num_points = yv_i64("points", 0, 9 * M);
    bool full = yv_pick("force_full", 2);
    b.update_bb("b", w.sp.get(), full, false);
    idx_t size = 1; for (int j = 0; j < 3; j++) size *= hi[j] - lo[j];
    flags_ok(b, lo, hi, ro, full ? size : n);
    yv_cover("update");
}
// Membership and intersection, for all boxes and points.
extern "C" void h_boxes() {
    World w; BoundingBox a, b; Indices q(idx_t(0), 3); idx_t ia = 1, ib = 1;
    for (int j = 0; j < 3; j++) {
        a.bb_begin[j] = yv_i64("a_lo", -M, M); a.bb_end[j] = a.bb_begin[j] + yv_i64("a_len", 0, M);
        b.bb_begin[j] = yv_i64("b_lo", -M, M); b.bb_end[j] = b.bb_begin[j] + yv_i64("b_len", 0, M);
        q[j] = yv_i64("p", -M, M);
        ia &= (q[j] >= a.bb_begin[j]) & (q[j] < a.bb_end[j]); ib &= (q[j] >= b.bb_begin[j]) & (q[j] < b.bb_end[j]);
    }
    yv_assert(a.is_in_bb(q) == (ia != 0), "membership of a box");
    IdxTuple t = w.c.dims->_domain_dims; for (int j = 0; j < 3; j++) t[j] = q[j];
    yv_assert(a.is_in_bb(t) == (ia != 0), "membership of a box (tuple)");
    bool eq = a == b; idx_t same = 1;
    for (int j = 0; j < 3; j++) same &= (a.bb_begin[j] == b.bb_begin[j]) & (a.bb_end[j] == b.bb_end[j]);
    yv_assert(eq == (same != 0), "boxes are equal when their corners are");
    yv_cover("boxes");
}
static idx_t c_prod;
static void c_update(BoundingBox* b, const std::string&, StencilContext*, bool full, bool) { c_prod += full; }
extern "C" void h_intersect() {
    World w; BoundingBox a, b; idx_t ia = 1, ib = 1, in = 1, p[3], lo[3], hi[3];
    void (BoundingBox::*f)(const std::string&, StencilContext*, bool, bool) = &BoundingBox::update_bb;
    void* fp; memcpy(&fp, &f, sizeof fp); yv_contract(fp, (void*)c_update);
    for (int j = 0; j < 3; j++) {
        a.bb_begin[j] = yv_i64("a_lo", -M, M); a.bb_end[j] = a.bb_begin[j] + yv_i64("a_len", 0, M);
        b.bb_begin[j] = yv_i64("b_lo", -M, M); b.bb_end[j] = b.bb_begin[j] + yv_i64("b_len", 0, M);
        p[j] = yv_i64("p", -M, M);
        ia &= (p[j] >= a.bb_begin[j]) & (p[j] < a.bb_end[j]); ib &= (p[j] >= b.bb_begin[j]) & (p[j] < b.bb_end[j]);
    }
    c_prod = 0;
    BoundingBox r = a.intersection_with(b, w.sp.get());
    for (int j = 0; j < 3; j++) { in &= (p[j] >= r.bb_begin[j]) & (p[j] < r.bb_end[j]); yv_assert(r.bb_end[j] >= r.bb_begin[j], "an intersection has no negative length"); }
    yv_assert(in == (ia & ib), "a point is in the intersection when it is in both boxes");
    if (yv_symbolic()) yv_assert(c_prod == 1, "the derived values of the intersection are set, as a full box");
    yv_cover("intersect");
}
// The search for boxes (bounded): any set of valid points, any offset and team.
static void shape() {
    idx_t tot = N[0] * N[1] * N[2]; V.assign(tot, 0);
    int kind = yv_pick("shape", 5);
    if (kind == 0) { // any set of points.
        idx_t m = 0; for (idx_t i = 0; i < tot; i++) { if (i % 24 == 0) m = yv_i64("mask", 0, (1 << 24) - 1); V[i] = (m >> (i % 24)) & 1; }
    } else {
        if (kind == 2) V.assign(tot, 1);
        int nb = 1 + yv_pick("boxes", 3); // boxes added to or taken from the set.
        for (int k = 0; k < nb; k++) {
            idx_t lo[3], hi[3], p[3];
            for (int j = 0; j < 3; j++) { lo[j] = yv_i64("lo", 0, N[j] - 1); hi[j] = lo[j] + yv_i64("len", 0, N[j] - lo[j]); }
            bool set = kind == 1 || (kind >= 3 && k != 1);
            for (p[0] = lo[0]; p[0] < hi[0]; p[0]++) for (p[1] = lo[1]; p[1] < hi[1]; p[1]++) for (p[2] = lo[2]; p[2] < hi[2]; p[2]++) V[(p[0] * N[1] + p[1]) * N[2] + p[2]] = set;
        }
        if (kind == 4) { int d = yv_pick("stripe", 3); idx_t m = yv_i64("every", 2, 3), i = 0, p[3]; // stripes
            for (p[0] = 0; p[0] < N[0]; p[0]++) for (p[1] = 0; p[1] < N[1]; p[1]++) for (p[2] = 0; p[2] < N[2]; p[2]++, i++) if (p[d] % m == 0) V[i] = 0; }
    }
}
static void boxes_ok(StencilPartBase& pt, bool any) {
    std::vector<char> hits(V.size(), 0); idx_t n = 0, lo[3], hi[3], ro[3], p[3]; bool ok = true, once = true, all = true;
    auto& l = pt._bb_list; auto& bb = pt.get_bb();
    for (auto& b : l) {
        idx_t bl[3], bh[3];
        for (int j = 0; j < 3; j++) { bl[j] = b.bb_begin[j]; bh[j] = b.bb_end[j]; ro[j] = 0; ok &= bl[j] < bh[j]; }
        ok &= b.bb_is_full && b.bb_valid;
        for (p[0] = bl[0]; p[0] < bh[0]; p[0]++) for (p[1] = bl[1]; p[1] < bh[1]; p[1]++) for (p[2] = bl[2]; p[2] < bh[2]; p[2]++) {
            if (!inb(p) || !at(V, p)) { ok = false; continue; }
            once &= !at(hits, p)++;
        }
        flags_ok(b, bl, bh, ro, b.bb_size);
    }
    for (int j = 0; j < 3; j++) lo[j] = hi[j] = 0;
    for (p[0] = B[0]; p[0] < B[0] + N[0]; p[0]++) for (p[1] = B[1]; p[1] < B[1] + N[1]; p[1]++) for (p[2] = B[2]; p[2] < B[2] + N[2]; p[2]++) if (at(V, p)) {
        all &= at(hits, p);
        for (int j = 0; j < 3; j++) { lo[j] = n ? std::min(lo[j], p[j]) : p[j]; hi[j] = n ? std::max(hi[j], p[j] + 1) : p[j] + 1; }
        n++;
    }
    yv_assert(ok, "every full box is non-empty and holds valid points only");
    yv_assert(once, "no point is in two boxes");
    yv_assert(all, "every valid point is in a box");
    if (n) flags_ok(bb, lo, hi, ro, n); // the overall box is the smallest one around the valid points.
    else yv_assert(bb.bb_num_points == 0, "a part without valid points has none in its box");
}
extern "C" void h_find() {
    static World* wp; if (!wp) wp = new World; World& w = *wp;
    int nt = yv_pick("threads", 5) + 1;
    yv_tm.tid = 0; yv_tm.n = 1; yv_tm.level = 0; yv_tm.setn = nt; yask_num_threads[0] = nt; yask_num_threads[1] = 0;
    BoundingBox mx;
    for (int j = 0; j < 3; j++) {
        B[j] = yv_i64("begin", -9, 9); N[j] = yv_i64("size", 1, 7);
        w.sp->rank_domain_offsets[j] = 0;
        mx.bb_begin[j] = B[j]; mx.bb_end[j] = B[j] + N[j];
    }
    mx.update_bb("max", w.sp.get(), true, false);
    has = true; shape();
    if (yv_pick("no_condition", 8) == 0) { has = false; V.assign(V.size(), 1); }
    w.sp->part_1.find_bounding_boxes(mx);
    boxes_ok(w.sp->part_1, has);
    w.sp->part_2.copy_bounding_boxes(&w.sp->part_1);
    boxes_ok(w.sp->part_2, has);
    yv_cover("find");
}
