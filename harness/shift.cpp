// C13: the shapes a temporal tiling cuts the domain into partition it at every shift, and depend only on shapes done before.
#include "kctx.hpp"
#define DEFINE_SOLUTION
#include "yask_stencil_code.hpp"
#include "khooks.hpp"
#include "omp_team.h"
static const idx_t M = 1ll << 30, W = 1ll << 20;
struct World {
    Ctx c; std::shared_ptr<h_context_t> sp;
    World() : c(h_context_t::new_dims()) {
        sp = std::make_shared<h_context_t>(c.env, c.actl, c.req);
        for (auto* t : {&sp->wf_angles, &sp->tb_angles, &sp->mb_angles, &sp->tb_widths, &sp->tb_tops, &sp->wf_shift_pts, &sp->left_wf_exts, &sp->right_wf_exts}) { *t = sp->get_dims()->_domain_dims; t->set_vals_same(0); }
    }
};
static const idx_t ANG[4] = {0, 1, 3, 8};
struct Rng { idx_t b, e; bool ok; idx_t has(idx_t p) const { return (idx_t)ok & (p >= b) & (p < e); } };

// 1. Mega-blocks. d: dimension under proof; the other dimensions are concrete and non-empty.
struct MB { World& w; int d; idx_t s; StagePtr st; MpiSection sec;
    MB(World& w, int d) : w(w), d(d), sec(w.sp.get()) {}
    Rng get(idx_t b, idx_t e, bool trim, idx_t* two = 0) {
        ScanIndices s0(true), r(true);
        for (int j = 0; j < 3; j++) { s0.start[1 + j] = 0; s0.stop[1 + j] = 10; }
        s0.start[1 + d] = b; s0.stop[1 + d] = e;
        if (two) { s0.start[1 + (int)two[2]] = two[0]; s0.stop[1 + (int)two[2]] = two[1]; }
        StagePtr none, &bp = trim ? st : none;
        bool ok = w.sp->shift_mega_block(s0.start, s0.stop, s, bp, r, sec);
        if (ok && !two) for (int j = 0; j < 3; j++) if (j != d) yv_assert((r.begin[1 + j] == (trim ? 2 : 0)) & (r.end[1 + j] == (trim ? 8 : 10)), "other dims: trimmed to the stage only");
        if (two && ok) { two[0] = r.begin[1 + (int)two[2]]; two[1] = r.end[1 + (int)two[2]]; }
        return {r.begin[1 + d], r.end[1 + d], ok};
    }
};
static void mega(int d) {
    World w; MB m(w, d); m.st = w.sp->st_stages[0];
    idx_t a = ANG[yv_pick("angle", 4)], b0 = yv_i64("first", -M, M), n = yv_i64("size", 1, W), n2 = yv_i64("next_size", 1, W), b1 = b0 + n, b2 = b1 + n2;
    m.s = yv_i64("shifts", 0, 1000); w.sp->wf_angles[d] = a;
    auto &bb = m.st->get_bb(), &rb = w.sp->rank_bb;
    for (int j = 0; j < 3; j++) { bb.bb_begin[j] = rb.bb_begin[j] = 2; bb.bb_end[j] = rb.bb_end[j] = 8; }
    // Rank domain, extensions into the neighbours, and the stage's box inside the extended domain.
    idx_t d0 = yv_i64("rank_begin", -M, M), dn = yv_i64("rank_size", 1, W), d1 = d0 + dn;
    bool le = yv_pick("left_ext", 2), re = yv_pick("right_ext", 2);
    idx_t total = yv_i64("total_shifts", 0, 1000), ext = a * total; yv_assume(total >= m.s);
    w.sp->left_wf_exts[d] = le ? ext : 0; w.sp->right_wf_exts[d] = re ? ext : 0; w.sp->wf_shift_pts[d] = ext;
    idx_t s0 = yv_i64("stage_begin", -2 * M, 2 * M), s1 = yv_i64("stage_end", -2 * M, 2 * M);
    yv_assume((s0 >= d0 - (le ? ext : 0)) & (s1 <= d1 + (re ? ext : 0)) & (s0 <= s1));
    rb.bb_begin[d] = d0; rb.bb_end[d] = d1; bb.bb_begin[d] = s0; bb.bb_end[d] = s1;
    idx_t P = yv_i64("P", -3 * M, 3 * M);
    Rng u1 = m.get(b0, b1, false), u2 = m.get(b1, b2, false);
    yv_assert((idx_t)u1.ok & u2.ok & (u1.b == b0 - a * m.s) & (u1.e == u2.b) & (u2.e == b2 - a * m.s), "without a stage: mega-blocks are shifted left by the angle, and stay adjacent");
    Rng t1 = m.get(b0, b1, true), t2 = m.get(b1, b2, true);
    idx_t shrink = a * m.s;
    // What remains of the extended stage box at this shift: in an extension, each shift loses one angle.
    idx_t want = (P >= s0) & (P < s1) & (le ? P >= d0 - ext + shrink : P >= d0) & (re ? P < d1 + ext - shrink : P < d1);
    yv_assert(t1.has(P) + t2.has(P) == (want & (P >= b0 - shrink) & (P < b2 - shrink)), "with a stage: each point still needed at this shift lies in exactly one mega-block");
    // Whatever the next shift reads is computed at this shift by this or an earlier mega-block, or needed by none.
    m.s++; yv_assume(m.s <= total);
    Rng v = m.get(b0, b1, true); idx_t Q = yv_i64("Q", -3 * M, 3 * M);
    yv_assert((v.has(P) & (Q >= P - a) & (Q <= P + a) & want) <= (P < s0 || P >= s1 ? 1 : (Q < b1 - shrink)), "reads of the next shift do not reach a later mega-block");
    idx_t wantQ = (Q >= s0) & (Q < s1) & (le ? Q >= d0 - ext + shrink : Q >= d0) & (re ? Q < d1 + ext - shrink : Q < d1);
    yv_assert((v.has(P) & (Q >= P - a) & (Q <= P + a) & (Q >= s0) & (Q < s1)) <= wantQ, "reads of the next shift lie inside what is computed at this shift");
    yv_cover("mega");
}
extern "C" void h_mega_x() { mega(0); }
extern "C" void h_mega_y() { mega(1); }
extern "C" void h_mega_z() { mega(2); }

// 2. Overlapped communication: the exterior sections and the interior partition what the whole section covers.
static void sections(int d, int d2, bool deps = false) {
    World w; MB m(w, d); m.st = w.sp->st_stages[0]; m.s = 0;
    auto& bb = m.st->get_bb();
    bool wf = deps || yv_pick("wave_front", 2); w.sp->wf_steps = wf ? 2 : 0;
    for (int j = 0; j < 3; j++) {
        for (auto* q : {&bb, &w.sp->rank_bb, &w.sp->ext_bb, &w.sp->mpi_interior}) { q->bb_begin[j] = 0; q->bb_end[j] = 10; q->bb_valid = true; }
    }
    idx_t P[2], b[2], e[2]; int D[2] = {d, d2};
    idx_t a = wf ? 3 : 0; m.s = wf ? yv_i64("shifts", 0, deps ? 6 : 7) : 0;
    for (int k = 0; k < 2; k++) {
        int j = D[k];
        idx_t n = yv_i64("size", 1, W), l = yv_i64("int_begin", 0, W), r = yv_i64("int_end", -W, W);
        yv_assume((l <= n) & (r <= n) & (r >= 0));
        bool el = yv_pick("left_neighbor", 2), er = yv_pick("right_neighbor", 2);
        if (!el) l = 0; else yv_assume(l > 0);
        if (!er) r = n; else yv_assume(r < n);
        for (auto* q : {&bb, &w.sp->rank_bb, &w.sp->ext_bb, &w.sp->mpi_interior}) q->bb_end[j] = n;
        w.sp->mpi_interior.bb_begin[j] = l; w.sp->mpi_interior.bb_end[j] = r;
        w.sp->wf_angles[j] = a; w.sp->wf_shift_pts[j] = a * 7;
        b[k] = yv_i64("begin", -W, W); e[k] = b[k] + yv_i64("len", 1, W);
        if (deps) { b[k] = -4 * W; e[k] = 4 * W; }
        P[k] = yv_i64("P", -2 * W, 3 * W);
    }
    auto in = [&]() -> idx_t { idx_t two[3] = {b[1], e[1], d2}; Rng r = m.get(b[0], e[0], true, two); return r.has(P[0]) & (P[1] >= two[0]) & (P[1] < two[1]); };
    // How many sections hold a point, in the order run_solution() does them; the last of them.
    auto count = [&](idx_t p0, idx_t p1, idx_t& which) -> idx_t {
        idx_t n = 0, k = 0; which = -1;
        auto one = [&]() {
            idx_t two[3] = {b[1], e[1], d2}; Rng r = m.get(b[0], e[0], true, two);
            idx_t h = r.has(p0) & (p1 >= two[0]) & (p1 < two[1]);
            n += h; which = h ? k : which; k++;
        };
        m.sec.do_mpi_interior = false;
        for (int j = 0; j < 3; j++) for (int left = 1; left >= 0; left--) {
            if (!w.sp->does_exterior_exist(j, left)) continue;
            m.sec.do_mpi_left = left; m.sec.do_mpi_right = !left; m.sec.mpi_exterior_dim = j;
            one();
        }
        m.sec.do_mpi_left = m.sec.do_mpi_right = false; m.sec.do_mpi_interior = true;
        one();
        m.sec.init();
        return n;
    };
    idx_t wh, w2;
    if (deps) { // what a section reads was computed at the shift before in the same section or an earlier one.
        idx_t Q[2]; for (int k = 0; k < 2; k++) { Q[k] = yv_i64("Q", -3 * W, 4 * W); yv_assume((Q[k] >= P[k] - a) & (Q[k] <= P[k] + a) & (Q[k] >= 0) & (Q[k] < w.sp->ext_bb.bb_end[D[k]])); }
        m.s++; count(P[0], P[1], wh); yv_assume(wh >= 0); m.s--;
        count(Q[0], Q[1], w2);
        yv_assert((w2 >= 0) & (w2 <= wh), "a section reads itself and earlier sections only");
        yv_cover("secdeps"); return;
    }
    idx_t all = in(), n = count(P[0], P[1], wh);
    yv_assert(n == all, "each point is in exactly one exterior section or in the interior");
    yv_cover("sections");
}
extern "C" void h_sections_xy() { sections(0, 1); }
extern "C" void h_sections_yz() { sections(1, 2); }
extern "C" void h_sections_xz() { sections(0, 2); }
extern "C" void h_secdeps_xy() { sections(0, 1, true); }
extern "C" void h_secdeps_yz() { sections(1, 2, true); }

// 3. Blocks: shapes of one dimension.
struct BL {
    World& w; int d; idx_t M0, M1, S, a, width; int nph;
    // The shape of block [b, e) in dim d at shift s, bridged or not, inside the mega-block's range [i0, i1) at that shift.
    Rng get(idx_t b, idx_t e, idx_t s, bool bridge, idx_t i0, idx_t i1, idx_t mb0, idx_t mb1, idx_t ab0, idx_t ab1) {
        ScanIndices z(true); Indices bs(z.begin), be(z.begin), ms(z.begin), me(z.begin), a0(z.begin), a1(z.begin), g0(z.begin), g1(z.begin);
        for (int j = 0; j < 3; j++) { z.begin[1 + j] = 0; z.end[1 + j] = 10; for (auto* q : {&bs, &ms, &a0, &g0}) (*q)[1 + j] = 0; for (auto* q : {&be, &me, &a1, &g1}) (*q)[1 + j] = 10; }
        int i = 1 + d; z.begin[i] = i0; z.end[i] = i1; bs[i] = b; be[i] = e; ms[i] = mb0; me[i] = mb1; a0[i] = ab0; a1[i] = ab1; g0[i] = M0; g1[i] = M1;
        bit_mask_t mask = bridge ? 1ull << d : 0;
        bool ok = w.sp->shift_micro_block(ms, me, a0, a1, bs, be, g0, g1, s, nph, bridge ? 1 : 0, bridge ? 3 : 1, bridge ? d : 0, mask, z);
        for (int j = 0; j < 3; j++) if (j != d && ok) yv_assert((z.begin[1 + j] == 0) & (z.end[1 + j] == 10), "other dims: one block covers all");
        return {z.begin[i], z.end[i], ok};
    }
    Rng blk(idx_t b, idx_t e, idx_t s, bool bridge, idx_t i0, idx_t i1) { return get(b, e, s, bridge, i0, i1, b, 2 * e - b, b, 2 * e - b); }
};
// Temporal-block parameters as update_tb_info() sets them (proved by h_tbinfo below).
static idx_t params(World& w, BL& L, int which) {
    L.a = which == 4 ? 0 : ANG[yv_pick("tb_angle", 4)]; w.sp->tb_angles[L.d] = L.a; L.nph = which == 4 ? 1 : 4;
    L.S = yv_i64("num_shifts", 0, 1000); w.sp->num_tb_shifts = L.S;
    L.width = yv_i64("tb_width", 1, W); w.sp->tb_widths[L.d] = L.width;
    idx_t B = yv_i64("block", 1, W);
    if (L.a) yv_assume((B >= 2 * L.a * L.S + 1) & (L.width >= 2 * L.a * L.S + 1)); else yv_assume(L.width == B);
    return B;
}
static void blocks(int d, int which) {
    World w; BL L{w, d};
    idx_t B = params(w, L, which), s = yv_i64("shift", 0, 1000); yv_assume(s <= L.S);
    L.M0 = yv_i64("mega_begin", -M, M); idx_t n = yv_i64("mega_size", 1, W); L.M1 = L.M0 + n;
    idx_t b = yv_i64("block_begin", -M, 2 * M), e = yv_i64("block_end", -M, 2 * M);
    yv_assume((b >= L.M0) & (e <= L.M1) & (b < e) & (e - b <= B));
    idx_t i0 = yv_i64("range_begin", -M, 2 * M), i1 = yv_i64("range_end", -M, 2 * M), P = yv_i64("P", -M, 2 * M);
    idx_t first = b <= L.M0, last = e >= L.M1;
    yv_assume(i0 < i1);
    Rng X = L.blk(b, e, s, false, i0, i1); idx_t h = X.has(P);
    if (L.nph > 1) { Rng Y = L.blk(b, e, s, true, i0, i1); h += Y.has(P); }
    idx_t lo = first ? i0 : b + L.a * s, hi = last ? i1 : e + L.a * s;
    yv_assert(h == ((P >= i0) & (P < i1) & (P >= lo) & (P < hi)), "a block's base and bridge hold exactly the points between its left end and the next block's, once");
    yv_cover("blocks");
}
extern "C" void h_blocks_x() { blocks(0, 0); }
extern "C" void h_blocks_y() { blocks(1, 0); }
extern "C" void h_blocks_z() { blocks(2, 0); }
extern "C" void h_blocks_notb() { blocks(1, 4); }

// 4. Blocks: what a shape reads was computed at the shift before in an earlier phase, or in the same shape of the same block.
static void deps(int d, bool bridge) {
    World w; BL L{w, d};
    idx_t B = params(w, L, 0), s = yv_i64("shift", 0, 1000); yv_assume(s + 1 <= L.S);
    L.M0 = yv_i64("mega_begin", -M, M); idx_t n = yv_i64("mega_size", 1, W); L.M1 = L.M0 + n;
    // Block [b, e) and the next one [e, f); all but the first (start aligned down by less than a fold) and last have the full size.
    idx_t b = yv_i64("block_begin", -M, 2 * M), e = yv_i64("block_end", -M, 2 * M), f = yv_i64("next_end", -M, 2 * M);
    bool first = yv_pick("first", 2), next_last = yv_pick("next_last", 2), last = yv_pick("last", 2);
    yv_assume((b >= L.M0) & (e <= L.M1) & (b < e));
    yv_assume(first ? b == L.M0 : b > L.M0);
    if (last) yv_assume(e == L.M1); else yv_assume((e < L.M1) & (f > e) & (f <= L.M1) & (next_last ? f == L.M1 : (f < L.M1) & (f - e == B)) & (f - e <= B));
    // The mega-block's range at shifts s and s+1: trimmed by the domain's ends, and moved left by a wave front, if any.
    idx_t wf = yv_pick("wave_front", 2) ? L.a : 0, ms = yv_i64("mega_shift", 0, 1000), D0 = yv_i64("domain_begin", -M, M), D1 = yv_i64("domain_end", -M, 2 * M);
    auto mx = [](idx_t x, idx_t y) { return x > y ? x : y; }; auto mn = [](idx_t x, idx_t y) { return x < y ? x : y; };
    idx_t i0 = mx(D0, L.M0 - wf * s), i1 = mn(D1, L.M1 - wf * s), j0 = mx(D0, L.M0 - wf * (s + 1)), j1 = mn(D1, L.M1 - wf * (s + 1));
    yv_assume((i0 < i1) & (j0 < j1));
    if (!wf) { // one mega-block covers the domain; its last block is wide enough, or gone after one shift (update_tb_info).
        yv_assume((L.M0 == D0) & (L.M1 == D1));
        if (!last && next_last) yv_assume((f - e >= 2 * L.a * L.S) | (L.S <= 1) | (f - e <= L.a));
    }
    idx_t P = yv_i64("P", -M, 2 * M), Q = yv_i64("Q", -M, 2 * M);
    Rng now = L.blk(b, e, s + 1, bridge, j0, j1);
    yv_assume(now.has(P) & (Q >= P - L.a) & (Q <= P + L.a) & (Q >= i0) & (Q < i1));
    Rng X = L.blk(b, e, s, false, i0, i1); idx_t h = X.has(Q);
    if (bridge) {
        Rng Y = L.blk(b, e, s, true, i0, i1); h += Y.has(Q);
        if (!last) { Rng Z = L.blk(e, f, s, false, i0, i1); h += Z.has(Q); }
    }
    yv_assert(h >= 1, bridge ? "a bridge reads only itself and the two bases beside it" : "a base reads only itself");
    yv_cover("deps");
}
#define DE(n, d) extern "C" void h_deps_base_##n() { deps(d, false); } extern "C" void h_deps_bridge_##n() { deps(d, true); }
DE(x, 0) DE(y, 1) DE(z, 2)

// 5. Micro-blocks of a shape: they partition it, and reads of the next shift stay in this or earlier micro-blocks.
static void micro(int d, bool bridge) {
    World w; BL L{w, d};
    params(w, L, 0); idx_t s = yv_i64("shift", 0, 1000); yv_assume(s <= L.S);
    idx_t ma = L.a; w.sp->mb_angles[d] = ma;
    L.M0 = yv_i64("mega_begin", -M, M); L.M1 = L.M0 + yv_i64("mega_size", 1, W);
    idx_t b = yv_i64("block_begin", -M, 2 * M), e = yv_i64("block_end", -M, 2 * M);
    yv_assume((b >= L.M0) & (e <= L.M1) & (b < e));
    idx_t A1 = e + (e - b), m0 = yv_i64("micro_begin", -M, 3 * M), m1 = yv_i64("micro_end", -M, 3 * M);
    yv_assume((m0 >= b) & (m1 <= A1) & (m0 < m1));
    idx_t i0 = yv_i64("range_begin", -M, 2 * M), i1 = yv_i64("range_end", -M, 2 * M), P = yv_i64("P", -M, 2 * M);
    yv_assume(i0 < i1);
    Rng whole = L.get(b, e, s, bridge, i0, i1, b, A1, b, A1), part = L.get(b, e, s, bridge, i0, i1, m0, m1, b, A1);
    idx_t first = m0 <= b, last = m1 >= A1, one = first & last;
    idx_t lo = m0 - (one ? 0 : ma * s), hi = m1 - (one ? 0 : ma * s);
    yv_assert(part.has(P) == (whole.has(P) & (first | (P >= lo)) & (last | (P < hi))), "micro-blocks cut a shape at boundaries moving left by the angle");
    yv_cover("micro");
}
extern "C" void h_micro_x() { micro(0, false); }
extern "C" void h_micro_y() { micro(1, true); }
extern "C" void h_micro_z() { micro(2, true); }

// 6. update_tb_info(): the parameters the above rely on.
extern "C" void h_tbinfo() {
    World w; int d = yv_pick("dim", 3), h = yv_pick("halo", 4); bool up = yv_pick("round_up", 2);
    auto& o = *w.c.actl; const idx_t F[3] = {VLEN_X, VLEN_Y, VLEN_Z};
    idx_t req = yv_i64("steps", 0, 1000), wf = yv_i64("wf_steps", 0, 1000); yv_assume(wf >= req);
    static const idx_t BS[5] = {4, 12, 32, 48, 100};
    bool fixed = yv_pick("fixed_block", 2);
    idx_t B = fixed ? BS[yv_pick("block", 5)] : F[d] * yv_i64("block_vecs", 1, W), mega = yv_i64("mega", 1, W), micro = yv_i64("micro", 1, W), rank = yv_i64("rank", 1, W);
    yv_assume((micro <= B) & (B <= mega) & (mega <= rank));
    w.sp->wf_steps = wf; w.sp->max_halos = w.sp->get_dims()->_domain_dims; w.sp->max_halos.set_vals_same(0); w.sp->max_halos[d] = ANG[h];
    for (auto* t : {&o._rank_sizes, &o._mega_block_sizes, &o._block_sizes, &o._micro_block_sizes}) { for (int j = 0; j < 3; j++) (*t)[1 + j] = 16; }
    o._rank_sizes[1 + d] = rank; o._mega_block_sizes[1 + d] = mega; o._block_sizes[1 + d] = B; o._micro_block_sizes[1 + d] = micro;
    o._block_sizes[0] = req; o._round_up_tb_angles = up;
    idx_t wfa = mega < rank ? ROUND_UP(ANG[h], F[d]) : 0; w.sp->wf_angles[d] = wfa;
    if (!fixed) yv_assume(mega < rank);
    idx_t np = w.sp->st_stages.size();
    w.sp->update_tb_info();
    idx_t T = w.sp->tb_steps, S = w.sp->num_tb_shifts, a = w.sp->tb_angles[d], q = w.sp->tb_widths[d];
    yv_assert((T >= 0) & (T <= req), "no more temporal-block steps than requested");
    yv_assert(S == (T ? np * T - 1 : 0), "one shift per stage and step, but the first");
    yv_assert((T == 0) | (B >= mega) | (a >= ANG[h]), "blocks shrink by at least the halo");
    yv_assert((a == 0) | (wfa == 0) | (wfa >= a), "a wave front moves at least as fast as the blocks shrink");
    yv_assert((T == 0) | (w.sp->mb_angles[d] >= ANG[h]) | (micro >= B), "micro-blocks move by at least the halo unless one covers the block");
    if (a) yv_assert((T == 0) | ((B >= 2 * a * S + F[d]) & (q >= 2 * a * S + F[d]) & (q <= B + F[d])), "a block holds its trapezoid down to one vector");
    else yv_assert(q == B, "no shrinking: the base is the block");
    if (fixed && a && wfa == 0) { idx_t r = imod_flr(rank, B); yv_assert((T == 0) | (S <= 1) | (r == 0) | (r <= a) | (r >= 2 * a * S), "a narrow last block limits the steps"); }
    yv_cover("tbinfo");
}
