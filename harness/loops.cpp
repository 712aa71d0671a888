// C12: the loop nests generated by gen_loops.pl visit every point of their range exactly once.
#include "yask_stencil.hpp"
#include "tuple.hpp"
#include "yv.h"
using namespace yask;
struct Rec { idx_t P[4], b[4], e[4], s[4], al[4], ao[4], n[4], calls, per, hits, k[3], idx[4], prev[4], first; int mode, align, nd; int ord[3], chk, have, rcalls; idx_t na[4], rd[4], q[4]; idx_t cc; };
static Rec R;
static const idx_t M = 1ll << 40;
// Contract of ceil_idiv_flr (proved for C01); iteration counts of the inner dims are split by value.
static idx_t c_ceil(idx_t a, idx_t b) {
    yv_assert(b > 0, "positive stride");
    int d = R.ord[R.calls % R.nd]; R.calls++;
    if (R.have & (1 << d)) { if (bool((a == R.na[d]) & (b == R.s[d]))) return R.n[d]; } // same arguments as before: same result.
    idx_t h = R.mode == 2 ? 1ll << 20 : M;
    yv_assert((a > -h) & (a < h), "size in range");
    idx_t q = yv_fresh(-h, h); yv_assume((q * b >= a) & ((q - 1) * b < a));
    if (d != R.ord[0] && R.mode < 2) q = yv_concretize(q);
    R.n[d] = q; R.na[d] = a; R.have |= 1 << d;
    return q;
}
// Contract of round_down_flr (proved for C01).
static idx_t c_rdown(idx_t a, idx_t b) {
    yv_assert(b > 0, "positive alignment");
    int d = R.ord[R.rcalls % R.nd]; R.rcalls++;
    if (bool((a == R.b[d] - R.ao[d]) & (b == std::min(R.al[d], R.s[d])))) return R.rd[d];
    idx_t q = yv_fresh(-M, M); yv_assume((q * b <= a) & (q * b + b > a));
    return q * b;
}
// std::min/std::max without a branch.
static idx_t g_slot[64]; static int g_ns;
static const idx_t& c_min(const idx_t& a, const idx_t& b) { idx_t& r = g_slot[g_ns++ & 63]; idx_t x = a, y = b; r = y < x ? y : x; return r; }
static const idx_t& c_max(const idx_t& a, const idx_t& b) { idx_t& r = g_slot[g_ns++ & 63]; idx_t x = a, y = b; r = x < y ? y : x; return r; }
static void h_body(const ScanIndices& r) {
    idx_t in = 1;
    for (int d = 1; d <= 3; d++) {
        yv_assert((r.start[d] >= R.b[d]) & (r.stop[d] <= R.e[d]), "iteration lies inside the range");
        yv_assert(r.start[d] < r.stop[d], "no empty iteration");
        yv_assert(r.stop[d] - r.start[d] <= R.s[d], "no iteration longer than the stride");
        yv_assert(r.index[d] >= 0, "index is not negative");
        yv_assert((r.index[d] == 0) == (r.start[d] == R.b[d]), "index 0 starts at the beginning of the range");
        idx_t a = std::min(R.al[d], R.s[d]);
        if (R.align && R.chk && R.s[d] % a == 0) yv_assert((r.start[d] == R.b[d]) | (((r.start[d] - R.ao[d] + a * (1ll << 42)) % a == 0)), "every iteration but the first starts aligned");
        in &= (R.P[d] >= r.start[d]) & (R.P[d] < r.stop[d]);
        R.idx[d] = r.index[d];
    }
    if (R.mode == 2 && !yv_symbolic()) { // strictly increasing order, as temporal tiling requires.
        if (R.first) { bool inc = false; for (int q = 0; q < R.nd; q++) { int d = R.ord[q]; if (r.start[d] != R.prev[d]) { inc = r.start[d] > R.prev[d]; break; } } yv_assert(inc, "iterations come in increasing order"); }
        for (int d = 1; d <= 3; d++) R.prev[d] = r.start[d]; R.first = 1;
    }
    idx_t a = R.k[0], b = R.k[1], c = R.k[2], i1 = R.mode == 2 ? yv_iter(1101) : yv_iter(1), i2 = yv_iter(1201), i3 = yv_iter(1301);
    if (yv_symbolic() && R.mode < 2) {
        idx_t x1 = R.idx[R.ord[0]], x2 = R.idx[R.ord[1]], x3 = R.idx[R.ord[2]], n2 = R.n[R.ord[1]], n3 = R.n[R.ord[2]], w2 = x2, w3 = x3;
        if (R.mode == 1) { w2 = x1 % 2 ? n2 - 1 - x2 : x2; w3 = x2 % 2 ? n3 - 1 - x3 : x3; }
        yv_assert(i1 == (x1 * n2 + w2) * n3 + w3, "iteration number follows from the three indices");
        yv_assume(i1 == (x1 * n2 + w2) * n3 + w3);
    }
    R.hits += in; R.k[0] = in ? i1 : a; R.k[1] = in ? i2 : b; R.k[2] = in ? i3 : c;
    R.cc++;
}
static int g_nthr = 1, g_thr = 0;
#include "loops_list.inc"
template <typename T> static T* fp(T* p) { return p; }
// mode 0: flattened, 1: flattened serpentine, 2: nested, 3: traversal checked by running only.
static void loop(void (*run)(ScanIndices&), const char* nm, int mode, int align, int cfg, int o1 = 1, int o2 = 2, int o3 = 3, int nd = 3) {
    static const idx_t S[4][3] = {{1, 1, 1}, {4, 2, 3}, {3, 6, 16}, {12, 5, 4}}, A[4][3] = {{1, 1, 1}, {2, 1, 3}, {1, 4, 16}, {4, 7, 8}}, T[4][3] = {{1, 2, 3}, {8, 5, 3}, {3, 13, 40}, {30, 10, 1}};
    int c = cfg < 0 ? yv_pick("strides", 4) : cfg;
    R.mode = mode; R.chk = 1; R.align = align; R.nd = nd; R.ord[0] = o1; R.ord[1] = o2; R.ord[2] = o3; R.calls = 0;
    ScanIndices si(false);
    for (int d = 1; d <= 3; d++) {
        R.s[d] = S[c][d - 1]; R.al[d] = A[c][d - 1];
        si.stride[d] = R.s[d]; si.align[d] = R.al[d]; si.tile_size[d] = T[c][d - 1];
        R.ao[d] = si.align_ofs[d] = align ? yv_i64("align_ofs", -100, 100) : 0;
        R.b[d] = si.begin[d] = yv_i64("begin", -M / 8, M / 8);
        idx_t len = yv_i64("size", 1, yv_symbolic() && (d == o1 || mode == 2) ? (mode == 2 ? 1ll << 18 : M / 8) : R.s[d] * 3);
        R.e[d] = si.end[d] = R.b[d] + len;
        R.P[d] = yv_i64("P", -M / 4, M / 4);
        if (!yv_symbolic()) R.P[d] = R.b[d] - 1 + (idx_t)((uint64_t)R.P[d] % (uint64_t)(len + 2));
    }
    idx_t in = 1; for (int d = 1; d <= 3; d++) in &= (R.P[d] >= R.b[d]) & (R.P[d] < R.e[d]);
    auto go = [&] { R.hits = 0; R.calls = R.rcalls = 0; R.first = 0; R.cc = 0; R.k[0] = R.k[1] = R.k[2] = -1; ScanIndices t(si); run(t); };
    if (!yv_symbolic()) {
        idx_t tot = 0;
        if (mode == 4) { g_nthr = 1 + yv_pick("threads", 4); for (g_thr = 0; g_thr < g_nthr; g_thr++) { go(); tot += R.hits; } } else { go(); tot = R.hits; }
        yv_assert(tot == in, "every point of the range is visited exactly once");
        return;
    }
    R.have = 0;
    for (int d = 1; d <= 3; d++) { // round_down_flr of the beginning, and the stride holding P.
        idx_t a = std::min(R.al[d], R.s[d]), k = yv_fresh(-M, M), x = R.b[d] - R.ao[d];
        yv_assume((k * a <= x) & (k * a + a > x)); R.rd[d] = k * a;
        idx_t ab = align ? k * a + R.ao[d] : R.b[d];
        R.q[d] = yv_fresh(-M, M); yv_assume((ab + R.q[d] * R.s[d] <= R.P[d]) & (R.P[d] < ab + (R.q[d] + 1) * R.s[d]));
    }
    yv_ghost(&R); yv_ghost(g_slot); yv_ghost(&g_ns);
    idx_t (*cf)(idx_t, idx_t) = ceil_idiv_flr<idx_t>;
    yv_contract((void*)cf, (void*)c_ceil);
    idx_t (*rf)(idx_t, idx_t) = round_down_flr<idx_t>;
    yv_contract((void*)rf, (void*)c_rdown);
    const idx_t& (*mnf)(const idx_t&, const idx_t&) = std::min<idx_t>;
    const idx_t& (*mxf)(const idx_t&, const idx_t&) = std::max<idx_t>;
    yv_contract((void*)mnf, (void*)c_min); yv_contract((void*)mxf, (void*)c_max);
    // The iteration holding P, as a function of P alone: at most one iteration can visit it.
    auto expect = [&](idx_t* w) {
        idx_t* q = R.q;
        for (int d = 1; d <= 3; d++) w[3 + d] = q[d];
        idx_t n2 = R.n[o2], n3 = R.n[o3], w1 = q[o1], w2 = q[o2], w3 = q[o3];
        if (mode == 1) { w2 = q[o1] % 2 == 1 ? n2 - 1 - q[o2] : q[o2]; w3 = q[o2] % 2 == 1 ? n3 - 1 - q[o3] : q[o3]; }
        w[0] = mode == 2 ? w1 : (w1 * n2 + w2) * n3 + w3; w[1] = w2; w[2] = w3;
    };
    idx_t w[7];
    yv_loop(nm, 1, 1);
    go();
    yv_assert(R.hits <= in, "only points of the range are visited, once per iteration");
    yv_assume(R.hits <= in);
    if (R.hits) {
        expect(w);
        for (int d = 1; d <= 3; d++) { yv_assert(R.idx[d] == w[3 + d], "iteration holding the point has the expected index"); yv_assume(R.idx[d] == w[3 + d]); }
        yv_assert(R.k[0] == w[0], "point is visited in one iteration only");
        if (mode == 2) yv_assert((R.k[1] == w[1]) & (R.k[2] == w[2]), "point is visited in one inner iteration only");
        yv_cover("hit");
    }
    if (!in) { yv_cover("outside"); return; }
    R.chk = 0;
    if (mode < 2) { R.q[o2] = yv_concretize(R.q[o2]); R.q[o3] = yv_concretize(R.q[o3]); }
    expect(w);
    yv_loop(nm, 2, 1);
    yv_witness(1, w[0]);
    if (mode == 2) { yv_witness(101, w[1]); yv_witness(201, w[2]); }
    go();
    yv_assert(R.hits >= 1, "every point of the range is visited");
    yv_cover("inside");
}
#include "loops_ents.inc"
