// C10: a block is computed as full and masked vectors that together hold every point of the block once.
#include "kctx.hpp"
#define DEFINE_SOLUTION
#include "yask_stencil_code.hpp"
#include <map>
#include <tuple>
#include <mutex>
#include "omp_team.h"

struct G { idx_t vec[3], lane, hits, calls, sb[3], se[3]; int bad; };
static G g;
// The part under contract: counts how often the ghost point is computed.
struct GPart {
    const char* _name = "g"; const int _scalar_fp_ops = 1, _scalar_points_read = 1, _scalar_points_written = 1; const bool _is_scratch = false;
    static bool is_in_valid_domain(const h_core_t*, const Indices&) { return true; }
    static bool is_sub_domain_expr() { return false; }
    std::string get_domain_description() const { return ""; }
    static bool is_in_valid_step(const h_core_t*, idx_t) { return true; }
    static bool is_step_cond_expr() { return false; }
    std::string get_step_cond_description() const { return ""; }
    static bool get_output_step_index(idx_t t, idx_t& o) { o = t + 1; return true; }
    static void calc_scalar(h_core_t*, int, const Indices&) {}
    static void calc_vectors(h_core_t*, int, int, int, ScanIndices& n, bit_mask_t mask) {
        g.calls++;
        idx_t in = 1;
        for (int j = 0; j < 3; j++) in &= (g.vec[j] >= n.begin[1 + j]) & (g.vec[j] < n.end[1 + j]);
        g.hits += in & (idx_t)((mask >> g.lane) & 1);
    }
};
static const idx_t M = 1ll << 36;
struct World {
    Ctx c; std::shared_ptr<h_context_t> sp; StencilPartTmpl<GPart, h_core_t>* part;
    World() : c(h_context_t::new_dims()) {
        sp = std::make_shared<h_context_t>(c.env, c.actl, c.req);
        part = new StencilPartTmpl<GPart, h_core_t>(sp.get());
    }
};
static const int F[3] = {VLEN_X, VLEN_Y, VLEN_Z};
// A block with any beginning, any size >= 1 and any rank offset (a multiple of the fold).
static ScanIndices block(World& w, idx_t big, idx_t* b, idx_t* e, idx_t* p) {
    ScanIndices s(true);
    s.start[0] = s.begin[0] = 3; s.stop[0] = s.end[0] = 4;
    for (int j = 0; j < 3; j++) {
        idx_t ro = yv_i64("rank_ofs", -big, big) * F[j];
        w.sp->rank_domain_offsets[j] = ro;
        b[j] = yv_i64("begin", -big, big); idx_t n = yv_i64("size", 1, big); e[j] = b[j] + n;
        s.start[1 + j] = s.begin[1 + j] = b[j]; s.stop[1 + j] = s.end[1 + j] = e[j];
        p[j] = yv_i64("P", -2 * big, 3 * big);
        for (auto* t : {&w.c.actl->_pico_block_sizes, &w.c.actl->_nano_block_tile_sizes}) (*t)[1 + j] = F[j];
    }
    return s;
}
static void cover(World& w, int lane) {
    idx_t b[3], e[3], p[3], off[3], in = 1;
    ScanIndices s = block(w, M, b, e, p);
    g.hits = g.calls = 0; g.lane = 0;
    for (int j = 0; j < 3; j++) {
        idx_t r = p[j] - w.sp->rank_domain_offsets[j], q = yv_symbolic() ? yv_fresh(-8 * M, 8 * M) : idiv_flr(r, idx_t(F[j]));
        off[j] = lane % F[j]; lane /= F[j];
        yv_assume(r == q * F[j] + off[j]); g.vec[j] = q;
        in &= (p[j] >= b[j]) & (p[j] < e[j]);
    }
    g.lane = off[0] + F[0] * (off[1] + F[1] * off[2]);
    w.part->calc_nano_block_opt(0, 0, *w.c.actl, s);
    yv_assert(g.hits <= in, "no point outside the block is computed, and none twice");
    yv_assert(g.hits >= in, "every point of the block is computed");
    yv_cover("cover");
}
#define H(l) extern "C" void h_cover_##l() { World w; cover(w, l); }
H(0) H(1) H(2) H(3) H(4) H(5) H(6) H(7)

// The scalar path: the scan handed to the point loops (C12) is exactly the block, point by point.
struct D { idx_t b[3], e[3], calls; ScanIndices* s; };
static D d;
static void c_dbg2(h_core_t*, int, const ScanIndices& m) {
    d.calls++;
    for (int j = 0; j < 3; j++) yv_assert((m.begin[1 + j] == d.b[j]) & (m.end[1 + j] == d.e[j]) & (m.stride[1 + j] == 1) & (m.align[1 + j] == 1), "scalar scan covers the block point by point");
    yv_assert((m.start[0] == 3) & (m.begin[0] == 3), "scalar scan is at the step of the block");
}
extern "C" void h_scalar_scan() {
    World w; idx_t p[3];
    ScanIndices s = block(w, M, d.b, d.e, p);
    d.calls = 0;
    void (*f)(h_core_t*, int, const ScanIndices&) = &StencilPartTmpl<GPart, h_core_t>::calc_nano_block_dbg2;
    yv_contract((void*)f, (void*)c_dbg2);
    w.c.actl->force_scalar = true;
    w.part->calc_nano_block(0, 0, *w.c.actl, s);
    if (yv_symbolic()) yv_assert(d.calls == 1, "scalar scan runs once");
    yv_cover("scan");
}
// Running the part with its real nano- and pico-block loops: every point of the block once (bounded).
static std::map<std::tuple<idx_t, idx_t, idx_t>, int> cnt; static int g_bad;
static idx_t g_t;
namespace yask {
bool h_valid_domain(int, const Indices&) { return true; }
bool h_has_domain(int) { return false; }
bool h_valid_step(int, idx_t) { return true; }
bool h_has_step(int) { return false; }
void h_scalar(int, h_core_t*, int, const Indices& i) { cnt[{i[1], i[2], i[3]}]++; g_t = i[0]; }
void h_vector(int, h_core_t*, int, idx_t t, idx_t x, idx_t y, idx_t z, bit_mask_t m) {
    g_t = t;
    for (int l = 0; l < VLEN; l++) if ((m >> l) & 1) cnt[{x * F[0] + l % F[0], y * F[1] + l / F[0] % F[1], z * F[2] + l / F[0] / F[1]}]++;
}
}
extern "C" void h_cover_run() {
    static World* wp; if (!wp) wp = new World; World& w = *wp;
    idx_t b[3], e[3], p[3];
    ScanIndices s = block(w, 7, b, e, p);
    for (int j = 0; j < 3; j++) {
        w.c.actl->_pico_block_sizes[1 + j] = yv_i64("pico", 1, 9); w.c.actl->_nano_block_tile_sizes[1 + j] = yv_i64("tile", 1, 9) * F[j];
    }
    w.c.actl->force_scalar = yv_pick("scalar", 4) == 0;
    cnt.clear();
    w.sp->part_1.calc_nano_block(0, 0, *w.c.actl, s);
    size_t n = 1; bool ok = true;
    for (int j = 0; j < 3; j++) n *= e[j] - b[j];
    for (auto& q : cnt) {
        idx_t c[3] = {std::get<0>(q.first), std::get<1>(q.first), std::get<2>(q.first)};
        for (int j = 0; j < 3; j++) { if (!w.c.actl->force_scalar) c[j] += w.sp->rank_domain_offsets[j]; ok &= c[j] >= b[j] && c[j] < e[j]; }
        ok &= q.second == 1;
    }
    yv_assert(g_t == 3, "points are computed at the step of the block");
    yv_assert(ok, "points are computed once, and lie inside the block");
    yv_assert(cnt.size() == n, "every point of the block is computed");
    yv_cover("run");
}
