// C14: the block sizes used nest, are whole vectors, and follow the sizes asked for.
// The real KernelSettings::adjust_settings(), one dimension with any sizes at a time.
#include "kctx.hpp"
#define DEFINE_SOLUTION
#include "yask_stencil_code.hpp"
#include <algorithm>
namespace yask {
bool h_valid_domain(int, const Indices&) { return true; }
bool h_has_domain(int) { return false; }
bool h_valid_step(int, idx_t) { return true; }
bool h_has_step(int) { return false; }
void h_scalar(int, h_core_t*, int, const Indices&) {}
void h_vector(int, h_core_t*, int, idx_t, idx_t, idx_t, idx_t, bit_mask_t) {}
}
static const idx_t M = 1ll << 40;
static const int F[3] = {VLEN_X, VLEN_Y, VLEN_Z};
enum { RANK, MEGA, BLOCK, MICRO, NANO, PICO, NL };
static const char* LN[NL] = {"rank", "mega", "block", "micro", "nano", "pico"};
static IdxTuple& level(KernelSettings& s, int l) {
    IdxTuple* t[] = {&s._rank_sizes, &s._mega_block_sizes, &s._block_sizes, &s._micro_block_sizes, &s._nano_block_sizes, &s._pico_block_sizes}; return *t[l];
}
struct World { Ctx c; World() : c(h_context_t::new_dims()) {} };
static const idx_t REQ[NL][3] = {{37, 50, 64}, {24, 0, 33}, {0, 17, 40}, {7, 0, 8}, {0, 5, 0}, {3, 0, 5}};

// contract of one level: whole vectors or all of the enclosing size; what was asked for, rounded up, as far as it fits.
static idx_t up(idx_t a, idx_t f) { return f == 1 ? a : (a + f - 1) / f * f; }
static void nests(idx_t req, idx_t out, idx_t in, idx_t f) {
    yv_assert(in >= 1, "a block size is positive");
    yv_assert(in <= out, "a block lies within the enclosing block");
    yv_assert(int(in == out) | int(in % f == 0), "a block is whole vectors unless it is all of the enclosing block");
    yv_assert(int(req > 0) | int(in == out), "a size not asked for is that of the enclosing block");
    yv_assert(int(req <= 0) | int(in == out) | (int(in >= req) & int(in < req + f)), "a size asked for is rounded up to whole vectors");
    yv_assert(int(req <= 0) | int(in != out) | int(up(req, f) >= out), "a size that fits is not changed to that of the enclosing block");
}
// The same, for a call of find_num_subsets() in any dimension; the number it returns is only printed.
static idx_t c_subsets(std::ostream&, IdxTuple& inner, const std::string&, const IdxTuple& outer, const std::string&, const IdxTuple& mults, const std::string&, const std::string& step) {
    for (int i = 0; i < inner.get_num_dims(); i++) {
        const std::string& n = inner.get_dim_name(i); if (n == step) continue;
        const idx_t* mp = mults.lookup(n); idx_t req = inner[i], out = outer[n], f = mp ? *mp : 1;
        yv_assert(int(out >= 1) & int(f >= 1), "the size of an enclosing block is known before those of the blocks in it");
        if (req <= 0) inner[i] = out;
        else { idx_t r = up(req, f), v = yv_fresh(1, 2 * M); yv_assume((int(v == r) & int(r <= out)) | (int(v == out) & int(r >= out))); inner[i] = v; }
    }
    return yv_fresh(1, 2048);
}
static const idx_t ALL = M; // asks for more than any enclosing block.
// Level l asks for any positive size in dimension d of a rank of any size, and those below for all of it: each call of find_num_subsets() keeps its contract.
static void one(int d, int l) {
    World w; KernelSettings& s = *w.c.actl;
    for (int k = 0; k < NL; k++) for (int e = 0; e < 3; e++) level(s, k)[e + 1] = REQ[k][e];
    idx_t R = yv_i64("rank", 1, M), req = yv_i64(LN[l], 1, M);
    for (int k = 1; k < NL; k++) level(s, k)[d + 1] = k == BLOCK ? ALL : 0;
    level(s, RANK)[d + 1] = R; level(s, l)[d + 1] = req;
    s.adjust_settings();
    yv_assert(s._rank_sizes[d + 1] == R, "the size of the rank is not changed");
    for (int k = 1; k < NL; k++) for (int e = 0; e < 3; e++) {
        idx_t r = e == d ? k == l ? req : k == BLOCK ? ALL : 0 : REQ[k][e];
        if (k == BLOCK && r == 0) r = s.def_blk_size;
        nests(r, level(s, k - 1)[e + 1], level(s, k)[e + 1], F[e]);
    }
    yv_cover("one level");
}
// All levels ask for anything in dimension d; 'who': bit l set means that level l asks for a positive size; others ask for nothing.
static void all(int d, int who) {
    World w; KernelSettings& s = *w.c.actl; idx_t req[NL]; yv_contract_named("yask::find_num_subsets", (void*)c_subsets);
    for (int l = 0; l < NL; l++) for (int e = 0; e < 3; e++) level(s, l)[e + 1] = REQ[l][e];
    for (int l = 0; l < NL; l++) {
        req[l] = l == RANK || (who >> l & 1) ? yv_i64(LN[l], 1, M) : 0;
        level(s, l)[d + 1] = req[l];
    }
    s.adjust_settings();
    idx_t got[NL][3];
    for (int l = 0; l < NL; l++) for (int e = 0; e < 3; e++) got[l][e] = level(s, l)[e + 1];
    yv_assert(got[RANK][d] == req[RANK], "the size of the rank is not changed");
    for (int l = 1; l < NL; l++) for (int e = 0; e < 3; e++) {
        idx_t r = e == d ? req[l] : REQ[l][e];
        if (l == BLOCK && r == 0) r = s.def_blk_size;
        nests(r, got[l - 1][e], got[l][e], F[e]);
    }
    s.adjust_settings();
    for (int l = 0; l < NL; l++) for (int e = 0; e < 3; e++) yv_assert(level(s, l)[e + 1] == got[l][e], "adjusting again changes nothing");
    yv_cover("nested");
}
#define E1(d, w) extern "C" void h_nest_##d##_##w() { all(d, w); }
E1(0, 62) E1(1, 62) E1(2, 62) E1(0, 54) E1(1, 26) E1(2, 44) E1(0, 0)
#define E0(d, l) extern "C" void h_level_##d##_##l() { one(d, l); }
E0(0, 1) E0(1, 2) E0(1, 3) E0(0, 4) E0(1, 5) E0(2, 2) E0(1, 1) 

// Sizes below zero ask for nothing.
extern "C" void h_nest_neg() {
    World w; KernelSettings& s = *w.c.actl;
    for (int l = 0; l < NL; l++) for (int e = 0; e < 3; e++) level(s, l)[e + 1] = l == RANK ? 40 : yv_i64(LN[l], -M, -1);
    s.adjust_settings();
    for (int l = 0; l < NL; l++) for (int e = 0; e < 3; e++) yv_assert(level(s, l)[e + 1] == 40, "a negative size stands for the enclosing block");
}

// Steps: none is negative, and those not asked for follow the blocks.
extern "C" void h_nest_steps() {
    World w; KernelSettings& s = *w.c.actl;
    for (int l = 0; l < NL; l++) for (int e = 0; e < 3; e++) level(s, l)[e + 1] = REQ[l][e];
    idx_t r = yv_i64("mega", -M, M), b = yv_i64("block", -M, M), m = yv_i64("micro", -M, M);
    s._mega_block_sizes[0] = r; s._block_sizes[0] = b; s._micro_block_sizes[0] = m;
    s.adjust_settings();
    b = b > 0 ? b : 0; r = r > 0 ? r : b; m = m > 0 ? m : b;
    yv_assert(s._mega_block_sizes[0] == r && s._block_sizes[0] == b && s._micro_block_sizes[0] == m, "steps of a mega- or micro-block not asked for are those of a block, and none is negative");
    s.adjust_settings();
    yv_assert(s._mega_block_sizes[0] == r && s._block_sizes[0] == b && s._micro_block_sizes[0] == m, "adjusting again changes no steps");
}

// Several inner threads: the nano-block sizes chosen still nest, and threads are bound along a domain dimension.
static void threads(int d, bool bind, bool ask) {
    World w; yv_contract_named("yask::find_num_subsets", (void*)c_subsets); KernelSettings& s = *w.c.actl; int n = (int)yv_i64("threads", 2, 64);
    for (int l = 0; l < NL; l++) for (int e = 0; e < 3; e++) level(s, l)[e + 1] = l == NANO && !ask ? 0 : REQ[l][e];
    s._rank_sizes[d + 1] = yv_i64("rank", 1, M); s._block_sizes[d + 1] = yv_i64("block", 1, M); s._mega_block_sizes[d + 1] = s._micro_block_sizes[d + 1] = 0;
    if (ask) s._nano_block_sizes[d + 1] = yv_i64("nano", 1, M);
    s.num_inner_threads = n; s.bind_inner_threads = bind;
    s.adjust_settings();
    idx_t got[NL][3];
    for (int l = 0; l < NL; l++) for (int e = 0; e < 3; e++) got[l][e] = level(s, l)[e + 1];
    for (int l = 1; l < NL; l++) for (int e = 0; e < 3; e++) {
        yv_assert(got[l][e] >= 1 && got[l][e] <= got[l - 1][e], "with several threads, a block lies within the enclosing block");
        yv_assert(got[l][e] == got[l - 1][e] || got[l][e] % F[e] == 0, "with several threads, a block is whole vectors unless it is all of the enclosing block");
    }
    int p = s._bind_posn;
    yv_assert(p >= 1 && p <= 3, "threads are bound along a domain dimension");
    if (bind) for (int e = 0; e < 3; e++) if (e + 1 < p && e != 2)
        yv_assert((got[BLOCK][e] + got[NANO][e] - 1) / got[NANO][e] < n || p == 1, "threads are bound along the first dimension with work for each of them");
    s.adjust_settings();
    for (int l = 0; l < NL; l++) for (int e = 0; e < 3; e++) yv_assert(level(s, l)[e + 1] == got[l][e], "with several threads, adjusting again changes nothing");
}
#define E2(d, b, a) extern "C" void h_nest_thr_##d##_##b##a() { threads(d, b, a); }
E2(0, 0, 0) E2(1, 0, 0) E2(0, 1, 0) E2(1, 1, 0) E2(2, 1, 0) E2(0, 1, 1) E2(1, 1, 1)

// Tiles: a tile lies within its block and is whole inner blocks unless it is all of the block. (Built with USE_TILING.)
#ifdef USE_TILING
static void tiles(int d, int who) {
    World w; KernelSettings& s = *w.c.actl;
    for (int l = 0; l < NL; l++) for (int e = 0; e < 3; e++) level(s, l)[e + 1] = REQ[l][e];
    IdxTuple* t[] = {&s._rank_tile_sizes, &s._mega_block_tile_sizes, &s._block_tile_sizes, &s._micro_block_tile_sizes, &s._nano_block_tile_sizes}; idx_t req[5];
    static const char* TN[] = {"rank_tile", "mega_tile", "block_tile", "micro_tile", "nano_tile"};
    for (int k = 0; k < 5; k++) (*t[k])[d + 1] = req[k] = who >> k & 1 ? yv_i64(TN[k], 0, M) : 0;
    s.adjust_settings();
    idx_t got[5][3];
    for (int k = 0; k < 5; k++) for (int e = 0; e < 3; e++) { got[k][e] = (*t[k])[e + 1]; nests(e == d ? req[k] : 0, level(s, k)[e + 1], got[k][e], level(s, k + 1)[e + 1]); }
    s.adjust_settings();
    for (int k = 0; k < 5; k++) for (int e = 0; e < 3; e++) yv_assert((*t[k])[e + 1] == got[k][e], "adjusting again changes no tile");
}
#define E3(d, w) extern "C" void h_nest_tile_##d##_##w() { tiles(d, w); }
E3(0, 3) E3(0, 12) E3(0, 16) E3(1, 24) E3(1, 5) E3(2, 18) E3(2, 8)
#endif
